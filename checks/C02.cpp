#include "spaces.h"
using namespace conv;

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		SeqOptions so;
		so.prims = stripPrims();
		so.maxN = thorough ? 8 : 6;
		so.noIndices = true;
		s.push_back({"seq", body([so](mc::Ctx& c) { return genSeq(c, so); }, oraclePrims), 5, false, 40,
			"all index sequences up to renaming, length 1.." + std::to_string(so.maxN) + ", any restarts, x strips/fan x output width "
			"x maximum index (4 smallest, default, restart value) x 4 input forms"});
		SeqOptions sd = so;
		sd.maxN = thorough ? 10 : 8;
		sd.minN = so.maxN + 1;
		sd.supplies = {SupplyU16};
		sd.wide = sd.noIndices = sd.restartMax = false;
		sd.outStreams = 2;
		s.push_back({"seq-deep", body([sd](mc::Ctx& c) { return genSeq(c, sd); }, oraclePrims), 6, false, 40,
			"all index sequences up to renaming, length " + std::to_string(sd.minN) + ".." + std::to_string(sd.maxN) +
			", any restarts, u16, 4 smallest maximum indices, one and two output streams"});
		SeqOptions sp = so;
		sp.maxN = thorough ? 5 : 4;
		sp.extraMax = 2;
		sp.wide = thorough;
		s.push_back({"pair", body([sp](mc::Ctx& c) { return genPair(c, sp); }, oraclePrims), 6, false, 40,
			"two input streams with independent index sequences, length 1.." + std::to_string(sp.maxN)});
		SeqOptions sl = so;
		sl.minN = thorough ? 30 : 20;
		sl.maxN = thorough ? 32 : 22;
		sl.extraMax = 6;
		sl.noIndices = false;
		unsigned dev = thorough ? 3 : 2;
		s.push_back({"long", body([sl, dev](mc::Ctx& c) { return genLong(c, sl, dev); }, oraclePrims), 5, false, 40,
			"sequences of " + std::to_string(sl.maxN - 2) + ".." + std::to_string(sl.maxN) + " fresh vertices with up to " +
			std::to_string(dev) + " repeats or restarts anywhere, 7 smallest maximum indices, default, restart value"});
		s.push_back({"large", body([thorough](mc::Ctx& c) { return genLarge(c, stripPrims(), thorough); }, oraclePrims), 3, false, 60,
			"vertex counts around the index type's and explicit maxima"});
		s.push_back({"collision", body([thorough](mc::Ctx& c) { return genCollision(c, thorough ? 8 : 6, stripPrims()); }, oraclePrims), 4, false, 40,
			"every sequence of up to " + std::to_string(thorough ? 8 : 6) + " positions over four vertices with the same 64-bit hash, 7 arrangements of blocks in streams"});
		std::vector<unsigned> strides = thorough ? std::vector<unsigned>{1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 20, 24, 28, 32, 36, 48, 64, 100, 128, 255, 256} : std::vector<unsigned>{1, 2, 3, 4, 7, 8, 12, 16, 24, 32, 64};
		s.push_back({"far", body([strides](mc::Ctx& c) { return genFar(c, stripPrims(), strides); }, oraclePrims), 4, false, 40,
			"vertices at either side of 2^31, 2^32 and 2^35 bytes and of indices 2^31 and 2^32, vertex sizes up to " + std::to_string(strides.back())});
		addRaw(s, stripPrims(), thorough, oraclePrims, {PrimitiveType::LineStrip, PrimitiveType::TriangleStrip});
		addSizes(s, stripPrims(), thorough, oraclePrims);
		addVast(s, {PrimitiveType::LineStrip}, thorough, Vast::Content);
		return s;
	});
}
