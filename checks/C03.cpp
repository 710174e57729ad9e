#include "spaces.h"
using namespace conv;

static void oracle(mc::Ctx& ctx, const Case& c, const Expected& x, const Out& o)
{
	oracleIndices(ctx, c, x, o);
	oracleRestarts(ctx, c, x, o);
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		SeqOptions so;
		so.maxN = thorough ? 7 : 5;
		s.push_back({"seq", body([so](mc::Ctx& c) { return genSeq(c, so); }, oracle), 5, false, 40,
			"all index sequences up to renaming, length 1.." + std::to_string(so.maxN) + ", any restarts, x every primitive type x output width "
			"x maximum index (4 smallest, default, restart value) x 4 input forms"});
		SeqOptions sd = so;
		sd.minN = so.maxN + 1;
		sd.maxN = thorough ? 9 : 7;
		sd.supplies = {SupplyU16};
		sd.wide = sd.noIndices = sd.restartMax = false;
		sd.outStreams = 2;
		s.push_back({"seq-deep", body([sd](mc::Ctx& c) { return genSeq(c, sd); }, oracle), 6, false, 40,
			"all index sequences up to renaming, length " + std::to_string(sd.minN) + ".." + std::to_string(sd.maxN) +
			", any restarts, u16, 4 smallest maximum indices, one and two output streams"});
		SeqOptions sp = so;
		sp.maxN = thorough ? 5 : 3;
		s.push_back({"pair", body([sp](mc::Ctx& c) { return genPair(c, sp); }, oracle), 6, false, 40,
			"two input streams with independent index sequences, length 1.." + std::to_string(sp.maxN)});
		SeqOptions sl = so;
		sl.minN = thorough ? 30 : 12;
		sl.maxN = thorough ? 34 : 15;
		sl.extraMax = thorough ? 7 : 2;
		sl.noIndices = false;
		sl.restartMax = thorough;
		unsigned dev = 2;
		s.push_back({"long", body([sl, dev](mc::Ctx& c) { return genLong(c, sl, dev); }, oracle), 5, false, 40,
			"sequences of about " + std::to_string(sl.maxN) + " fresh vertices with up to 2 repeats or restarts anywhere"});
		s.push_back({"large", body([thorough](mc::Ctx& c) { return genLarge(c, thorough ? allPrims() : std::vector<PrimitiveType>{
			PrimitiveType::TriangleList, PrimitiveType::TriangleStrip}, thorough); }, oracle), 3, false, 60,
			"vertex counts around the index type's and explicit maxima"});
		std::vector<unsigned> many = thorough ? std::vector<unsigned>{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 48,
			63, 64, 65, 100, 127, 128, 129, 255, 256, 257} : std::vector<unsigned>{4, 5, 8, 9, 12, 16, 17, 32, 33, 64, 65, 129};
		s.push_back({"many", body([many](mc::Ctx& c) { return genMany(c, many); }, oracle), 4, false, 40,
			"up to " + std::to_string(many.back()) + " elements, a stream each, in threes or together, on both sides, with 3 index forms and 4 choices of transforms"});
		s.push_back({"alias", body([thorough](mc::Ctx& c) { return genAlias(c, thorough ? 3 : 2); }, oracle), 6, false, 40,
			"two" + std::string(thorough ? " or three" : "") + " streams whose vertex or index arrays are the same memory, every combination of 3 formats, padding, counts and index types"});
		addRaw(s, allPrims(), thorough, oracle);
		addSizes(s, allPrims(), thorough, oracle, !thorough);
		s.push_back({"twice", body([](mc::Ctx& c) { return genTwice(c, allPrims()); }, oracle), 4, false, 40,
			"elements output in two or three streams with different formats and transforms, every combination of shapes"});
		return s;
	});
}
