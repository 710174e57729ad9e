#include "spaces.h"
using namespace conv;

static void oracle(mc::Ctx& ctx, const Case& c, const Expected& x, const Out& o)
{
	oracleDedup(ctx, c, x, o);
	oracleDedupModel(ctx, c, x, o);
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		SeqOptions so;
		so.maxN = thorough ? 8 : 6;
		so.noIndices = false;
		s.push_back({"seq", body([so](mc::Ctx& c) { return genSeq(c, so); }, oracle), 5, false, 40,
			"all index sequences up to renaming, length 1.." + std::to_string(so.maxN) + ", any restarts, x every primitive type x output width "
			"x maximum index (4 smallest, default, restart value) x 4 input forms"});
		SeqOptions sd = so;
		sd.minN = so.maxN + 1;
		sd.maxN = thorough ? 10 : 8;
		sd.supplies = {SupplyU16, SupplyFold};
		sd.wide = sd.restartMax = false;
		sd.extraMax = 1;
		s.push_back({"seq-deep", body([sd](mc::Ctx& c) { return genSeq(c, sd); }, oracle), 6, false, 40,
			"all index sequences up to renaming, length " + std::to_string(sd.minN) + ".." + std::to_string(sd.maxN) + ", any restarts, u16"});
		SeqOptions sp = so;
		sp.maxN = thorough ? 5 : 4;
		sp.extraMax = 1;
		sp.wide = thorough;
		s.push_back({"pair", body([sp](mc::Ctx& c) { return genPair(c, sp); }, oracle), 6, false, 40,
			"two input streams with independent index sequences, length 1.." + std::to_string(sp.maxN)});
		SeqOptions sl = so;
		sl.minN = 20;
		sl.maxN = thorough ? 36 : 24;
		sl.extraMax = 3;
		sl.wide = false;
		s.push_back({"long", body([sl](mc::Ctx& c) { return genLong(c, sl, 2); }, oracle), 5, false, 40,
			"sequences of about " + std::to_string(sl.maxN) + " fresh vertices with up to 2 repeats or restarts anywhere"});
		s.push_back({"stride", body([](mc::Ctx& c) { return genStride(c, 96, 3); }, oracle), 3, false, 40,
			"vertices of 1.." + std::to_string(96) + " bytes over 1-3 streams that differ in any one byte"});
		s.push_back({"large", body([thorough](mc::Ctx& c) { return genLarge(c, thorough ? allPrims() : std::vector<PrimitiveType>{
			PrimitiveType::PointList, PrimitiveType::TriangleList, PrimitiveType::TriangleStrip}, thorough); }, oracle), 3, false, 60,
			"vertex counts around the index type's and explicit maxima"});
		std::vector<unsigned> wide = thorough ? std::vector<unsigned>{97, 100, 112, 127, 128, 129, 160, 192, 255, 256, 257, 300, 384, 511, 512, 513, 640, 1000, 1024,
			1025, 2048, 4096} : std::vector<unsigned>{100, 128, 129, 192, 256, 257, 512, 1028};
		s.push_back({"wide", body([wide](mc::Ctx& c) { return genWide(c, wide); }, oracle), 3, false, 40,
			"vertices of up to " + std::to_string(wide.back()) + " bytes that differ in any one byte"});
		std::vector<unsigned> many = thorough ? std::vector<unsigned>{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 48,
			63, 64, 65, 100, 127, 128, 129, 255, 256, 257} : std::vector<unsigned>{4, 5, 8, 9, 12, 16, 17, 32, 33, 64, 65, 129, 257};
		s.push_back({"many", body([many](mc::Ctx& c) { return genMany(c, many); }, oracle), 4, false, 40,
			"up to " + std::to_string(many.back()) + " elements, a stream each, in threes or together, on both sides, with 3 index forms and 4 choices of transforms"});
		s.push_back({"collision", body([thorough](mc::Ctx& c) { return genCollision(c, thorough ? 7 : 5, allPrims()); }, oracle), 4, false, 40,
			"every sequence of up to " + std::to_string(thorough ? 7 : 5) + " positions over four vertices with the same 64-bit hash, 7 arrangements of blocks in streams"});
		s.push_back({"alike", body([thorough](mc::Ctx& c) { return genAlike(c, thorough ? 6 : 4); }, oracleAlike), 4, false, 40,
			"floating point vertices that compare equal or never do: zeros of either sign, NaNs, denormals, infinities, values that round alike; every pair, "
			"up to " + std::to_string(thorough ? 6 : 4) + " positions, 8 layouts and 5 arrangements"});
		addRaw(s, allPrims(), thorough, oracle, {PrimitiveType::PointList, PrimitiveType::TriangleFan});
		addSizes(s, allPrims(), thorough, oracle, !thorough);
		s.push_back({"twice", body([](mc::Ctx& c) { return genTwice(c, allPrims()); }, oracle), 4, false, 40,
			"elements output in two or three streams with different formats and transforms, every combination of shapes"});
		return s;
	});
}
