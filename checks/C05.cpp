#include "spaces.h"
using namespace conv;

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		BoundsOptions bo;
		bo.n = thorough ? 4 : 3;
		s.push_back({"values", body([bo](mc::Ctx& c) { return genBounds(c, bo); }, oracleBounds), 5, false, 40,
			"every assignment of 4 values to 2 components of 1.." + std::to_string(bo.n) + " drawn positions x 9 input formats x unindexed, "
			"indexed with unused extreme vertices, strip with a restart anywhere, second stream"});
		SeqOptions so;
		so.maxN = thorough ? 7 : 6;
		so.extraMax = 1;
		s.push_back({"seq", body([so](mc::Ctx& c) { return genSeq(c, so); }, oracleBounds), 5, false, 40,
			"all index sequences up to renaming, length 1.." + std::to_string(so.maxN) + ", any restarts, every primitive type"});
		SeqOptions sp = so;
		sp.maxN = thorough ? 5 : 4;
		s.push_back({"pair", body([sp](mc::Ctx& c) { return genPair(c, sp); }, oracleBounds), 6, false, 40,
			"two input streams with independent index sequences, length 1.." + std::to_string(sp.maxN)});
		s.push_back({"formats", body([](mc::Ctx& c) { return genFormats(c, false); }, oracleBounds), 2, false, 40,
			"all 70x70 pairs of input and output layout/type with boundary values in every component"});
		s.push_back({"transformed", body([](mc::Ctx& c) { return genFormats(c, true); }, oracleBounds), 2, false, 40,
			"the same with each transform set: bounds are those before the transform"});
		CfgOptions co;
		co.perStreamIndices = thorough;
		s.push_back({"arrangements", body([co](mc::Ctx& c) { return genCfg(c, co); }, oracleBounds), 5, false, 40,
			"every arrangement of 3 elements into output streams x into input streams x unused elements and streams x input index forms"});
		std::vector<unsigned> many = thorough ? std::vector<unsigned>{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 48,
			63, 64, 65, 100, 127, 128, 129, 255, 256, 257} : std::vector<unsigned>{4, 5, 8, 9, 12, 16, 17, 32, 33, 64, 65, 129, 257};
		s.push_back({"many", body([many](mc::Ctx& c) { return genMany(c, many); }, oracleBounds), 4, false, 40,
			"up to " + std::to_string(many.back()) + " elements, a stream each, in threes or together, on both sides, with 3 index forms and 4 choices of transforms"});
		s.push_back({"alias", body([](mc::Ctx& c) { return genAlias(c); }, oracleBounds), 6, false, 40,
			"two or three streams whose vertex or index arrays are the same memory, every combination of 3 formats, padding, counts and index types"});
		s.push_back({"precision", body([](mc::Ctx& c) { return genPrecision(c, false); }, oracleBounds), 4, false, 40,
			"every sequence of 1-3 of 29 doubles or 25 floats at the limits of the formats"});
		std::vector<unsigned> lengths = thorough ? std::vector<unsigned>{1, 2, 3, 4, 7, 8, 9, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1025, 5000, 65537} :
			std::vector<unsigned>{1, 2, 7, 8, 15, 16, 31, 32, 33, 64, 65, 129, 257, 1025, 65537};
		s.push_back({"names", body([lengths](mc::Ctx& c) { return genNames(c, lengths, true); }, oracleBounds), 4, false, 40,
			"two elements with names of 1 to " + std::to_string(lengths.back()) + " bytes that differ in any one byte (of long ones the first, last, middle and those around powers of two) or in length (5 replacements, with NUL), in one or two streams"});
		std::vector<unsigned> strides = thorough ? std::vector<unsigned>{1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 20, 24, 28, 32, 36, 48, 64, 100, 128, 255, 256} : std::vector<unsigned>{1, 2, 3, 4, 7, 8, 12, 16, 24, 32, 64};
		s.push_back({"far", body([strides](mc::Ctx& c) { return genFar(c, {PrimitiveType::PointList, PrimitiveType::LineStrip}, strides); }, oracleBounds), 4, false, 40,
			"vertices at either side of 2^31, 2^32 and 2^35 bytes and of indices 2^31 and 2^32, vertex sizes up to " + std::to_string(strides.back())});
		addRaw(s, allPrims(), thorough, oracleBounds, {PrimitiveType::PointList});
		addSizes(s, allPrims(), thorough, oracleBounds);
		addVast(s, {PrimitiveType::PointList, PrimitiveType::LineStrip}, thorough, Vast::Bounds);
		std::vector<std::uint32_t> longer = thorough ? std::vector<std::uint32_t>{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 65535, 65536, 65537, 131073} :
			std::vector<std::uint32_t>{16, 33, 64, 65, 128, 129, 256, 257, 512, 1024, 1025, 4096, 4097, 65537};
		s.push_back({"extremes", body([longer, thorough](mc::Ctx& c) { return genExtremes(c, longer, thorough); }, oracleBounds), 4, false, 40,
			"streams of " + std::to_string(longer.front()) + " to " + std::to_string(longer.back()) + " vertices of which one at 11 places is the least or greatest in any of 4 components, 3 ways to index, " + (thorough ? "4" : "3") + " formats"});
		s.push_back({"twice", body([](mc::Ctx& c) { return genTwice(c, allPrims()); }, oracleBounds), 4, false, 40,
			"elements output in two or three streams with different formats and transforms, every combination of shapes"});
		return s;
	});
}
