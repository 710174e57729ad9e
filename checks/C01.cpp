#include "spaces.h"
using namespace conv;

// Lists, and every primitive type when no indices are output.
static mc::Body content(std::function<Case(mc::Ctx&)> gen)
{
	return body(gen, [](mc::Ctx& ctx, const Case& c, const Expected& x, const Out& o) { oracleContent(ctx, c, x, o); });
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		SeqOptions so;
		so.prims = listPrims();
		so.maxN = thorough ? 8 : 7;
		s.push_back({"seq", content([so](mc::Ctx& c) { return genSeq(c, so); }), 5, false, 40,
			"all index sequences up to renaming, length 1.." + std::to_string(so.maxN) + " x point/line/triangle/patch lists (1-4 points) x "
			"output width x maximum index (4 smallest, default, restart value) x 4 input forms"});
		SeqOptions sn = so;
		sn.prims = stripPrims();
		sn.maxN = thorough ? 8 : 6;
		s.push_back({"unindexed", content([sn](mc::Ctx& ctx) {
			Case c = genSeq(ctx, sn);
			if (c.ot != IndexType::NoIndices)
			{
				c.ot = IndexType::NoIndices;
				c.defaultMax = true;
				for (auto& in : c.in)
					for (std::uint32_t v : in.idx)
						if (v == restartValue(in.it))
							throw mc::SkipPath();
			}
			return c; }), 5, false, 40, "strips and fans without output indices, all index sequences of length 1.." + std::to_string(sn.maxN)});
		SeqOptions sd = so;
		sd.minN = so.maxN + 1;
		sd.maxN = thorough ? 11 : 9;
		sd.supplies = {SupplyU16};
		sd.wide = sd.noIndices = sd.restartMax = false;
		sd.extraMax = thorough ? 3 : 1;
		s.push_back({"seq-deep", content([sd](mc::Ctx& c) { return genSeq(c, sd); }), 6, false, 40,
			"all index sequences up to renaming, length " + std::to_string(sd.minN) + ".." + std::to_string(sd.maxN) + ", u16, smallest maximum indices"});
		SeqOptions sp = so;
		sp.maxN = thorough ? 6 : 4;
		sp.extraMax = 2;
		s.push_back({"pair", content([sp](mc::Ctx& c) { return genPair(c, sp); }), 6, false, 40,
			"two input streams with independent index sequences, length 1.." + std::to_string(sp.maxN)});
		SeqOptions sl = so;
		sl.minN = 20;
		sl.maxN = thorough ? 36 : 24;
		sl.extraMax = 5;
		sl.noIndices = false;
		unsigned dev = thorough ? 3 : 2;
		s.push_back({"long", content([sl, dev](mc::Ctx& c) { return genLong(c, sl, dev); }), 5, false, 40,
			"sequences of about " + std::to_string(sl.maxN) + " fresh vertices with up to " + std::to_string(dev) + " repeats anywhere"});
		s.push_back({"formats", content([](mc::Ctx& c) { return genFormats(c, false); }), 2, false, 40,
			"all 70x70 pairs of input and output layout/type, boundary values in every component, alone and between other elements"});
		CfgOptions co;
		co.perStreamIndices = thorough;
		s.push_back({"arrangements", content([co](mc::Ctx& c) { return genCfg(c, co); }), 5, false, 40,
			"every arrangement of 3 elements into output streams x into input streams x unused elements and streams x input index forms"});
		s.push_back({"large", content([thorough](mc::Ctx& c) { return genLarge(c, listPrims(), thorough); }), 3, false, 60,
			"vertex counts around the index type's and explicit maxima"});
		std::vector<unsigned> many = thorough ? std::vector<unsigned>{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 48,
			63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 513, 1000} : std::vector<unsigned>{4, 5, 8, 9, 12, 16, 17, 32, 33, 64, 65, 129, 257, 300};
		s.push_back({"many", body([many](mc::Ctx& c) { return genMany(c, many); }, [](mc::Ctx& ctx, const Case& c, const Expected& x, const Out& o) {
			if (c.ot == IndexType::NoIndices || !isStrip(c.prim))
				oracleContent(ctx, c, x, o);
			else
				oraclePrims(ctx, c, x, o); }), 4, false, 40,
			"up to " + std::to_string(many.back()) + " elements, a stream each, in threes or together, on both sides, with 3 index forms and 4 choices of transforms"});
		s.push_back({"collision", content([thorough](mc::Ctx& c) { return genCollision(c, thorough ? 7 : 5, listPrims()); }), 4, false, 40,
			"every sequence of up to " + std::to_string(thorough ? 7 : 5) + " positions over four vertices with the same 64-bit hash, 7 arrangements of blocks in streams"});
		s.push_back({"alias", body([](mc::Ctx& c) { return genAlias(c); }, [](mc::Ctx& ctx, const Case& c, const Expected& x, const Out& o) {
			if (c.ot == IndexType::NoIndices || !isStrip(c.prim))
				oracleContent(ctx, c, x, o);
			else
				oraclePrims(ctx, c, x, o); }), 6, false, 40,
			"two or three streams whose vertex or index arrays are the same memory, every combination of 3 formats, padding, counts and index types"});
		std::vector<unsigned> lengths = thorough ? std::vector<unsigned>{1, 2, 3, 4, 7, 8, 9, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1025, 5000, 65537} :
			std::vector<unsigned>{1, 2, 7, 8, 15, 16, 31, 32, 33, 64, 65, 129, 257, 1025, 65537};
		s.push_back({"names", content([lengths](mc::Ctx& c) { return genNames(c, lengths, false); }), 4, false, 40,
			"two elements with names of 1 to " + std::to_string(lengths.back()) + " bytes that differ in any one byte (of long ones the first, last, middle and those around powers of two) or in length (5 replacements, with NUL), in one or two streams"});
		std::vector<unsigned> strides = thorough ? std::vector<unsigned>{1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 20, 24, 28, 32, 36, 48, 64, 100, 128, 255, 256} : std::vector<unsigned>{1, 2, 3, 4, 7, 8, 12, 16, 24, 32, 64};
		s.push_back({"far", body([strides](mc::Ctx& c) { return genFar(c, {PrimitiveType::PointList, PrimitiveType::LineList, PrimitiveType::PatchList}, strides); }, oracleContent), 4, false, 40,
			"vertices at either side of 2^31, 2^32 and 2^35 bytes and of indices 2^31 and 2^32, vertex sizes up to " + std::to_string(strides.back())});
		addRaw(s, listPrims(), thorough, [](mc::Ctx& ctx, const Case& c, const Expected& x, const Out& o) { oracleContent(ctx, c, x, o); }, {PrimitiveType::PointList});
		addSizes(s, listPrims(), thorough, [](mc::Ctx& ctx, const Case& c, const Expected& x, const Out& o) { oracleContent(ctx, c, x, o); });
		addVast(s, thorough ? std::vector<PrimitiveType>{PrimitiveType::PointList, PrimitiveType::PatchList} : std::vector<PrimitiveType>{PrimitiveType::PointList}, thorough, Vast::Content);
		s.push_back({"twice", body([](mc::Ctx& c) { return genTwice(c, listPrims()); }, oracleContent), 4, false, 40,
			"elements output in two or three streams with different formats and transforms, every combination of shapes"});
		return s;
	});
}
