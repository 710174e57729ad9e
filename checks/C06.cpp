#include "spaces.h"
using namespace conv;

static void oracle(mc::Ctx& ctx, const Case& c, const Expected& x, const Out& o)
{
	oracleBounds(ctx, c, x, o);
	oracleBoundsTransform(ctx, c, x, o);
	if (!isStrip(c.prim))
		oracleContent(ctx, c, x, o); // elements the transform doesn't change
}

// Two elements with their own bounds and opposite value orders, so that using one for the other
// shows; every subset of them normalized.
static Case genTwo(mc::Ctx& ctx, unsigned n)
{
	Case c;
	c.prim = PrimitiveType::PointList;
	c.ot = ctx.flag() ? IndexType::NoIndices : IndexType::UInt16;
	c.defaultMax = true;
	static const std::vector<Elem> out = {{"a", X8Y8, UNorm}, {"b", X16Y16, SNorm}, {"c", X8Y8Z8W8, SNorm}};
	auto groups = arrangement(ctx, 3);
	for (auto& g : groups)
	{
		VertexFormat f;
		for (unsigned e : g)
			f.appendElement(out[e].name, out[e].layout, out[e].type);
		c.out.push_back(f);
	}
	for (unsigned e = 0; e < 3; ++e)
		if (ctx.flag())
			c.transforms.emplace_back(out[e].name, Transform::Bounds);
	InStream s;
	s.fmt = format(ctx, {{"c", X32Y32Z32, Float}, {"a", X32Y32, Float}, {"b", X32Y32, Float}});
	s.setData(n);
	static const float vals[3][4] = {{-10, 30, 5, 0}, {0.5f, 0.25f, 100, 7}, {-1, 1, 0.125f, -3}};
	for (unsigned i = 0; i < n; ++i)
		for (unsigned e = 0; e < 3; ++e)
		{
			unsigned k = ctx.choose(3);
			unsigned off = s.fmt.find(e == 0 ? "a" : e == 1 ? "b" : "c")->offset;
			float f[3] = {vals[e][k], vals[e][k]*2 - 1, vals[e][(k + 1)%4]};
			std::memcpy(s.vertex(i) + off, f, e == 2 ? 12 : 8);
		}
	c.in.push_back(std::move(s));
	return c;
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		BoundsOptions bo;
		bo.bounds = true;
		bo.n = thorough ? 3 : 2;
		bo.restarts = true;
		s.push_back({"values", body([bo](mc::Ctx& c) { return genBounds(c, bo); }, oracle), 5, false, 40,
			"every assignment of 4 values to 2 components of 1.." + std::to_string(bo.n) + " positions x 9 input formats x 9 output formats x input forms"});
		unsigned n = thorough ? 3 : 2;
		s.push_back({"elements", body([n](mc::Ctx& c) { return genTwo(c, n); }, oracle), 5, false, 40,
			"three elements over every arrangement of output streams, every subset normalized, every assignment of 3 values over " + std::to_string(n) + " positions"});
		s.push_back({"formats", body([](mc::Ctx& ctx) {
			Case c = genFormats(ctx, true);
			c.transforms[0].second = Transform::Bounds;
			return c; }, oracle), 2, false, 40, "all 70x70 pairs of input and output layout/type with boundary values"});
		std::vector<unsigned> many = thorough ? std::vector<unsigned>{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 48,
			63, 64, 65, 100, 127, 128, 129, 255, 256, 257} : std::vector<unsigned>{4, 5, 8, 9, 12, 16, 17, 32, 33, 64, 65, 129};
		s.push_back({"many", body([many](mc::Ctx& c) { return genMany(c, many); }, oracle), 4, false, 40,
			"up to " + std::to_string(many.back()) + " elements, a stream each, in threes or together, on both sides, with 3 index forms and 4 choices of transforms"});
		s.push_back({"precision", body([](mc::Ctx& c) { return genPrecision(c, true); }, oracle), 4, false, 40,
			"every sequence of 1-3 of 29 doubles or 25 floats at the limits of the formats x 6 normalized output formats"});
		s.push_back({"twice", body([](mc::Ctx& c) { return genTwice(c, listPrims()); }, oracle), 4, false, 40,
			"elements output in two or three streams with different formats and transforms, every combination of shapes"});
		return s;
	});
}
