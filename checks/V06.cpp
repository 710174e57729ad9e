// Vertex values as tuples: what they hold, how they compare and how they grow bounds.
#include "values.h"
using namespace val;

static const double big = std::numeric_limits<double>::max(), tiny = std::numeric_limits<double>::denorm_min(), least = std::numeric_limits<double>::min();

static const std::vector<double>& numbers()
{
	static const std::vector<double> r = [] {
		std::vector<double> v = {0.0, tiny, least, 0.1, static_cast<double>(0.1f), 1.0, std::nextafter(1.0, 2.0), std::nextafter(1.0, 0.0), 1 + 1e-7, 2.0, 255.0, 256.0, 16777216.0, 16777217.0,
			2147483647.0, 2147483648.0, 4294967295.0, 4294967296.0, 9007199254740991.0, 9007199254740992.0, 9223372036854775808.0, 18446744073709551616.0,
			static_cast<double>(std::numeric_limits<float>::max()), 1e39, std::nextafter(big, 0.0), big};
		for (std::size_t i = v.size(); i-- > 0;)
			v.push_back(-v[i]);
		return v;
	}();
	return r;
}

// Any two numbers in one component, with three sets of the others.
static void compare(mc::Ctx& ctx)
{
	std::vector<double> all = numbers();
	for (double d : {HUGE_VAL, -HUGE_VAL, std::numeric_limits<double>::quiet_NaN()})
		all.push_back(d);
	unsigned c = ctx.choose(4), i = ctx.choose(static_cast<unsigned>(all.size())), j = ctx.choose(static_cast<unsigned>(all.size())), o = ctx.choose(4);
	const double others[] = {0, 1, -big, HUGE_VAL};
	double a[4], b[4];
	for (unsigned k = 0; k < 4; ++k)
		a[k] = b[k] = others[o]*(k == 3 && o == 1 ? -1 : 1);
	a[c] = all[i];
	b[c] = all[j];
	VertexValue x(a[0], a[1], a[2], a[3]), y, z(b[0], b[1], b[2], b[3]);
	for (unsigned k = 0; k < 4; ++k)
		y[k] = b[k];
	const VertexValue& cx = x;
	for (unsigned k = 0; k < 4; ++k)
		if (memcmp(&x[k], &a[k], 8) || (cx[k] != a[k] && a[k] == a[k]) || memcmp(&y[k], &b[k], 8) || memcmp(&z[k], &b[k], 8))
			ctx.fail("component %u isn't what was stored", k);
	bool eq = all[i] == all[j];
	bool aSelf = all[i] == all[i], bSelf = all[j] == all[j]; // not for NaN
	if ((x == y) != eq || (y == x) != eq || (x != y) == eq || (y != x) == eq || (y == z) != bSelf || (y != z) == bSelf)
		ctx.fail("values with %.17g and %.17g as component %u are %s", all[i], all[j], c, eq ? "different" : "equal");
	y = x;
	VertexValue copy(y);
	if ((copy != x) == aSelf || (x == x) != aSelf || (x != x) == aSelf)
		ctx.fail("a copy of a value with %.17g as component %u differs from it", all[i], c);
	if (VertexValue::count != 4)
		ctx.fail("a value has %u components", VertexValue::count + 0u);
	ctx.step(4);
	ctx.state(mc::mix(((i*1000ULL + j)*4 + c)*4 + o));
	ctx.nontrivial();
	ctx.trace();
}

// Any subset of components given or different.
static void components(mc::Ctx& ctx)
{
	unsigned mask = ctx.choose(16), given = ctx.choose(5);
	VertexValue a(2, 3, 4, 5), b = a;
	for (unsigned k = 0; k < 4; ++k)
		if (mask & 1u << k)
			b[k] = 7;
	if ((a == b) != (mask == 0) || (a != b) != (mask != 0) || (b == a) != (mask == 0))
		ctx.fail("values that differ in the components %x compare wrongly", mask);
	double want[4] = {0, 0, 0, 1};
	for (unsigned k = 0; k < given; ++k)
		want[k] = 10 + k;
	VertexValue v = given == 0 ? VertexValue() : given == 1 ? VertexValue(10) : given == 2 ? VertexValue(10, 11) : given == 3 ? VertexValue(10, 11, 12) : VertexValue(10, 11, 12, 13);
	for (unsigned k = 0; k < 4; ++k)
		if (v[k] != want[k])
			ctx.fail("given %u components, component %u is %.17g", given, k, v[k]);
	ctx.step();
	ctx.state(mask*8 + given);
	ctx.nontrivial();
	ctx.trace();
}

// Every sequence of numbers, rotated differently through the components.
static void bounds(mc::Ctx& ctx, unsigned length, bool all)
{
	static const std::vector<double> few = {0.0, -0.0, 1.0, -1.0, tiny, -tiny, 1.0000001, -2147483649.0, 4294967297.0, big, -big};
	const std::vector<double>& v = all ? numbers() : few;
	unsigned n = static_cast<unsigned>(v.size()), count = ctx.choose(length + 1);
	VertexValue lo = VertexValue::initialBoundsMin, hi = VertexValue::initialBoundsMax;
	double wantLo[4], wantHi[4];
	std::uint64_t h = count;
	for (unsigned i = 0; i < count; ++i)
	{
		unsigned k = ctx.choose(n);
		h = h*n + k;
		VertexValue x(v[k], v[(k + 1)%n], v[(k*3 + i)%n], v[n - 1 - k]), old = x;
		x.expandBounds(lo, hi);
		ctx.step();
		if (x != old)
			ctx.fail("expanding bounds changes the value");
		for (unsigned c = 0; c < 4; ++c)
		{
			wantLo[c] = i == 0 ? x[c] : std::min(wantLo[c], static_cast<double>(x[c]));
			wantHi[c] = i == 0 ? x[c] : std::max(wantHi[c], static_cast<double>(x[c]));
			if (lo[c] != wantLo[c] || hi[c] != wantHi[c])
				ctx.fail("after %u values component %u is bounded by %.17g and %.17g instead of %.17g and %.17g", i + 1, c, lo[c], hi[c], wantLo[c], wantHi[c]);
		}
	}
	// Bounds that contain a value stay; the initial ones never change.
	VertexValue first = VertexValue::initialBoundsMin, last = VertexValue::initialBoundsMax;
	if (count == 0)
	{
		if (lo != first || hi != last)
			ctx.fail("initial bounds aren't what they were");
		for (unsigned c = 0; c < 4; ++c)
			if (!(first[c] > last[c]))
				ctx.fail("initial bounds hold a value");
	}
	else
	{
		VertexValue middle(lo[0], hi[1], std::max(lo[2], std::min(0.0, static_cast<double>(hi[2]))), hi[3]), l = lo, u = hi;
		middle.expandBounds(lo, hi);
		VertexValue(lo).expandBounds(lo, hi);
		VertexValue(hi).expandBounds(lo, hi);
		if (lo != l || hi != u)
			ctx.fail("values within bounds change them");
		ctx.nontrivial();
	}
	ctx.state(mc::mix(h));
	ctx.trace();
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		s.push_back({"compare", compare, 2, false, 60, "every two of 54 numbers (zeros, limits, neighbours, infinities) in every component, 4 sets of the others"});
		s.push_back({"components", components, 1, false, 60, "every set of different components, every number of given ones"});
		unsigned length = thorough ? 6 : 4;
		s.push_back({"bounds", [length](mc::Ctx& c) { bounds(c, length, false); }, 2, false, 60,
			"every sequence of up to " + std::to_string(length) + " values over 11 numbers with both zeros, the smallest and the largest"});
		s.push_back({"numbers", [thorough](mc::Ctx& c) { bounds(c, thorough ? 3 : 2, true); }, 2, false, 60, std::string("every sequence of up to ") + (thorough ? "3" : "2") + " values over 52 numbers"});
		return s;
	});
}
