#include "values.h"
using namespace val;

static const double inf = std::numeric_limits<double>::infinity();
static const Format kU{ElementLayout::Z10Y11X11_UFloat, ElementType::Float};
static const Format kE{ElementLayout::E5Z9Y9X9_UFloat, ElementType::Float};

static void put(mc::Ctx& ctx, const Format& f, const double v[3], std::uint8_t data[4])
{
	VertexValue x(v[0], v[1], v[2], 5);
	if (!x.toData(data, f.l, f.t))
		ctx.fail("%s: (%.17g, %.17g, %.17g) can't be encoded", text(f).c_str(), v[0], v[1], v[2]);
	ctx.step();
}

static void checkUFloat(mc::Ctx& ctx, const double v[3])
{
	std::uint8_t data[4];
	put(ctx, kU, v, data);
	for (unsigned c = 0; c < 3; ++c)
		if (!ref::encodedOk(kU.l, kU.t, c, v[c], ref::getRaw(data, kU.l, c)))
			ctx.fail("%s: (%.17g, %.17g, %.17g) encodes to %s, component %u denotes %.17g", text(kU).c_str(), v[0], v[1], v[2], hex(data, 4).c_str(), c,
				ref::decodeRaw(kU.l, kU.t, c, ref::getRaw(data, kU.l, c)));
}

static void checkShared(mc::Ctx& ctx, const double v[3])
{
	std::uint8_t data[4];
	put(ctx, kE, v, data);
	double t[3], top = 0;
	for (unsigned c = 0; c < 3; ++c)
	{
		t[c] = std::min(std::max(v[c], 0.0), 65408.0);
		top = std::max(top, t[c]);
	}
	// The step of the format for the largest component.
	int e = 0;
	while (e < 31 && top*ref::p2(24 - e) >= 511.5)
		++e;
	double step = ref::p2(e - 24);
	double got[4];
	ref::decode(data, kE.l, kE.t, got);
	for (unsigned c = 0; c < 3; ++c)
		if (!(std::fabs(got[c] - t[c]) <= step*0.5*(1 + 1e-9)))
			ctx.fail("%s: (%.17g, %.17g, %.17g) encodes to %s, component %u denotes %.17g with step %.17g", text(kE).c_str(), v[0], v[1], v[2], hex(data, 4).c_str(),
				c, got[c], step);
}

// Decoding: every code of every component against extremes of the others.
static void decode(mc::Ctx& ctx)
{
	bool shared = ctx.flag();
	const Format& f = shared ? kE : kU;
	unsigned c = ctx.choose(3);
	unsigned a = (c + 1)%3, b = (c + 2)%3;
	unsigned fa = ctx.choose(6), fb = ctx.choose(6), e = shared ? ctx.choose(32) : 0;
	auto extreme = [&](unsigned comp, unsigned k) -> std::uint64_t {
		unsigned bits = ref::field(f.l, comp).bits;
		const std::uint64_t x[] = {0, 1, ones(bits), ones(bits) - 1, ones(5) << (bits - 5), ones(bits)/2};
		return x[k];
	};
	std::uint8_t data[4] = {};
	if (shared)
		data[3] = static_cast<std::uint8_t>(e << 3);
	ref::setRaw(data, f.l, a, extreme(a, fa));
	ref::setRaw(data, f.l, b, extreme(b, fb));
	for (std::uint64_t code = 0; code <= ones(ref::field(f.l, c).bits); ++code)
	{
		ref::setRaw(data, f.l, c, code);
		VertexValue v(9, 9, 9, 9);
		if (!v.fromData(data, f.l, f.t))
			ctx.fail("%s: %s can't be decoded", text(f).c_str(), hex(data, 4).c_str());
		double want[4];
		ref::decode(data, f.l, f.t, want);
		for (unsigned i = 0; i < 4; ++i)
			if (!same(v[i], want[i], false))
				ctx.fail("%s: %s decodes component %u to %.17g, expected %.17g", text(f).c_str(), hex(data, 4).c_str(), i, v[i], want[i]);
		ctx.step();
		ctx.state(mc::hashBytes(data, 4, shared));
	}
	ctx.nontrivial();
	ctx.trace();
}

// Encoding the 11- and 10-bit floats: every code, its midpoints and adjacent doubles.
static void encodeUFloat(mc::Ctx& ctx)
{
	unsigned c = ctx.choose(3);
	const double others[] = {0, 1, -1, 3e-5, 65024, 1e30, -1e30, inf};
	double o1 = others[ctx.choose(8)], o2 = others[ctx.choose(8)];
	unsigned bits = ref::field(kU.l, c).bits;
	double last = -1;
	auto check = [&](double x) {
		double v[3];
		v[c] = x;
		v[(c + 1)%3] = o1;
		v[(c + 2)%3] = o2;
		checkUFloat(ctx, v);
		std::uint8_t data[4];
		put(ctx, kU, v, data);
		double d = ref::decodeRaw(kU.l, kU.t, c, ref::getRaw(data, kU.l, c));
		if (d < last)
			ctx.fail("%s component %u: encoding isn't monotone at %.17g", text(kU).c_str(), c, x);
		last = d;
	};
	for (double x : {-inf, -1e300, -1.0, -1e-300, -0.0})
		check(x);
	for (std::uint64_t code = 0; code < ones(5) << (bits - 5); ++code)
	{
		double d = ref::decodeRaw(kU.l, kU.t, c, code), n = ref::decodeRaw(kU.l, kU.t, c, code + 1);
		if (std::isinf(n))
			n = 65536;
		for (double x : {d, std::nextafter(d, inf), d*0.75 + n*0.25, std::nextafter(d/2 + n/2, 0.0), d/2 + n/2, std::nextafter(d/2 + n/2, inf), d*0.25 + n*0.75, std::nextafter(n, 0.0)})
			check(x);
		ctx.state(mc::mix(code*8 + c));
	}
	for (double x : {65536.0, 1e5, 1e10, 1e300, (double)inf})
		check(x);
	ctx.nontrivial();
	ctx.trace();
}

// Magnitudes of all three components at once, from far below to far above both formats.
static void magnitudes(mc::Ctx& ctx)
{
	bool shared = ctx.flag();
	bool dense = ctx.thorough();
	static std::vector<double> m[2];
	if (m[0].empty())
		for (int k = 0; k < 2; ++k)
		{
			m[k] = {0.0, -1.0, -inf, inf};
			for (int e = -40; e <= 40; e += k ? 1 : (e >= -26 && e < 18 ? 1 : 7))
			{
				double p = std::ldexp(1.0, e);
				m[k].push_back(p);
				m[k].push_back(p*(1 - 1.0/1024 - 1e-12)); // rounds up into the next exponent
				if (k || e%3 == 0)
					m[k].push_back(p*1.37);
			}
			m[k].push_back(65408);
			m[k].push_back(65472);
			m[k].push_back(65024);
			m[k].push_back(64512);
		}
	const std::vector<double>& v = m[dense];
	double x = ctx.pick(v), y = ctx.pick(v);
	for (double z : v)
	{
		double t[3] = {x, y, z};
		if (shared)
			checkShared(ctx, t);
		else
			checkUFloat(ctx, t);
		ctx.state(mc::hashBytes(t, sizeof(t), shared));
	}
	ctx.nontrivial();
	ctx.trace();
}

// Shared exponent: every mantissa and exponent of the largest component with midpoints, and the
// other components walking their own codes and midpoints at coarse steps.
static void encodeShared(mc::Ctx& ctx)
{
	unsigned c = ctx.choose(3), e = ctx.choose(32), o = ctx.choose(6);
	double step = ref::p2(static_cast<int>(e) - 24);
	for (unsigned code = 0; code <= 511; ++code)
	{
		double d = code*step;
		for (double x : {d, std::nextafter(d, inf), d + step*0.25, std::nextafter(d + step*0.5, 0.0), d + step*0.5, std::nextafter(d + step*0.5, inf), d + step*0.75})
		{
			const double others[] = {0, -x, x, x*0.5, std::floor(x/step/3)*step + step*0.5, x*1e-3};
			double v[3];
			v[c] = x;
			v[(c + 1)%3] = others[o];
			v[(c + 2)%3] = others[(o + 1)%6];
			checkShared(ctx, v);
		}
		ctx.state(mc::mix(code*4096ULL + c*512 + e*8 + o));
	}
	ctx.nontrivial();
	ctx.trace();
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool) {
		std::vector<mc::Space> s;
		s.push_back({"decode", decode, 4, false, 60, "every code of each component, 6 extremes of each other component, all 32 shared exponents"});
		s.push_back({"encode-11-11-10", encodeUFloat, 3, false, 60, "every code, quarter point, midpoint and adjacent double of each component in ascending order, 8 x 8 values of the others"});
		s.push_back({"encode-9-9-9-5", encodeShared, 3, false, 60, "every mantissa and exponent with quarter points, midpoints and adjacent doubles, 6 relations of the other components"});
		s.push_back({"magnitudes", magnitudes, 2, false, 60, "every triple of magnitudes from 2^-40 to 2^40, negative, zero and infinite"});
		return s;
	});
}
