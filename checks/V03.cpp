#include "values.h"
using namespace val;

bool softwareForced();
bool softwareDecode(const void* data, unsigned comps, double out[4]);
bool softwareEncode(const double in[4], unsigned comps, void* data);

static const double inf = std::numeric_limits<double>::infinity();

static ElementLayout layout(unsigned comps) { return static_cast<ElementLayout>(static_cast<int>(ElementLayout::X16) + comps - 1); }
static const char* pathName(bool software) { return software ? "software" : "hardware"; }

static bool decodePath(bool software, const std::uint16_t* h, unsigned comps, double out[4])
{
	if (software)
		return softwareDecode(h, comps, out);
	VertexValue v(7, 7, 7, 7);
	bool ok = v.fromData(h, layout(comps), ElementType::Float);
	for (unsigned i = 0; i < 4; ++i)
		out[i] = v[i];
	return ok;
}

static bool encodePath(bool software, const double in[4], unsigned comps, std::uint16_t* h)
{
	if (software)
		return softwareEncode(in, comps, h);
	return VertexValue(in[0], in[1], in[2], in[3]).toData(h, layout(comps), ElementType::Float);
}

static bool halfNan(std::uint16_t h) { return (h & 0x7C00) == 0x7C00 && (h & 0x3FF); }

// All patterns in each component position.
static void decode(mc::Ctx& ctx)
{
	softwareForced();
	unsigned comps = 1 + ctx.choose(4), at = ctx.choose(comps), fill = ctx.choose(4), block = ctx.choose(16);
	static const std::uint16_t fills[] = {0, 0x3C00, 0x7E01, 0xFBFF};
	for (unsigned i = 0; i < 4096; ++i)
	{
		std::uint16_t h[4] = {fills[fill], fills[fill], fills[fill], fills[fill]};
		h[at] = static_cast<std::uint16_t>(block*4096 + i);
		for (int sw = 0; sw < 2; ++sw)
		{
			double v[4];
			if (!decodePath(sw, h, comps, v))
				ctx.fail("%s path: %u components can't be decoded", pathName(sw), comps);
			for (unsigned c = 0; c < 4; ++c)
			{
				double want = c < comps ? ref::decodeHalf(h[c]) : c == 3 ? 1 : 0;
				if (!same(v[c], want, false))
					ctx.fail("%s path: half 0x%04x in component %u of %u decodes to %.17g, expected %.17g", pathName(sw), h[c], c, comps, v[c], want);
			}
			ctx.step();
		}
		ctx.state(mc::hashBytes(h, 2*comps, comps));
	}
	ctx.nontrivial();
	ctx.trace();
}

static void encodeOne(mc::Ctx& ctx, double x, unsigned comps, unsigned at, double other)
{
	double in[4] = {other, other, other, other};
	in[at] = x;
	std::uint16_t h[2][4] = {};
	for (int sw = 0; sw < 2; ++sw)
	{
		if (!encodePath(sw, in, comps, h[sw]))
			ctx.fail("%s path: %u components can't be encoded", pathName(sw), comps);
		ctx.step();
		std::uint16_t r = h[sw][at];
		bool ok = isNan(x) ? halfNan(r) : std::isinf(x) ? r == (x > 0 ? 0x7C00 : 0xFC00) : ref::encodedOk(layout(comps), ElementType::Float, at, x, r);
		if (ok && !isNan(x) && (r >> 15 != 0) != std::signbit(x))
			ok = false;
		if (!ok)
			ctx.fail("%s path: %.17g in component %u of %u encodes to half 0x%04x", pathName(sw), x, at, comps, r);
	}
	for (unsigned c = 0; c < comps; ++c)
	{
		std::uint16_t a = h[0][c], b = h[1][c];
		if (a == b || (halfNan(a) && halfNan(b)))
			continue;
		double da = ref::decodeHalf(a), db = ref::decodeHalf(b), v = static_cast<float>(in[c]);
		if (std::isinf(da))
			da = da > 0 ? 65536 : -65536;
		if (std::isinf(db))
			db = db > 0 ? 65536 : -65536;
		if (std::fabs(da - v) != std::fabs(db - v))
			ctx.fail("%.17g in component %u of %u encodes to half 0x%04x in hardware and 0x%04x in software", in[c], c, comps, a, b);
		ctx.cover("paths differ on an exact tie");
	}
}

static void encode(mc::Ctx& ctx)
{
	softwareForced();
	unsigned comps = 1 + ctx.choose(4), at = ctx.choose(comps);
	const double others[] = {0, 1e9, std::numeric_limits<double>::quiet_NaN(), -6e-8};
	double other = others[ctx.choose(4)];
	unsigned block = ctx.choose(31);
	unsigned sign = ctx.choose(2);
	for (unsigned i = 0; i < 1024; ++i)
	{
		std::uint16_t code = static_cast<std::uint16_t>(block*1024 + i);
		double d = ref::decodeHalf(code), n = code == 0x7BFF ? 65536 : ref::decodeHalf(static_cast<std::uint16_t>(code + 1));
		float m = static_cast<float>(d/2 + n/2);
		float fd = static_cast<float>(d);
		for (double x : {d, (double)std::nextafter(fd, INFINITY), (double)std::nextafter(m, 0.0f), (double)m, (double)std::nextafter(m, INFINITY),
			(double)std::nextafter(static_cast<float>(n), 0.0f), d*0.75 + n*0.25, d*0.3 + n*0.7, std::nextafter(d, inf)})
		{
			encodeOne(ctx, sign ? -x : x, comps, at, other);
		}
		ctx.state(mc::mix(code*64ULL + comps*8 + at + sign*4));
	}
	ctx.nontrivial();
	ctx.trace();
}

static void special(mc::Ctx& ctx)
{
	ctx.cover(softwareForced() ? "software path selected through its flag" : "software path selected by the processor check");
	unsigned comps = 1 + ctx.choose(4), at = ctx.choose(comps);
	std::vector<double> v = {inf, std::numeric_limits<double>::quiet_NaN(), 0.0, std::ldexp(1.0, -1074), std::numeric_limits<double>::max()};
	for (int e = -150; e <= 128; ++e)
		for (double k : {1.0, 1.0009765625, 1.9995, 1.00048828125, 1.0004882, 1.0004883})
			v.push_back(std::ldexp(k, e));
	for (double x : v)
		for (double other : v)
		{
			encodeOne(ctx, x, comps, at, other);
			encodeOne(ctx, -x, comps, at, other);
		}
	ctx.nontrivial();
	ctx.trace();
}

// Every float.
static void floats(mc::Ctx& ctx)
{
	softwareForced();
	unsigned block = ctx.choose(4096);
	for (std::uint32_t i = 0; i < 1u << 20; ++i)
	{
		std::uint32_t b = block << 20 | i;
		float f;
		std::memcpy(&f, &b, 4);
		encodeOne(ctx, f, 4, i & 3, 0.5);
	}
	ctx.state(mc::mix(block));
	ctx.nontrivial();
	ctx.trace();
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		s.push_back({"decode", decode, 4, false, 60, "all 65536 patterns in each position of 1 to 4 components, 4 values of the others, hardware and software path"});
		s.push_back({"encode", encode, 4, false, 60,
			"every finite half, its midpoint to the next, and adjacent floats and doubles, both signs, each position of 1 to 4 components, 4 values of the others, both paths"});
		s.push_back({"special", special, 2, false, 60, "every pair of infinities, NaN, zero and magnitudes from 2^-150 to 2^128"});
		if (thorough)
			s.push_back({"floats", floats, 1, false, 120, "all 2^32 floats on both paths"});
		return s;
	});
}
