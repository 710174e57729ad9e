#include "values.h"
using namespace val;

static const double inf = std::numeric_limits<double>::infinity();

// Encodes v in component c with the other components at `other`; the code must be nearest to v.
static std::uint64_t encode(mc::Ctx& ctx, const Format& f, unsigned c, double v, double other)
{
	VertexValue x(other, other, other, other);
	x[c] = v;
	std::uint8_t data[40] = {};
	if (!x.toData(data, f.l, f.t))
		ctx.fail("%s: %.17g can't be encoded", text(f).c_str(), v);
	std::uint64_t raw = ref::getRaw(data, f.l, c);
	if (!ref::encodedOk(f.l, f.t, c, v, raw))
		ctx.fail("%s component %u: %.17g encodes to 0x%llx, which denotes %.17g", text(f).c_str(), c, v, (unsigned long long)raw,
			ref::decodeRaw(f.l, f.t, c, raw));
	ctx.step();
	return raw;
}

static std::vector<Format> selected(bool (*pred)(const Format&))
{
	std::vector<Format> r;
	for (const Format& f : formats())
		if (!ref::isShared(f.l) && !ref::isUFloat(f.l) && pred(f))
			r.push_back(f);
	return r;
}

// Every code, every midpoint and the doubles around them, in ascending order of value.
static void narrow(mc::Ctx& ctx)
{
	static const std::vector<Format> sel = selected([](const Format& f) { return ref::field(f.l, 0).bits <= 16; });
	const Format& f = ctx.pick(sel);
	unsigned c = ctx.choose(ref::info(f.l).comps);
	const double others[] = {0, 1, -3, 0.75};
	double other = others[ctx.choose(4)];
	unsigned bits = ref::field(f.l, c).bits;
	std::vector<double> values;
	for (std::uint64_t code = 0; code <= ones(bits); ++code)
	{
		double d = ref::decodeRaw(f.l, f.t, c, code);
		if (std::isfinite(d))
			values.push_back(d);
	}
	std::sort(values.begin(), values.end());
	double last = -inf;
	auto check = [&](double v) {
		double d = ref::decodeRaw(f.l, f.t, c, encode(ctx, f, c, v, other));
		if (d < last)
			ctx.fail("%s component %u: encoding isn't monotone at %.17g", text(f).c_str(), c, v);
		last = d;
	};
	for (std::size_t i = 0; i < values.size(); ++i)
	{
		double d = values[i];
		check(std::nextafter(d, -inf));
		check(d);
		check(std::nextafter(d, inf));
		ctx.state(mc::mix(mc::hashBytes(&d, 8, static_cast<unsigned>(f.l)*64 + static_cast<unsigned>(f.t)*8 + c)));
		if (i + 1 == values.size() || values[i + 1] == d)
			continue;
		double m = d/2 + values[i + 1]/2, step = values[i + 1] - d;
		for (double q : {d*0.75 + values[i + 1]*0.25, m - step*1e-4, m - step*1e-7, std::nextafter(m, -inf), m, std::nextafter(m, inf), m + step*1e-7, m + step*1e-4, d*0.25 + values[i + 1]*0.75})
			check(q);
	}
	ctx.nontrivial();
	ctx.trace();
	ctx.cover(ref::name(f.t));
	ctx.note("%s component %u: all %zu codes and midpoints", text(f).c_str(), c, values.size());
}

// Values outside the range: every power of two and its neighbours, both signs.
static const std::vector<double>& magnitudes()
{
	static const std::vector<double> r = [] {
		std::vector<double> v = {0.0, -0.0, 0.5, 1.5, 2.5, 0.49999999999999994, inf, -inf};
		for (int e = -1074; e <= 1023; ++e)
		{
			double p = std::ldexp(1.0, e);
			for (double x : {p, std::nextafter(p, 0.0), std::nextafter(p, inf), p*1.5, p - 0.5, p + 0.5, p - 1, p - 1.5})
			{
				v.push_back(x);
				v.push_back(-x);
			}
		}
		v.push_back(std::numeric_limits<double>::max());
		v.push_back(-std::numeric_limits<double>::max());
		std::sort(v.begin(), v.end());
		return v;
	}();
	return r;
}

static void extreme(mc::Ctx& ctx)
{
	static const std::vector<Format> sel = selected([](const Format&) { return true; });
	const Format& f = ctx.pick(sel);
	unsigned c = ctx.choose(ref::info(f.l).comps);
	bool isFloat = f.t == ElementType::Float;
	for (double v : magnitudes())
	{
		if (isFloat && std::isinf(v))
			continue;
		encode(ctx, f, c, v, 0);
		ctx.state(mc::hashBytes(&v, 8, static_cast<unsigned>(f.l)*64 + static_cast<unsigned>(f.t)*8 + c));
	}
	ctx.nontrivial();
	ctx.trace();
	ctx.note("%s component %u: %zu magnitudes", text(f).c_str(), c, magnitudes().size());
}

// Wide formats around their boundary codes.
static void wide(mc::Ctx& ctx)
{
	static const std::vector<Format> sel = selected([](const Format& f) { return ref::field(f.l, 0).bits >= 32; });
	const Format& f = ctx.pick(sel);
	unsigned c = ctx.choose(ref::info(f.l).comps);
	unsigned bits = ref::field(f.l, c).bits;
	static std::map<unsigned, std::vector<std::uint64_t>> cache;
	if (!cache.count(bits))
		cache[bits] = codes(bits);
	for (std::uint64_t code : cache[bits])
	{
		double d = ref::decodeRaw(f.l, f.t, c, code);
		if (!std::isfinite(d))
			continue;
		std::vector<double> around = {d, std::nextafter(d, inf), std::nextafter(d, -inf)};
		if (f.t == ElementType::Float && bits == 32)
		{
			double up = std::nextafter(static_cast<float>(d), std::numeric_limits<float>::infinity());
			if (std::isfinite(up))
			{
				double m = d/2 + up/2;
				for (double x : {m, std::nextafter(m, inf), std::nextafter(m, -inf)})
					around.push_back(x);
			}
		}
		else if (f.t != ElementType::Float)
			for (double x : {d + 0.5, d - 0.5, std::nextafter(d + 0.5, -inf), std::nextafter(d - 0.5, inf), d + 0.25, d - 0.25})
				around.push_back(x);
		for (double v : around)
			if (std::isfinite(v))
				encode(ctx, f, c, v, 0);
		ctx.state(mc::mix(code*1024 + static_cast<unsigned>(f.l)*64 + static_cast<unsigned>(f.t)*8 + c));
	}
	ctx.nontrivial();
	ctx.trace();
}

// Every 32-bit float or integer with its half steps.
static void all32(mc::Ctx& ctx)
{
	static const ElementType types[] = {ElementType::UInt, ElementType::SInt, ElementType::Float};
	Format f{ElementLayout::X32, types[ctx.choose(3)]};
	unsigned block = ctx.choose(4096);
	for (std::uint32_t i = 0; i < 1u << 20; ++i)
	{
		double d = ref::decodeRaw(f.l, f.t, 0, block << 20 | i);
		if (!std::isfinite(d))
			continue;
		if (f.t == ElementType::Float)
		{
			double up = std::nextafter(static_cast<float>(d), std::numeric_limits<float>::infinity());
			double m = std::isfinite(up) ? d/2 + up/2 : d;
			encode(ctx, f, 0, std::nextafter(m, -inf), 0);
			encode(ctx, f, 0, std::nextafter(m, inf), 0);
		}
		else
		{
			encode(ctx, f, 0, d + 0.4999, 0);
			encode(ctx, f, 0, d - 0.4999, 0);
		}
	}
	ctx.state(mc::mix(block*8ULL + static_cast<unsigned>(f.t)));
	ctx.nontrivial();
	ctx.trace();
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		s.push_back({"narrow", narrow, 3, false, 60,
			"every format with fields up to 16 bits, every component: every code, quarter points, midpoints, points 1e-4 and 1e-7 of a step from them and adjacent doubles in ascending order; 4 values of the others"});
		s.push_back({"extreme", extreme, 2, false, 60, "every format and component: every power of two of double precision with neighbours and half steps, both signs, infinities for integers"});
		s.push_back({"wide", wide, 2, false, 60, "32- and 64-bit formats, every component: every run of ones, complement and exponent pattern with half steps and adjacent doubles"});
		if (thorough)
			s.push_back({"all32", all32, 2, false, 120, "every 32-bit integer and float with both half steps"});
		return s;
	});
}
