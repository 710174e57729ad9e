#include "values.h"
using namespace val;

// One stored element: decodes as documented and encodes back to itself.
static void roundTrip(mc::Ctx& ctx, const Format& f, const std::uint8_t* data)
{
	unsigned size = ref::info(f.l).size, comps = ref::info(f.l).comps;
	VertexValue v(77, 78, 79, 80);
	if (!v.fromData(data, f.l, f.t))
		ctx.fail("%s: %s can't be decoded", text(f).c_str(), hex(data, size).c_str());
	double want[4];
	ref::decode(data, f.l, f.t, want);
	bool finite = true, exact = true;
	for (unsigned c = 0; c < 4; ++c)
	{
		if (!same(v[c], want[c], isNorm(f)))
			ctx.fail("%s: %s decodes component %u to %.17g, expected %.17g", text(f).c_str(), hex(data, size).c_str(), c, v[c], want[c]);
		finite &= std::isfinite(want[c]);
	}
	if (!finite)
		return;
	// 64-bit integers between two doubles can't come back.
	if (ref::info(f.l).bits == 64 && f.t != ElementType::Float)
		for (unsigned c = 0; c < comps; ++c)
		{
			std::uint64_t raw = ref::getRaw(data, f.l, c);
			bool negative = f.t == ElementType::SInt && raw >> 63;
			std::uint64_t magnitude = negative ? 0 - raw : raw;
			unsigned low = 0;
			while (magnitude && !(magnitude >> low & 1))
				++low;
			exact &= !magnitude || magnitude >> low < 1ULL << 53;
		}
	if (!exact)
		return;
	std::uint8_t back[40];
	std::memset(back, 0xA5, sizeof(back));
	if (!v.toData(back, f.l, f.t))
		ctx.fail("%s: the value of %s can't be encoded", text(f).c_str(), hex(data, size).c_str());
	if (std::memcmp(back, data, size) == 0)
		return;
	if (ref::isShared(f.l)) // several patterns for one value
	{
		double again[4];
		ref::decode(back, f.l, f.t, again);
		if (again[0] == want[0] && again[1] == want[1] && again[2] == want[2])
			return;
	}
	ctx.fail("%s: %s comes back as %s", text(f).c_str(), hex(data, size).c_str(), hex(back, size).c_str());
}

// Every code of one component, the others held.
static void fields(mc::Ctx& ctx)
{
	const Format& f = ctx.pick(formats());
	unsigned c = ctx.choose(ref::info(f.l).comps);
	unsigned fill = ctx.choose(4);
	unsigned bits = ref::field(f.l, c).bits;
	unsigned exponents = ref::isShared(f.l) ? 32 : 1;
	unsigned e = ctx.choose(exponents);
	static std::map<unsigned, std::vector<std::uint64_t>> cache;
	if (!cache.count(bits))
		cache[bits] = codes(bits);
	std::uint8_t data[40] = {};
	for (unsigned o = 0; o < ref::info(f.l).comps; ++o)
		ref::setRaw(data, f.l, o, otherCode(fill, ref::field(f.l, o).bits));
	if (ref::isShared(f.l))
	{
		std::uint32_t w;
		std::memcpy(&w, data, 4);
		w = (w & 0x7FFFFFF) | e << 27;
		std::memcpy(data, &w, 4);
	}
	for (std::uint64_t code : cache[bits])
	{
		ref::setRaw(data, f.l, c, code);
		roundTrip(ctx, f, data);
		ctx.step();
		ctx.state(mc::hashBytes(data, ref::info(f.l).size, static_cast<std::uint64_t>(f.l)*8 + static_cast<std::uint64_t>(f.t)));
	}
	ctx.nontrivial();
	ctx.trace();
	ctx.cover(ref::name(f.t));
	ctx.note("%s component %u, other fields fill %u: %zu codes round-trip", text(f).c_str(), c, fill, cache[bits].size());
}

// All fields of 8-bit and packed elements take boundary codes at once.
static void joint(mc::Ctx& ctx)
{
	const Format& f = ctx.pick(formats());
	std::uint8_t data[40] = {};
	for (unsigned o = 0; o < ref::info(f.l).comps; ++o)
	{
		unsigned bits = ref::field(f.l, o).bits;
		const std::uint64_t alphabet[] = {0, 1, ones(bits)/2, ones(bits)/2 + 1, ones(bits) - 1, ones(bits), 0x0123456789ABCDEFULL & ones(bits)};
		ref::setRaw(data, f.l, o, alphabet[ctx.choose(7)]);
	}
	if (ref::isShared(f.l))
		data[3] = static_cast<std::uint8_t>((data[3] & 7) | ctx.choose(32) << 3);
	roundTrip(ctx, f, data);
	ctx.step();
	ctx.nontrivial();
	ctx.trace();
}

// Every 32-bit word of the layouts that fit in one.
static void words(mc::Ctx& ctx)
{
	static const std::vector<Format> f = [] {
		std::vector<Format> r;
		for (const Format& x : formats())
			if (ref::info(x.l).size == 4)
				r.push_back(x);
		return r;
	}();
	const Format& x = ctx.pick(f);
	unsigned block = ctx.choose(4096);
	for (std::uint32_t i = 0; i < 1u << 20; ++i)
	{
		std::uint32_t w = block << 20 | i;
		roundTrip(ctx, x, reinterpret_cast<std::uint8_t*>(&w));
	}
	ctx.step(1u << 20);
	ctx.state(mc::mix(block*256ULL + static_cast<unsigned>(x.l)*8 + static_cast<unsigned>(x.t)));
	ctx.nontrivial();
	ctx.trace();
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		s.push_back({"fields", fields, 3, false, 60,
			"every valid format and component; every code of fields up to 16 bits, every run of ones, complement, neighbours and sign/exponent pattern of wider ones; "
			"4 fills of the other fields; all 32 shared exponents"});
		s.push_back({"joint", joint, 3, false, 60, "every valid format, every combination of 7 boundary codes over all its fields, all 32 shared exponents"});
		if (thorough)
			s.push_back({"words", words, 2, false, 120, "every 32-bit pattern of every format of 4 bytes"});
		return s;
	});
}
