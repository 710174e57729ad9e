#include "values.h"
#include <VFC/VertexFormat.h>
using namespace val;

static const double inf = std::numeric_limits<double>::infinity();
static const double nan_ = std::numeric_limits<double>::quiet_NaN();

// A heap block that ends right behind the element, so that AddressSanitizer sees any access beyond.
struct Block
{
	Block(unsigned align, unsigned n) : offset(align), size(n), base(new std::uint8_t[align + n]) {}
	~Block() { delete[] base; }
	Block(const Block&) = delete;
	std::uint8_t* at() { return base + offset; }
	unsigned offset, size;
	std::uint8_t* base;
};

static bool encodeInto(Block& b, const Format& f, const VertexValue& v, std::uint8_t fill, bool bounded)
{
	std::memset(b.base, fill, b.offset + b.size);
	return bounded ? v.toData(b.at(), f.l, f.t, VertexValue(-1, -1, -1, -1), VertexValue(1, 1, 1, 1)) : v.toData(b.at(), f.l, f.t);
}

// Exactly the element's bytes, at any alignment, whatever was there before.
static void bytes(mc::Ctx& ctx)
{
	const Format& f = ctx.pick(formats());
	unsigned align = ctx.choose(8), size = ref::info(f.l).size;
	unsigned kind = ctx.choose(6);
	bool bounded = ctx.flag();
	const double v[6][4] = {{0, 0, 0, 0}, {1, 1, 1, 1}, {-1, -1, -1, -1}, {1e30, -1e30, 1e30, -1e30}, {0.5, -0.25, 0.125, 1}, {100, 3, 77, 2}};
	VertexValue x(v[kind][0], v[kind][1], v[kind][2], v[kind][3]);
	std::vector<std::uint8_t> first;
	for (unsigned fill : {0x00u, 0xFFu, 0xA5u})
	{
		Block b(align, size);
		if (!encodeInto(b, f, x, static_cast<std::uint8_t>(fill), bounded))
			ctx.fail("%s can't be encoded at offset %u", text(f).c_str(), align);
		for (unsigned i = 0; i < align; ++i)
			if (b.base[i] != fill)
				ctx.fail("%s: encoding at offset %u writes the byte at offset %u", text(f).c_str(), align, i);
		std::vector<std::uint8_t> now(b.at(), b.at() + size);
		if (first.empty())
			first = now;
		else if (first != now)
			ctx.fail("%s: encoding onto bytes 0x%02x gives %s, onto zeros %s", text(f).c_str(), fill, hex(now.data(), size).c_str(), hex(first.data(), size).c_str());
		// Behind it, when there's room.
		std::uint8_t wide[64];
		std::memset(wide, static_cast<int>(fill), sizeof(wide));
		if (bounded)
			x.toData(wide + 8 + align, f.l, f.t, VertexValue(-1, -1, -1, -1), VertexValue(1, 1, 1, 1));
		else
			x.toData(wide + 8 + align, f.l, f.t);
		for (unsigned i = 0; i < sizeof(wide); ++i)
		{
			bool inside = i >= 8 + align && i < 8 + align + size;
			if (inside ? wide[i] != first[i - 8 - align] : wide[i] != fill)
				ctx.fail("%s: encoding at offset %u writes a wrong byte at %d from the element", text(f).c_str(), align, static_cast<int>(i) - static_cast<int>(8 + align));
		}
		double want[4];
		ref::decode(first.data(), f.l, f.t, want);
		VertexValue back(nan_, nan_, nan_, nan_);
		if (!back.fromData(b.at(), f.l, f.t))
			ctx.fail("%s can't be decoded at offset %u", text(f).c_str(), align);
		for (unsigned c = 0; c < 4; ++c)
			if (!same(back[c], want[c], isNorm(f)))
				ctx.fail("%s: decoding %s at offset %u gives %.17g for component %u, expected %.17g", text(f).c_str(), hex(first.data(), size).c_str(), align, back[c], c, want[c]);
		ctx.step(3);
	}
	ctx.state(mc::hashBytes(first.data(), size, align + 8*static_cast<unsigned>(f.l) + 256*static_cast<unsigned>(f.t)));
	ctx.nontrivial();
	ctx.trace();
}

// Each field depends on its own component only.
static void independent(mc::Ctx& ctx)
{
	const Format& f = ctx.pick(formats());
	unsigned comps = ref::info(f.l).comps;
	static const double walk[] = {0, -0.0, 1e-9, 0.3, 0.5, 0.999, 1, -1, -0.4, 2, 3, 127, 128, 255, 300, 511, 1023, -512, 32767, 65535, 70000, 2147483647.0, 4294967295.0, 1e19, -1e19, 1e300, -1e300, INFINITY, -INFINITY, NAN};
	constexpr unsigned n = sizeof(walk)/sizeof(*walk);
	unsigned target = ctx.choose(4), base = ctx.choose(4);
	const double bases[] = {0, 1, -1, 0.5};
	bool isInt = f.t == ElementType::UInt || f.t == ElementType::SInt;
	std::vector<std::uint64_t> want(comps);
	std::uint8_t data[40];
	bool special = false;
	for (unsigned k = 0; k < n; ++k)
	{
		double w = walk[k];
		// Only floats can represent what isn't finite; an integer cast of it is undefined.
		if (!std::isfinite(w) && f.t != ElementType::Float && target < comps)
			continue;
		if (std::isnan(w) && (ref::isShared(f.l) || isInt) && target < comps)
			continue;
		VertexValue v(bases[base], bases[base], bases[base], bases[base]);
		v[target] = w;
		std::memset(data, 0, sizeof(data));
		if (!v.toData(data, f.l, f.t))
			ctx.fail("%s: %.17g can't be encoded", text(f).c_str(), w);
		ctx.step();
		if (ref::isShared(f.l) && target < comps)
			continue; // the exponent is shared
		for (unsigned c = 0; c < comps; ++c)
		{
			if (c == target)
				continue;
			std::uint64_t raw = ref::getRaw(data, f.l, c);
			if (k == 0)
				want[c] = raw;
			else if (raw != want[c])
				ctx.fail("%s: component %u's field changes from 0x%llx to 0x%llx when component %u is %.17g", text(f).c_str(), c, (unsigned long long)want[c], (unsigned long long)raw, target, w);
		}
		ctx.state(mc::hashBytes(data, ref::info(f.l).size, static_cast<unsigned>(f.l)*16 + static_cast<unsigned>(f.t)));
	}
	(void)special;
	if (target >= comps)
		ctx.cover("absent component ignored");
	ctx.nontrivial();
	ctx.trace();
}

// What isn't supported fails and changes nothing; sizes are as documented.
static void invalid(mc::Ctx& ctx)
{
	int l = static_cast<int>(ctx.choose(256)) - 128, t = static_cast<int>(ctx.choose(256)) - 128;
	ElementLayout layout = static_cast<ElementLayout>(l);
	ElementType type = static_cast<ElementType>(t);
	bool known = l >= -1 && l < 20 && t >= -1 && t < 5;
	bool ok = ref::valid(layout, type);
	if (known && vfc::isElementValid(layout, type) != ok)
		ctx.fail("layout %d with type %d is %s", l, t, ok ? "not valid" : "valid");
	std::uint32_t size = vfc::elementLayoutSize(layout);
	if (size != (l >= 0 && l < 20 ? ref::info(layout).size : 0))
		ctx.fail("layout %d has size %u", l, size);
	ctx.step(2);
	// Wide integers scaled to [0, 1] aren't valid formats, but decoding them isn't ruled out.
	bool loose = l >= 0 && l < 18 && ref::info(layout).bits >= 32 && (type == ElementType::UNorm || type == ElementType::SNorm);
	for (unsigned fill : {0x00u, 0x5Au})
	{
		std::uint8_t data[64], before[64];
		std::memset(data, static_cast<int>(fill), sizeof(data));
		std::memcpy(before, data, sizeof(data));
		VertexValue v(1, 2, 3, 4);
		bool r = v.fromData(data, layout, type);
		if (!loose && r != ok)
			ctx.fail("decoding layout %d with type %d %s", l, t, r ? "succeeds" : "fails");
		if (!r && (v[0] != 1 || v[1] != 2 || v[2] != 3 || v[3] != 4))
			ctx.fail("failing to decode layout %d with type %d changes the value", l, t);
		if (std::memcmp(data, before, sizeof(data)) != 0)
			ctx.fail("decoding layout %d with type %d changes the data", l, t);
		VertexValue e(0.25, 0.5, 0.75, 1);
		for (int bounded = 0; bounded < 2; ++bounded)
		{
			std::memcpy(data, before, sizeof(data));
			r = bounded ? e.toData(data, layout, type, VertexValue(0, 0, 0, 0), VertexValue(1, 1, 1, 1)) : e.toData(data, layout, type);
			if (!loose && r != ok)
				ctx.fail("encoding layout %d with type %d %s", l, t, r ? "succeeds" : "fails");
			if (!r && std::memcmp(data, before, sizeof(data)) != 0)
				ctx.fail("failing to encode layout %d with type %d changes the data", l, t);
			ctx.step();
		}
		// Decoding nothing fails.
		if (fill == 0)
		{
			VertexValue u(1, 2, 3, 4);
			if (u.fromData(nullptr, layout, type) || u.toData(nullptr, layout, type) ||
				u.toData(nullptr, layout, type, VertexValue(0, 0, 0, 0), VertexValue(1, 1, 1, 1)))
				ctx.fail("null data is accepted for layout %d with type %d", l, t);
			if (u[0] != 1 || u[1] != 2 || u[2] != 3 || u[3] != 4)
				ctx.fail("failing to decode null data changes the value");
		}
	}
	ctx.state(mc::mix(static_cast<std::uint64_t>((l + 128)*256 + t + 128)));
	if (known)
		ctx.nontrivial();
	ctx.trace();
}

// The bounds of the bounded encoder scale each component on its own.
static void boundedSpace(mc::Ctx& ctx)
{
	const Format& f = ctx.pick(formats());
	unsigned comps = ref::info(f.l).comps;
	unsigned target = ctx.choose(comps);
	static const double ends[] = {-100, -1, 0, 0.25, 1, 7, 1e6};
	double lo = ends[ctx.choose(7)], hi = ends[ctx.choose(7)];
	if (hi < lo)
		return;
	// What the value and its bounds hold in components the layout doesn't have.
	static const double unused[6][3] = {{0, -2, 2}, {0, std::numeric_limits<double>::max(), -std::numeric_limits<double>::max()}, {7, 2, -2}, {nan_, nan_, nan_}, {inf, inf, -inf}, {0, 0, 0}};
	unsigned u = comps < 4 ? ctx.choose(6) : 0;
	for (unsigned k = 0; k <= 8; ++k)
	{
		double x = lo + (hi - lo)*k/8;
		VertexValue v(0, 0, 0, 0), mn(-2, -2, -2, -2), mx(2, 2, 2, 2);
		for (unsigned c = comps; c < 4; ++c)
		{
			v[c] = unused[u][0];
			mn[c] = unused[u][1];
			mx[c] = unused[u][2];
		}
		v[target] = x;
		mn[target] = lo;
		mx[target] = hi;
		std::uint8_t data[40] = {};
		if (!v.toData(data, f.l, f.t, mn, mx))
			ctx.fail("%s can't be encoded within bounds", text(f).c_str());
		ctx.step();
		double e = x;
		if (f.t == ElementType::UNorm || f.t == ElementType::SNorm)
		{
			if (lo == hi)
				continue; // any code decodes to the only value
			e = (x - lo)/(hi - lo);
			if (f.t == ElementType::SNorm)
				e = e*2 - 1;
		}
		unsigned se = ref::isShared(f.l) ? data[3] >> 3 : 0;
		std::uint64_t raw = ref::getRaw(data, f.l, target);
		if (!ref::encodedOk(f.l, f.t, target, e, raw, se, isNorm(f) ? 1e-12 : 0))
			ctx.fail("%s component %u: %.17g within [%.17g, %.17g] encodes to 0x%llx", text(f).c_str(), target, x, lo, hi, (unsigned long long)raw);
		// The others, at the middle of their own bounds.
		for (unsigned c = 0; c < comps; ++c)
		{
			if (c == target)
				continue;
			double m = f.t == ElementType::UNorm ? 0.5 : 0;
			if (!ref::encodedOk(f.l, f.t, c, m, ref::getRaw(data, f.l, c), se, isNorm(f) ? 1e-12 : 0))
				ctx.fail("%s: component %u isn't scaled by its own bounds", text(f).c_str(), c);
		}
		ctx.state(mc::hashBytes(data, ref::info(f.l).size, static_cast<unsigned>(f.l)*16 + static_cast<unsigned>(f.t)));
	}
	ctx.nontrivial();
	ctx.trace();
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool) {
		std::vector<mc::Space> s;
		s.push_back({"bytes", bytes, 3, false, 60, "every valid format at all 8 alignments, 6 values, 3 previous contents, with and without bounds; exact-size heap blocks"});
		s.push_back({"independent", independent, 3, false, 60, "every valid format, each component walked over 30 values with the others held at 4"});
		s.push_back({"bounded", boundedSpace, 3, false, 60, "every valid format and component, 28 bounds, 9 positions between them, 6 kinds of value and bounds in the components the layout doesn't have"});
		s.push_back({"invalid", invalid, 2, false, 60, "all 256 x 256 layout and type bytes, null data"});
		return s;
	});
}
