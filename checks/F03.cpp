#include "explore.h"
#include "far.h"
#include "vfcref.h"
#include <VFC/IndexData.h>
#include <VFC/VertexFormat.h>
using namespace vfc;

static void count(mc::Ctx& ctx, PrimitiveType p, std::uint32_t n, unsigned patch)
{
	bool want = ref::countValid(p, n, patch), got = isVertexCountValid(p, n, patch);
	if (got != want)
		ctx.fail("%u vertices are %s for %s with patches of %u", n, got ? "valid" : "invalid", ref::name(p), patch);
	ctx.step();
}

static void counts(mc::Ctx& ctx)
{
	PrimitiveType p = static_cast<PrimitiveType>(ctx.choose(7));
	unsigned patch = p == PrimitiveType::PatchList ? 1 + ctx.choose(ctx.thorough() ? 1024 : 128) : 0;
	for (std::uint32_t n = 0; n <= 4096; ++n)
		count(ctx, p, n, patch);
	for (unsigned bit : {8u, 15u, 16u, 24u, 31u})
		for (std::uint32_t d = 0; d < 400; ++d)
			count(ctx, p, (1u << bit) - 200 + d, patch);
	for (std::uint32_t d = 0; d < 400; ++d)
		count(ctx, p, 0xFFFFFFFFu - d, patch);
	if (patch)
		for (std::uint32_t k = 0xFFFFFFFFu/patch, i = 0; i < 4; ++i, --k)
			for (int d = -1; d <= 1; ++d)
				count(ctx, p, k*patch + static_cast<std::uint32_t>(d), patch);
	else
		for (std::uint32_t size : {1u, 2u, 3u, 5u}) // ignored by the others
			for (std::uint32_t n = 0; n < 64; ++n)
				if (isVertexCountValid(p, n, size) != ref::countValid(p, n, 0))
					ctx.fail("the patch size matters for %s", ref::name(p));
	for (std::uint32_t n : {0u, 1u, 2u, 3u, 6u})
		if (isVertexCountValid(PrimitiveType::Invalid, n, patch))
			ctx.fail("%u vertices are valid for the invalid primitive type", n);
	ctx.state(mc::mix(static_cast<unsigned>(p)*4096 + patch));
	ctx.nontrivial();
	ctx.trace();
	ctx.note("%s patch %u", ref::name(p), patch);
}

static void all(mc::Ctx& ctx) // every 32-bit count
{
	PrimitiveType p = static_cast<PrimitiveType>(ctx.choose(7));
	static const unsigned patches[] = {1, 3, 4, 7, 32};
	unsigned patch = p == PrimitiveType::PatchList ? patches[ctx.choose(5)] : 0;
	unsigned block = ctx.choose(256);
	for (std::uint32_t i = 0; i < 1u << 24; ++i)
		if (isVertexCountValid(p, block << 24 | i, patch) != ref::countValid(p, block << 24 | i, patch))
			ctx.fail("%u vertices for %s with patches of %u", block << 24 | i, ref::name(p), patch);
	ctx.step(1u << 24);
	ctx.state(mc::mix(block*4096 + static_cast<unsigned>(p)*64 + patch));
	ctx.nontrivial();
	ctx.trace();
}

static void widths(mc::Ctx& ctx)
{
	IndexType t = static_cast<IndexType>(ctx.choose(3));
	unsigned size = t == IndexType::UInt16 ? 2 : t == IndexType::UInt32 ? 4 : 0;
	std::uint32_t restart = t == IndexType::UInt16 ? 0xFFFFu : 0xFFFFFFFFu;
	if (indexSize(t) != size)
		ctx.fail("index type %u has size %u", static_cast<unsigned>(t), indexSize(t));
	if (primitiveRestartIndexValue(t) != restart)
		ctx.fail("index type %u restarts at %u", static_cast<unsigned>(t), primitiveRestartIndexValue(t));
	if (maxIndexValue(t) != (size ? restart - 1 : 0))
		ctx.fail("index type %u goes up to %u", static_cast<unsigned>(t), maxIndexValue(t));
	unsigned at = ctx.choose(5), fill = ctx.choose(2) ? 0xFF : 0;
	alignas(8) std::uint8_t data[32];
	std::vector<std::uint32_t> v;
	for (std::uint32_t i = 0; i < 65536; ++i)
	{
		v.push_back(i);
		v.push_back(i << 16);
		v.push_back(0xFFFF0000u | i);
	}
	for (std::uint32_t x : v)
	{
		std::memset(data, static_cast<int>(fill), sizeof(data));
		bool ok = setIndexValue(t, data, at, x);
		if (ok != (size != 0))
			ctx.fail("storing an index of type %u %s", static_cast<unsigned>(t), ok ? "succeeds" : "fails");
		std::uint32_t stored = size == 2 ? x & 0xFFFF : x;
		for (unsigned i = 0; i < sizeof(data); ++i)
		{
			unsigned want = size && i >= at*size && i < (at + 1)*size ? stored >> 8*(i - at*size) & 0xFF : fill;
			if (data[i] != want)
				ctx.fail("storing %u at %u leaves 0x%02x at byte %u", x, at, data[i], i);
		}
		std::uint32_t back = getIndexValue(t, data, at, 12345);
		if (back != (size ? stored : 12345u))
			ctx.fail("%u stored at %u loads as %u", x, at, back);
		for (unsigned o = 0; o < 5; ++o)
			if (o != at && getIndexValue(t, data, o, 12345) != (size == 0 ? 12345u : size == 2 ? fill*0x101u : fill*0x1010101u))
				ctx.fail("storing at %u changes the index at %u", at, o);
		ctx.step(2);
	}
	if (setIndexValue(t, nullptr, at, 1) || getIndexValue(t, nullptr, at, 7) != 7 || getIndexValue(t, nullptr, at) != 0xFFFFFFFFu || getIndexValue(IndexType::NoIndices, data, at) != 0xFFFFFFFFu)
		ctx.fail("null index data isn't rejected");
	ctx.state(mc::mix(static_cast<unsigned>(t)*64 + at*2 + (fill != 0)));
	ctx.nontrivial();
	ctx.trace();
}

// Positions whose place doesn't fit in 31 or 32 bits.
static void far(mc::Ctx& ctx)
{
	IndexType t = ctx.flag() ? IndexType::UInt32 : IndexType::UInt16;
	std::uint64_t size = t == IndexType::UInt16 ? 2 : 4;
	std::shared_ptr<std::uint8_t> data = mc::farMemory(size << 32);
	if (!data)
	{
		ctx.cover("no address space");
		throw mc::SkipPath();
	}
	std::vector<std::uint32_t> at;
	for (unsigned bit = 3; bit <= 32; ++bit)
		for (int d = -2; d <= 1; ++d)
			at.push_back(static_cast<std::uint32_t>((std::uint64_t(1) << bit) + static_cast<std::uint64_t>(static_cast<std::int64_t>(d))));
	std::sort(at.begin(), at.end());
	at.erase(std::unique(at.begin(), at.end()), at.end());
	std::uint32_t x = ctx.pick(at);
	std::uint32_t v = ctx.flag() ? 0x8001u : 0xFFFEu;
	if (t == IndexType::UInt32)
		v |= v << 16;
	if (!setIndexValue(t, data.get(), x, v))
		ctx.fail("storing an index at %u fails", x);
	for (std::uint32_t o : at)
	{
		std::uint32_t raw = 0;
		std::memcpy(&raw, data.get() + o*size, size);
		if (raw != (o == x ? v : 0))
			ctx.fail("storing %u at %u leaves %u at %u", v, x, raw, o);
		std::uint32_t got = getIndexValue(t, data.get(), o, 12345);
		if (got != (o == x ? v : 0))
			ctx.fail("%u stored at %u: loading from %u gives %u", v, x, o, got);
		ctx.step(2);
	}
	ctx.state(mc::mix(x*8ULL + size + (v & 1)));
	ctx.nontrivial();
	ctx.trace();
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		s.push_back({"counts", counts, 2, false, 60,
			std::string("every primitive type, patch sizes up to ") + (thorough ? "1024" : "128") + ", all counts up to 4096 and 400 around 2^8, 2^15, 2^16, 2^24, 2^31 and 2^32"});
		s.push_back({"widths", widths, 2, false, 60, "every index type, 5 positions, all 2^16 low and high halves"});
		s.push_back({"far", far, 3, false, 60, "positions within 2 of every power of two up to 2^32, both index types"});
		if (thorough)
			s.push_back({"all", all, 3, false, 120, "every 32-bit count for every primitive type and 5 patch sizes"});
		return s;
	});
}
