// Case generators shared by the converter checks. Each generator draws every decision from the
// explorer, so the set of cases it can return is exactly the set of leaves of its choice tree.
#pragma once
#include "conv.h"

namespace conv
{

inline const std::vector<PrimitiveType>& allPrims()
{
	static const std::vector<PrimitiveType> p = {PrimitiveType::PointList, PrimitiveType::LineList,
		PrimitiveType::TriangleList, PrimitiveType::PatchList, PrimitiveType::LineStrip,
		PrimitiveType::TriangleStrip, PrimitiveType::TriangleFan};
	return p;
}
inline std::vector<PrimitiveType> listPrims()
{
	return std::vector<PrimitiveType>(allPrims().begin(), allPrims().begin() + 4);
}
inline std::vector<PrimitiveType> stripPrims()
{
	return std::vector<PrimitiveType>(allPrims().begin() + 4, allPrims().end());
}

inline unsigned pickCount(mc::Ctx& ctx, PrimitiveType p, unsigned patch, unsigned lo, unsigned hi)
{
	std::vector<unsigned> ok;
	for (unsigned n = lo; n <= hi; ++n)
		if (countValid(p, n, patch))
			ok.push_back(n);
	if (ok.empty())
		throw mc::SkipPath();
	return ctx.pick(ok);
}

// How the positions' vertices reach the converter.
enum Supply
{
	SupplyU16,      // one u16-indexed stream, distinct vertices
	SupplyU32,      // the same with 32-bit indices
	SupplyFold,     // u16 indices where vertices 2k and 2k+1 hold the same bytes
	SupplyFlat,     // unindexed: equal ids are equal bytes at different positions
	SupplyCount
};

struct SeqOptions
{
	std::vector<PrimitiveType> prims = allPrims();
	unsigned minN = 1, maxN = 6;
	unsigned maxIds = 100;
	unsigned extraMax = 3;        // maximum index values from the smallest allowed to that + extraMax
	bool wide = true;             // u32 output too
	bool noIndices = true;        // no output indices too
	bool restartMax = true;       // also maxIndex == restart value and the default maximum
	std::vector<unsigned> supplies = {SupplyU16, SupplyU32, SupplyFold, SupplyFlat};
	unsigned outStreams = 1;      // 1, or 2: also split the output over two streams
};

inline void pickOutput(mc::Ctx& ctx, Case& c, const SeqOptions& so)
{
	unsigned k = ctx.choose(1 + (so.wide ? 1 : 0) + (so.noIndices ? 1 : 0));
	c.ot = k == 0 ? IndexType::UInt16 : k == 1 && so.wide ? IndexType::UInt32 : IndexType::NoIndices;
	if (c.ot == IndexType::NoIndices)
	{
		c.defaultMax = true;
		return;
	}
	unsigned lo = minIndexCount(c.prim, c.patch) - 1;
	unsigned m = ctx.choose(so.extraMax + 1 + (so.restartMax ? 2 : 0));
	if (m <= so.extraMax)
		c.maxIndex = lo + m;
	else if (m == so.extraMax + 1)
		c.defaultMax = true;
	else
		c.maxIndex = restartValue(c.ot);
}

// Every sequence of vertices (up to renaming) of every valid length in the range, with restarts
// where they are allowed.
inline Case genSeq(mc::Ctx& ctx, const SeqOptions& so)
{
	Case c;
	c.prim = ctx.pick(so.prims);
	if (c.prim == PrimitiveType::PatchList)
		c.patch = ctx.range(1, 4);
	pickOutput(ctx, c, so);
	unsigned supply = ctx.pick(so.supplies);
	unsigned n = pickCount(ctx, c.prim, c.patch, so.minN, so.maxN);
	bool restarts = isStrip(c.prim) && supply != SupplyFlat && c.ot != IndexType::NoIndices;
	std::vector<int> seq = rgs(ctx, n, so.maxIds, restarts);
	c.out.push_back(format(ctx, {{"a", X8, UInt}}));
	if (so.outStreams > 1 && ctx.flag())
		c.out.push_back(format(ctx, {{"b", X8Y8Z8, UNorm}}));
	InStream s;
	s.fmt = format(ctx, {{"pad", X8, SInt}, {"a", X8, UInt}, {"b", X8Y8Z8, UNorm}});
	if (supply == SupplyFlat)
	{
		s.setData(n);
		for (unsigned i = 0; i < n; ++i)
		{
			fill(s, i, static_cast<unsigned>(seq[i]));
			*s.vertex(i) = static_cast<std::uint8_t>(i); // differs, but isn't output
		}
		s.it = IndexType::NoIndices;
	}
	else
	{
		std::uint32_t ids = idCount(seq);
		s.setData(ids + 1);
		for (unsigned i = 0; i <= ids; ++i)
		{
			fill(s, i, supply == SupplyFold ? i/2 : i);
			*s.vertex(i) = static_cast<std::uint8_t>(i);
		}
		IndexType t = supply == SupplyU32 ? IndexType::UInt32 : IndexType::UInt16;
		s.setIndices(t, toIndices(seq, t));
	}
	c.in.push_back(std::move(s));
	return c;
}

// Two streams with independent indices: a position's vertex is the pair, and either stream can
// restart the strip.
inline Case genPair(mc::Ctx& ctx, const SeqOptions& so, unsigned kinds = 4)
{
	Case c;
	c.prim = ctx.pick(so.prims);
	if (c.prim == PrimitiveType::PatchList)
		c.patch = ctx.range(1, 3);
	pickOutput(ctx, c, so);
	// Index types of the two streams; unindexed ones hold one vertex per position.
	static const IndexType types[4][2] = {{IndexType::UInt16, IndexType::UInt16}, {IndexType::UInt16, IndexType::UInt32},
		{IndexType::NoIndices, IndexType::UInt16}, {IndexType::UInt32, IndexType::NoIndices}};
	unsigned kind = ctx.choose(kinds);
	unsigned n = pickCount(ctx, c.prim, c.patch, so.minN, so.maxN);
	bool swapOut = ctx.flag();
	c.out.push_back(format(ctx, {{"a", X8, UInt}, {"b", X16, UInt}}));
	if (swapOut)
	{
		c.out.clear();
		c.out.push_back(format(ctx, {{"b", X16, UInt}}));
		c.out.push_back(format(ctx, {{"a", X8, UInt}}));
	}
	const char* names[2] = {"a", "b"};
	for (unsigned k = 0; k < 2; ++k)
	{
		InStream s;
		s.fmt = format(ctx, {{names[k], k ? X16 : X8, UInt}});
		IndexType t = types[kind][k];
		bool restarts = isStrip(c.prim) && t != IndexType::NoIndices && c.ot != IndexType::NoIndices;
		std::vector<int> seq = rgs(ctx, n, so.maxIds, restarts);
		if (t == IndexType::NoIndices)
		{
			s.setData(n);
			for (unsigned i = 0; i < n; ++i)
				fill(s, i, static_cast<unsigned>(seq[i]));
		}
		else
		{
			std::uint32_t ids = idCount(seq);
			s.setData(std::max(ids, 1U));
			for (unsigned i = 0; i < s.count; ++i)
				fill(s, i, i);
			s.setIndices(t, toIndices(seq, t));
		}
		c.in.push_back(std::move(s));
	}
	return c;
}

// Long sequences of fresh vertices with at most `deviations` departures (a restart, or one of
// several kinds of repeat) at any positions.
inline Case genLong(mc::Ctx& ctx, const SeqOptions& so, unsigned deviations)
{
	Case c;
	c.prim = ctx.pick(so.prims);
	if (c.prim == PrimitiveType::PatchList)
		c.patch = ctx.range(2, 5);
	pickOutput(ctx, c, so);
	std::vector<unsigned> ok;
	for (unsigned n = so.minN; n <= so.maxN; ++n)
		if (countValid(c.prim, n, c.patch))
			ok.push_back(n);
	while (ok.size() > 3)
		ok.erase(ok.begin());
	if (ok.empty())
		throw mc::SkipPath();
	unsigned n = ctx.pick(ok);
	bool strips = isStrip(c.prim) && c.ot != IndexType::NoIndices;
	unsigned kinds = strips ? 5 : 4;
	std::vector<int> dev(n, 0);
	unsigned from = 0;
	for (unsigned d = 0; d < deviations && from < n; ++d)
	{
		// 0: no further deviation.
		unsigned p = ctx.choose(n - from + 1);
		if (p == 0)
			break;
		dev[from + p - 1] = 1 + static_cast<int>(ctx.choose(kinds));
		from += p;
	}
	std::vector<int> seq(n);
	int next = 0;
	for (unsigned i = 0; i < n; ++i)
	{
		int v = next;
		auto back = [&](unsigned k) { return i >= k ? seq[i - k] : -1; };
		switch (dev[i])
		{
			case 1: v = back(1); break;         // degenerate repeat
			case 2: v = back(2); break;
			case 3: v = next > 0 ? 0 : -1; break; // very first vertex
			case 4: v = back(4); break;
			case 5: v = -2; break;
			default: break;
		}
		if (v == -2)
			seq[i] = -1;
		else
		{
			if (v < 0)
				v = next;
			seq[i] = v;
			if (v == next)
				++next;
		}
	}
	c.out.push_back(format(ctx, {{"a", X8, UInt}}));
	InStream s;
	s.fmt = format(ctx, {{"a", X8, UInt}});
	s.setData(static_cast<std::uint32_t>(next) + 1);
	for (unsigned i = 0; i < s.count; ++i)
		fill(s, i, i);
	s.setIndices(IndexType::UInt16, toIndices(seq, IndexType::UInt16));
	c.in.push_back(std::move(s));
	return c;
}

// Number of distinct vertices around the limit of the index type or an explicit maximum.
inline Case genLarge(mc::Ctx& ctx, const std::vector<PrimitiveType>& prims, bool thorough)
{
	Case c;
	c.prim = ctx.pick(prims);
	if (c.prim == PrimitiveType::PatchList)
		c.patch = thorough ? ctx.range(3, 4) : 4;
	struct L { IndexType t; bool def; std::uint32_t mx; std::uint32_t around; };
	static const std::vector<L> limits = {
		{IndexType::UInt16, true, 0, 0xFFFE}, {IndexType::UInt16, false, 0xFFFF, 0xFFFF},
		{IndexType::UInt16, false, 0xFF, 0xFF}, {IndexType::UInt32, false, 0xFFFF, 0xFFFF},
		{IndexType::UInt16, false, 0x100, 0x100}, {IndexType::UInt32, true, 0, 0xFFFF},
		{IndexType::UInt32, false, 0x10001, 0x10001}, {IndexType::UInt16, false, 0xFFFD, 0xFFFD}};
	const L& l = thorough ? ctx.pick(limits) : limits[ctx.choose(4)];
	c.ot = l.t;
	c.defaultMax = l.def;
	c.maxIndex = l.mx;
	unsigned patch = std::max(c.patch, 1U);
	unsigned stride = listStride(c.prim, patch);
	// Unique vertices from just below to just above what fits, in whole primitives.
	std::uint32_t base = l.around > 4 ? l.around - 4 : 0;
	std::uint32_t n = base + ctx.choose(thorough ? 12 : 7);
	n -= n%stride;
	if (ctx.flag())
		n += 6*stride;
	bool indexed = ctx.flag();
	c.out.push_back(format(ctx, {{"a", X32, UInt}}));
	InStream s;
	s.fmt = format(ctx, {{"a", X32, UInt}});
	s.setData(n);
	for (std::uint32_t i = 0; i < n; ++i)
	{
		std::uint32_t v = i*2654435761U;
		std::memcpy(s.vertex(i), &v, 4);
	}
	if (indexed)
	{
		std::vector<std::uint32_t> idx(n);
		for (std::uint32_t i = 0; i < n; ++i)
			idx[i] = i;
		// Repeat the start at the end so that old vertices are needed again, and restart a strip.
		for (unsigned k = 0; k < 4*stride; ++k)
			idx.push_back(k);
		if (isStrip(c.prim))
		{
			idx.push_back(0xFFFFFFFFU);
			for (unsigned k = 0; k < 4; ++k)
				idx.push_back(n - 1 - k);
		}
		s.setIndices(IndexType::UInt32, std::move(idx));
	}
	c.in.push_back(std::move(s));
	return c;
}

// More vertices than 16 bits count, some of which are needed again after any number of others, with
// buffers of at most about as many or of 32-bit indices without a limit.
inline Case genRecall(mc::Ctx& ctx, const std::vector<PrimitiveType>& prims, const std::vector<std::uint32_t>& sizes)
{
	Case c;
	c.prim = ctx.pick(prims);
	if (c.prim == PrimitiveType::PatchList)
		c.patch = 2;
	c.ot = IndexType::UInt32;
	unsigned m = ctx.choose(4);
	static const std::uint32_t maxima[] = {0, 65535, 65536, 70001};
	c.defaultMax = m == 0;
	c.maxIndex = maxima[m];
	std::uint32_t n = ctx.pick(sizes);
	n -= n%12;
	bool restarts = isStrip(c.prim) && ctx.flag();
	std::vector<std::uint32_t> idx(n);
	for (std::uint32_t i = 0; i < n; ++i)
		idx[i] = restarts && i%10007 == 10000 ? 0xFFFFFFFFU : i;
	// Old vertices between new ones.
	for (std::uint32_t back : {n, n - 1, n - 2, n/2, n/3, 65536u, 65535u, 4096u, 1000u, 256u, 2u, 1u})
		idx.push_back(n - back);
	for (std::uint32_t i = 0; i < 12; ++i)
		idx.push_back(n + i);
	for (std::uint32_t i = 0; i < 12; ++i)
		idx.push_back(i*1000 + 7);
	c.out.push_back(format(ctx, {{"a", X32, UInt}}));
	InStream s;
	s.fmt = format(ctx, {{"a", X32, UInt}});
	s.setData(n + 12);
	for (std::uint32_t i = 0; i < s.count; ++i)
	{
		std::uint32_t v = i*2654435761U;
		std::memcpy(s.vertex(i), &v, 4);
	}
	s.setIndices(IndexType::UInt32, std::move(idx));
	c.in.push_back(std::move(s));
	return c;
}

// A long stream of which one vertex is the least or greatest in one component.
inline Case genExtremes(mc::Ctx& ctx, const std::vector<std::uint32_t>& counts, bool thorough)
{
	Case c;
	c.prim = ctx.flag() ? PrimitiveType::LineStrip : PrimitiveType::PointList;
	std::uint32_t n = ctx.pick(counts);
	unsigned form = ctx.choose(thorough ? 4 : 3); // floats, bytes, 10 bits, doubles
	unsigned comp = ctx.choose(4);
	bool high = ctx.flag();
	const std::uint32_t ends[] = {0, 1, 2, 3, n/2 - 1, n/2, n/2 + 1, n - 4, n - 3, n - 2, n - 1};
	std::uint32_t at = ends[ctx.choose(11)];
	unsigned indices = ctx.choose(3); // none, in order, backwards
	c.ot = comp%2 ? IndexType::UInt32 : IndexType::UInt16;
	c.defaultMax = true;
	ElementLayout layouts[] = {ElementLayout::X32Y32Z32W32, X8Y8Z8W8, ElementLayout::W2X10Y10Z10, ElementLayout::X64Y64Z64W64};
	ElementType type = form == 1 ? ElementType::UInt : form == 2 ? ElementType::UNorm : Float;
	c.out.push_back(format(ctx, {{"p", ElementLayout::X32Y32Z32W32, Float}}));
	InStream s;
	s.fmt = format(ctx, {{"p", layouts[form], type}});
	s.setData(n);
	for (std::uint32_t i = 0; i < n; ++i)
	{
		// All within a narrow range but for one.
		unsigned v[4];
		for (unsigned k = 0; k < 4; ++k)
			v[k] = form == 2 && k == 3 ? 1 : 100 + (i + k)%7;
		if (i == at)
			v[comp] = form == 2 && comp == 3 ? (high ? 3 : 0) : high ? 200 : 3;
		if (form == 1)
			for (unsigned k = 0; k < 4; ++k)
				s.vertex(i)[k] = static_cast<std::uint8_t>(v[k]);
		else if (form == 2)
		{
			std::uint32_t w = v[0] | v[1] << 10 | v[2] << 20 | v[3] << 30;
			std::memcpy(s.vertex(i), &w, 4);
		}
		else
			for (unsigned k = 0; k < 4; ++k)
			{
				double d = v[k]*0.25 - 30;
				float f = static_cast<float>(d);
				if (form == 0)
					std::memcpy(s.vertex(i) + k*4, &f, 4);
				else
					std::memcpy(s.vertex(i) + k*8, &d, 8);
			}
	}
	if (indices)
	{
		std::vector<std::uint32_t> idx(n);
		for (std::uint32_t i = 0; i < n; ++i)
			idx[i] = indices == 1 ? i : n - 1 - i;
		s.setIndices(IndexType::UInt32, std::move(idx));
	}
	c.in.push_back(std::move(s));
	return c;
}

// Vertices of every size that differ in at most one byte, to pit every byte against sharing.
inline Case genStride(mc::Ctx& ctx, unsigned maxBytes, unsigned streams)
{
	Case c;
	c.prim = PrimitiveType::PointList;
	c.ot = IndexType::UInt16;
	c.defaultMax = true;
	unsigned n = ctx.range(1, streams);
	unsigned total = 0;
	std::vector<unsigned> sizes;
	for (unsigned s = 0; s < n; ++s)
	{
		unsigned mx = n == 1 ? maxBytes : n == 2 ? maxBytes/3 : 9;
		sizes.push_back(ctx.range(1, mx));
		total += sizes.back();
	}
	unsigned diff = ctx.choose(total + 1); // total: no difference
	unsigned delta = ctx.choose(3);        // how the byte differs
	bool back = ctx.flag();                // A B A rather than A B B
	InStream in;
	std::vector<std::string> names;
	for (unsigned s = 0; s < n; ++s)
	{
		VertexFormat f;
		unsigned left = sizes[s], k = 0;
		while (left)
		{
			ElementLayout l = left >= 4 ? X8Y8Z8W8 : left == 3 ? X8Y8Z8 : left == 2 ? X8Y8 : X8;
			std::string name = "e" + std::to_string(s) + "_" + std::to_string(k++);
			f.appendElement(name, l, UInt);
			in.fmt.appendElement(name, l, UInt);
			left -= info(l).size;
		}
		c.out.push_back(std::move(f));
	}
	in.setData(3);
	for (unsigned v = 0; v < 3; ++v)
	{
		for (unsigned b = 0; b < total; ++b)
			in.vertex(v)[b] = static_cast<std::uint8_t>(b*7 + 1);
		bool other = v == 1 || (v == 2 && !back);
		if (other && diff < total)
			in.vertex(v)[diff] ^= static_cast<std::uint8_t>(delta == 0 ? 1 : delta == 1 ? 0x80 : 0xff);
	}
	c.in.push_back(std::move(in));
	return c;
}

// Larger vertices, likewise.
inline Case genWide(mc::Ctx& ctx, const std::vector<unsigned>& sizes)
{
	Case c;
	c.prim = PrimitiveType::PointList;
	c.ot = ctx.flag() ? IndexType::UInt16 : IndexType::UInt32;
	c.defaultMax = true;
	unsigned total = ctx.pick(sizes);
	unsigned diff = ctx.choose(total + 1);
	VertexFormat f;
	for (unsigned left = total, k = 0; left; ++k)
	{
		ElementLayout l = left >= 32 ? ElementLayout::X64Y64Z64W64 : left >= 8 ? ElementLayout::X64 : left >= 4 ? X8Y8Z8W8 : left == 3 ? X8Y8Z8 :
			left == 2 ? X8Y8 : X8;
		f.appendElement("e" + std::to_string(k), l, info(l).bits == 64 ? Float : UInt);
		left -= info(l).size;
	}
	c.out.push_back(f);
	InStream in;
	in.fmt = f;
	in.setData(4);
	for (unsigned v = 0; v < 4; ++v)
	{
		for (unsigned b = 0; b < total; ++b)
			in.vertex(v)[b] = static_cast<std::uint8_t>((b*7 + 1) & 0x3f); // finite as doubles too
		if ((v & 1) && diff < total)
			in.vertex(v)[diff] ^= 0x20;
	}
	c.in.push_back(std::move(in));
	return c;
}

// Vertices whose place in memory doesn't fit in 32 bits, or whose index is at the end of 32 bits.
inline Case genFar(mc::Ctx& ctx, const std::vector<PrimitiveType>& prims, const std::vector<unsigned>& strides)
{
	Case c;
	c.prim = ctx.pick(prims);
	if (c.prim == PrimitiveType::PatchList)
		c.patch = 2;
	unsigned k = ctx.choose(3);
	c.ot = k == 0 ? IndexType::UInt16 : k == 1 ? IndexType::UInt32 : IndexType::NoIndices;
	c.defaultMax = k != 0;
	c.maxIndex = 3;
	unsigned stride = ctx.pick(strides);
	InStream s;
	if (stride < 4)
		s.fmt = format(ctx, {{"a", stride == 1 ? X8 : stride == 2 ? X8Y8 : X8Y8Z8, UInt}});
	else
	{
		// The element that is output is at the end of the vertex.
		for (unsigned left = stride - 4, i = 0; left; ++i)
		{
			ElementLayout l = left >= 32 ? ElementLayout::X64Y64Z64W64 : left >= 8 ? ElementLayout::X64 : left >= 4 ? X32 : left == 3 ? X8Y8Z8 :
				left == 2 ? X16 : X8;
			s.fmt.appendElement("pad" + std::to_string(i), l, info(l).bits == 64 ? Float : UInt);
			left -= info(l).size;
		}
		s.fmt.appendElement("a", X8Y8Z8W8, UInt);
	}
	c.out.push_back(format(ctx, {{"a", s.fmt.find("a")->layout, UInt}}));
	// Where the place of a vertex leaves 31 or 32 bits, and the ends of the indices.
	std::vector<std::uint64_t> at = {0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFD, 0xFFFFFFFE};
	for (std::uint64_t edge : {std::uint64_t(1) << 31, std::uint64_t(1) << 32, std::uint64_t(1) << 35})
		for (int d = -1; d <= 1; ++d)
			at.push_back(edge/stride + static_cast<std::uint64_t>(static_cast<std::int64_t>(d)));
	std::vector<std::uint32_t> places;
	for (std::uint64_t a : at)
		if (a < 0xFFFFFFFF && std::find(places.begin(), places.end(), a) == places.end())
			places.push_back(static_cast<std::uint32_t>(a));
	if (!s.setFar(0xFFFFFFFF))
	{
		ctx.cover("no address space");
		throw mc::SkipPath();
	}
	unsigned n = c.prim == PrimitiveType::PointList || c.prim == PrimitiveType::LineStrip ? 3 : 4;
	std::vector<std::uint32_t> idx;
	for (std::uint32_t i = 0; i < places.size(); ++i)
	{
		std::uint8_t* p = s.vertex(places[i]);
		p[stride - 1] = static_cast<std::uint8_t>(i + 1);
		p[0] = static_cast<std::uint8_t>(stride == 1 ? i + 1 : 200 - i);
	}
	// The vertex at each place among others.
	unsigned first = ctx.choose(static_cast<unsigned>(places.size()));
	for (unsigned i = 0; i < n; ++i)
		idx.push_back(places[(first + i*5)%places.size()]);
	while (!countValid(c.prim, static_cast<std::uint32_t>(idx.size()), c.patch))
		idx.push_back(idx[0]);
	s.setIndices(IndexType::UInt32, std::move(idx));
	c.in.push_back(std::move(s));
	return c;
}

// Vertices that differ although the library's hash of them (64-bit MurmurHash2, streams combined in boost's
// manner) is the same. Should the hash change they are just four different vertices.
struct Collision
{
	static constexpr std::uint64_t m = 0xc6a4a7935bd1e995ULL;
	static constexpr std::uint64_t seed = 0xc70f6907U;
	static std::uint64_t inverse(std::uint64_t a)
	{
		std::uint64_t x = a;
		for (int i = 0; i < 6; ++i)
			x *= 2 - a*x;
		return x;
	}
	static std::uint64_t mix(std::uint64_t k) { k *= m; k ^= k >> 47; return k*m; }
	static std::uint64_t unmix(std::uint64_t k) { k *= inverse(m); k ^= k >> 47; return k*inverse(m); }
	static std::uint64_t start(std::uint64_t size) { return seed ^ (size*m); }
	static std::uint64_t finish(std::uint64_t h) { h ^= h >> 47; h *= m; return h ^ (h >> 47); }
	static std::uint64_t unfinish(std::uint64_t h) { h ^= h >> 47; h *= inverse(m); return h ^ (h >> 47); }
	static std::uint64_t combine(std::uint64_t a, std::uint64_t b) { return a ^ (b + 0x9e3779b9 + (a << 6) + (a >> 2)); }
	// Of 8-byte blocks.
	static std::uint64_t hash(const std::vector<std::uint64_t>& blocks)
	{
		std::uint64_t h = start(blocks.size()*8);
		for (std::uint64_t k : blocks)
			h = (h ^ mix(k))*m;
		return finish(h);
	}
	// The last block that gives a hash after the first ones.
	static std::uint64_t last(std::vector<std::uint64_t> first, std::uint64_t want)
	{
		std::uint64_t h = start((first.size() + 1)*8);
		for (std::uint64_t k : first)
			h = (h ^ mix(k))*m;
		return unmix((unfinish(want)*inverse(m)) ^ h);
	}
};

// Every sequence of up to maxN positions over four vertices with the same hash. The blocks of a vertex: free ones
// and the one that makes the hash the same, in one or two streams.
inline Case genCollision(mc::Ctx& ctx, unsigned maxN, const std::vector<PrimitiveType>& prims)
{
	Case c;
	c.prim = ctx.pick(prims);
	if (c.prim == PrimitiveType::PatchList)
		c.patch = ctx.range(1, 3);
	c.ot = ctx.flag() ? IndexType::UInt16 : IndexType::UInt32;
	c.defaultMax = ctx.flag();
	c.maxIndex = 2 + ctx.choose(2);
	// Blocks per output stream.
	static const std::vector<std::vector<unsigned>> shapes = {{2}, {3}, {5}, {1, 1}, {2, 1}, {1, 2}, {1, 1, 1}};
	const std::vector<unsigned>& shape = ctx.pick(shapes);
	unsigned vary = ctx.choose(2); // which free block differs: the first or the last
	std::vector<std::vector<std::uint64_t>> vertices;
	unsigned total = 0;
	for (unsigned b : shape)
		total += b;
	std::uint64_t want = 0;
	for (unsigned v = 0; v < 4; ++v)
	{
		std::vector<std::uint64_t> blocks(total);
		unsigned differs = vary == 0 ? 0 : total - 2;
		for (unsigned b = 0; b + 1 < total; ++b)
			blocks[b] = 0x0102030405060708ULL*(b + 1);
		blocks[differs] += v;
		std::uint64_t h = 0;
		unsigned at = 0;
		for (std::size_t s = 0; s + 1 < shape.size(); ++s)
		{
			h = Collision::combine(h, Collision::hash(std::vector<std::uint64_t>(blocks.begin() + at, blocks.begin() + at + shape[s])));
			at += shape[s];
		}
		std::vector<std::uint64_t> first(blocks.begin() + at, blocks.end() - 1);
		if (v == 0)
		{
			blocks.back() = 42;
			first.push_back(42);
			want = Collision::combine(h, Collision::hash(first));
		}
		else
			blocks.back() = Collision::last(first, (want ^ h) - 0x9e3779b9 - (h << 6) - (h >> 2));
		vertices.push_back(blocks);
	}
	unsigned n = pickCount(ctx, c.prim, c.patch, 1, maxN);
	std::vector<std::uint32_t> idx;
	unsigned used = 0;
	for (unsigned i = 0; i < n; ++i)
	{
		unsigned v = ctx.choose(std::min(used + 1, 4U));
		used = std::max(used, v + 1);
		idx.push_back(v);
	}
	InStream in;
	unsigned at = 0;
	for (unsigned b : shape)
	{
		VertexFormat f;
		for (unsigned k = 0; k < b; ++k, ++at)
		{
			f.appendElement("e" + std::to_string(at), ElementLayout::X32Y32, UInt);
			in.fmt.appendElement("e" + std::to_string(at), ElementLayout::X32Y32, UInt);
		}
		c.out.push_back(std::move(f));
	}
	in.setData(4);
	for (unsigned v = 0; v < 4; ++v)
		std::memcpy(in.vertex(v), vertices[v].data(), total*8);
	in.setIndices(IndexType::UInt16, std::move(idx));
	c.in.push_back(std::move(in));
	return c;
}

// Floating point vertices that compare equal without being identical, or are identical without comparing equal: zeros of
// either sign, NaNs, denormals, infinities and values that may round to the same output.
inline const std::vector<double>& alikeValues()
{
	static const std::vector<double> v = {0.0, -0.0, 1.0, 1.0 + p2(-20), -1.0, p2(-24), -p2(-24), HUGE_VAL, -HUGE_VAL, 1.0 + p2(-40)};
	return v;
}

inline std::uint64_t alikeRaw(unsigned bits, unsigned id)
{
	const std::vector<double>& v = alikeValues();
	if (id < v.size())
	{
		if (bits == 64)
		{
			std::uint64_t r;
			std::memcpy(&r, &v[id], 8);
			return r;
		}
		if (bits == 32)
		{
			float f = static_cast<float>(v[id]);
			std::uint32_t r;
			std::memcpy(&r, &f, 4);
			return r;
		}
		static const std::uint64_t half[] = {0, 0x8000, 0x3c00, 0x3c01, 0xbc00, 1, 0x8001, 0x7c00, 0xfc00, 0x03ff};
		return half[id];
	}
	// Quiet NaNs: of either sign, with another payload.
	unsigned k = id - static_cast<unsigned>(v.size());
	std::uint64_t nan = bits == 64 ? 0x7ff8000000000000ULL : bits == 32 ? 0x7fc00000ULL : 0x7e00ULL;
	if (k == 1)
		nan |= 1ULL << (bits - 1);
	else if (k == 2)
		nan |= 1ULL << (bits == 64 ? 40 : bits == 32 ? 14 : 1);
	return nan;
}

inline Case genAlike(mc::Ctx& ctx, unsigned maxN)
{
	static const std::vector<ElementLayout> layouts = {ElementLayout::X32, ElementLayout::X32Y32, ElementLayout::X32Y32Z32, ElementLayout::X64,
		ElementLayout::X64Y64, ElementLayout::X16, ElementLayout::X16Y16, ElementLayout::X16Y16Z16W16};
	Case c;
	c.prim = ctx.pick(std::vector<PrimitiveType>{PrimitiveType::PointList, PrimitiveType::LineList});
	c.ot = IndexType::UInt16;
	c.maxIndex = ctx.flag() ? 2 : 9;
	ElementLayout l = ctx.pick(layouts);
	unsigned comps = info(l).comps, bits = field(l, 0).bits;
	// The same format, one that may round, or a wider one.
	ElementLayout to = l;
	if (comps <= 2)
	{
		unsigned other = ctx.choose(3);
		if (other)
			to = comps == 1 ? (bits == 32 ? (other == 1 ? ElementLayout::X16 : ElementLayout::X64) : bits == 64 ? (other == 1 ? ElementLayout::X16 : X32) :
				(other == 1 ? X32 : ElementLayout::X64)) :
				(bits == 32 ? (other == 1 ? X16Y16 : ElementLayout::X64Y64) : bits == 64 ? (other == 1 ? X16Y16 : X32Y32) :
				(other == 1 ? X32Y32 : ElementLayout::X64Y64));
	}
	unsigned vary = comps > 1 && ctx.flag() ? 0 : comps - 1;
	// Alone, after or before another element, or in a stream of its own after or before another.
	unsigned where = ctx.choose(5);
	InStream in;
	VertexFormat a, b;
	in.fmt.appendElement("v", l, Float);
	in.fmt.appendElement("n", X8, UInt);
	if (where == 2)
		a.appendElement("n", X8, UInt);
	a.appendElement("v", to, Float);
	if (where == 1)
		a.appendElement("n", X8, UInt);
	if (where == 3 || where == 4)
		b.appendElement("n", X8, UInt);
	if (where == 4)
		c.out.push_back(b);
	c.out.push_back(a);
	if (where == 3)
		c.out.push_back(b);
	const unsigned ids = static_cast<unsigned>(alikeValues().size()) + 3;
	unsigned first = ctx.choose(ids), second = ctx.choose(ids);
	unsigned n = pickCount(ctx, c.prim, 0, 2, maxN);
	in.setData(3);
	for (unsigned v = 0; v < 3; ++v)
	{
		for (unsigned m = 0; m < comps; ++m)
			setRaw(in.vertex(v) + in.fmt.begin()->offset, l, m, alikeRaw(bits, m != vary ? 2 : v == 0 ? first : v == 1 ? second : 0));
		in.vertex(v)[(in.fmt.begin() + 1)->offset] = 7;
	}
	std::vector<std::uint32_t> idx;
	unsigned used = 0;
	for (unsigned i = 0; i < n; ++i)
	{
		unsigned v = ctx.choose(std::min(used + 1, 3U));
		used = std::max(used, v + 1);
		idx.push_back(v);
	}
	in.setIndices(IndexType::UInt16, std::move(idx));
	c.in.push_back(std::move(in));
	return c;
}

// Identical positions share an index; where nothing is converted, each position has its own bytes, unless it's a NaN.
inline void oracleAlike(mc::Ctx& ctx, const Case& c, const Expected& x, const Out& o)
{
	oracleDedup(ctx, c, x, o);
	const InStream& in = c.in[0];
	const vfc::VertexElement& ie = *in.fmt.begin();
	std::size_t stream = 0;
	while (c.out[stream].find("v") == c.out[stream].end())
		++stream;
	const vfc::VertexElement& oe = *c.out[stream].find("v");
	unsigned size = info(ie.layout).size;
	std::uint32_t i = 0;
	for (auto& b : o.ibs)
	{
		std::map<std::string, std::uint32_t> seen;
		for (std::uint32_t v : b.idx)
		{
			if (i >= in.idx.size())
				ctx.fail("too many output indices\n%s%s", describe(c).c_str(), describeOut(o).c_str());
			const std::uint8_t* p = in.vertex(in.idx[i]);
			std::string bytes(reinterpret_cast<const char*>(p + ie.offset), size);
			auto ins = seen.emplace(bytes, v);
			if (ins.first->second != v)
				ctx.fail("position %u has an identical vertex with another index in its buffer\n%s%s", i, describe(c).c_str(), describeOut(o).c_str());
			double value[4];
			ref::decode(p + ie.offset, ie.layout, ie.type, value);
			bool nan = false;
			for (unsigned m = 0; m < info(ie.layout).comps; ++m)
				nan |= std::isnan(value[m]);
			std::uint64_t at = static_cast<std::uint64_t>(v) + static_cast<std::uint32_t>(b.base);
			if (at >= o.vertexCount)
				ctx.fail("index out of range\n%s%s", describe(c).c_str(), describeOut(o).c_str());
			if (!nan && oe.layout == ie.layout &&
				std::memcmp(o.vertices[stream].data() + at*c.out[stream].stride() + oe.offset, p + ie.offset, size) != 0)
				ctx.fail("position %u has the bytes of another vertex (%.17g ...)\n%s%s", i, value[0], describe(c).c_str(), describeOut(o).c_str());
			++i;
		}
	}
	if (i != in.idx.size())
		ctx.fail("%u output indices for %zu positions\n%s%s", i, in.idx.size(), describe(c).c_str(), describeOut(o).c_str());
}

// Two output elements whose names are nearly the same (one byte differs, in case, or one is longer), the inputs in
// one or two streams, and any transform for either or neither.
inline Case genNames(mc::Ctx& ctx, const std::vector<unsigned>& lengths, bool transforms)
{
	Case c;
	c.prim = PrimitiveType::PointList;
	c.ot = ctx.flag() ? IndexType::UInt16 : IndexType::NoIndices;
	c.defaultMax = true;
	unsigned n = ctx.pick(lengths);
	// Any byte, or in long names those at the start, around powers of two and at the end.
	std::vector<unsigned> places;
	for (unsigned i = 0; i <= n; ++i)
		if (n <= 33 || (ctx.thorough() && n <= 257) || i == 0 || (i & (i - 1)) == 0 || (i & (i + 1)) == 0 || i + 2 > n || i == n/2)
			places.push_back(i);
	unsigned at = ctx.pick(places);
	static const char with[] = {'b', 'A', '\0', '\x80', ' '};
	char other = with[ctx.choose(sizeof(with))];
	std::string a(n, 'a'), b = a;
	if (at < n)
		b[at] = other;
	else
		b += other;
	if (ctx.flag())
		std::swap(a, b);
	bool third = at == n && ctx.flag(); // another beyond both in the input
	auto append = [&](VertexFormat& f, const std::string& name, ElementLayout l, ElementType t) {
		if (f.appendElement(name, l, t) != VertexFormat::AddResult::Succeeded)
			ctx.fail("the element '%s' (%zu bytes) can't be appended", name.c_str(), name.size());
	};
	VertexFormat fa, fb;
	append(fa, a, X8Y8, UNorm);
	if (ctx.flag())
		append(fa, b, X16, SNorm);
	else
		append(fb, b, X16, SNorm);
	c.out.push_back(fa);
	if (!fb.empty())
		c.out.push_back(fb);
	unsigned ins = ctx.choose(3);
	InStream s1, s2;
	if (third)
		append(s1.fmt, a.size() > b.size() ? a + other : b + other, X8, UInt);
	append(s1.fmt, ins == 1 ? b : a, X8Y8, UNorm);
	append(ins == 2 ? s2.fmt : s1.fmt, ins == 1 ? a : b, X8Y8, ins ? SNorm : UNorm);
	auto add = [&](InStream& s, unsigned from) {
		if (s.fmt.empty())
			return;
		s.setData(3);
		for (unsigned v = 0; v < 3; ++v)
			fill(s, v, v*2 + from);
		c.in.push_back(std::move(s));
	};
	add(s1, 0);
	add(s2, 7);
	if (transforms)
	{
		static const Transform t[] = {Transform::Identity, Transform::Bounds, Transform::UNormToSNorm, Transform::SNormToUNorm};
		Transform ta = t[ctx.choose(4)], tb = t[ctx.choose(4)];
		if (ta != Transform::Identity)
			c.transforms.emplace_back(a, ta);
		if (tb != Transform::Identity)
			c.transforms.emplace_back(b, tb);
	}
	return c;
}

// Many elements and streams at once.
inline Case genMany(mc::Ctx& ctx, const std::vector<unsigned>& counts)
{
	Case c;
	c.prim = ctx.flag() ? PrimitiveType::LineStrip : PrimitiveType::PointList;
	unsigned kind = ctx.choose(2);
	c.ot = kind == 0 ? IndexType::UInt16 : IndexType::NoIndices;
	c.defaultMax = kind == 1;
	c.maxIndex = 2;
	unsigned m = ctx.pick(counts);
	static const std::vector<Elem> shapes = {{"", X8, UInt}, {"", X16Y16, SNorm}, {"", X32, Float}, {"", ElementLayout::W2X10Y10Z10, UNorm}};
	auto group = [&](unsigned form) {
		std::vector<std::vector<unsigned>> g;
		for (unsigned e = 0; e < m; ++e)
		{
			if (form == 0 || g.empty() || (form == 2 && g.back().size() == 3))
				g.emplace_back();
			g.back().push_back(form == 3 ? m - 1 - e : e);
		}
		return g;
	};
	auto name = [](unsigned e) { return "e" + std::to_string(e); };
	// 0: a stream per element, 1: all in one, 2: threes, 3: all in one in reverse
	auto in = group(ctx.choose(4)), out = group(ctx.choose(4));
	for (auto& g : out)
	{
		VertexFormat f;
		for (unsigned e : g)
			f.appendElement(name(e), shapes[e%4].layout, shapes[e%4].type);
		c.out.push_back(std::move(f));
	}
	unsigned forms = ctx.choose(3); // index forms of the streams: all unindexed, u16, mixed
	static const unsigned n = 5;
	unsigned k = 0;
	for (auto& g : in)
	{
		InStream s;
		for (unsigned e : g)
			s.fmt.appendElement(name(e), shapes[e%4].layout, shapes[e%4].type);
		unsigned form = forms == 2 ? k%3 : forms;
		s.setData(form ? n + 2 : n);
		for (unsigned v = 0; v < s.count; ++v)
			fill(s, v, (v*(1 + k%3) + k)%11 + (v >= n ? 40 : 0));
		if (form)
		{
			std::vector<std::uint32_t> idx;
			for (unsigned i = 0; i < n; ++i)
				idx.push_back((i + k)%n);
			s.setIndices(form == 1 ? IndexType::UInt16 : IndexType::UInt32, std::move(idx));
		}
		c.in.push_back(std::move(s));
		++k;
	}
	unsigned t = ctx.choose(4); // none, the last, the middle, every third
	for (unsigned e = 0; e < m; ++e)
		if ((t == 1 && e + 1 == m) || (t == 2 && e == m/2) || (t == 3 && e%3 == 0))
			c.transforms.emplace_back(name(e), e%2 ? Transform::Bounds : Transform::SNormToUNorm);
	return c;
}

// Streams whose arrays are the same or overlap.
inline Case genAlias(mc::Ctx& ctx, unsigned maxStreams = 3)
{
	Case c;
	static const std::vector<PrimitiveType> prims = {PrimitiveType::PointList, PrimitiveType::LineList, PrimitiveType::LineStrip};
	c.prim = ctx.pick(prims);
	unsigned kind = ctx.choose(3);
	c.ot = kind == 0 ? IndexType::UInt16 : kind == 1 ? IndexType::UInt32 : IndexType::NoIndices;
	c.defaultMax = kind == 2;
	c.maxIndex = 3;
	static const Elem shapes[3] = {{"", X8, UInt}, {"", X16, UInt}, {"", X8Y8Z8, UNorm}};
	static const char* names[3] = {"a", "b", "c"};
	unsigned streams = ctx.range(2, maxStreams);
	unsigned outForm = ctx.choose(2);
	VertexFormat all;
	for (unsigned k = 0; k < streams; ++k)
	{
		InStream s;
		const Elem& e = shapes[ctx.choose(3)];
		s.fmt.appendElement(names[k], e.layout, e.type);
		if (ctx.flag())
			s.fmt.appendElement("pad", X8, UInt);
		VertexFormat f;
		f.appendElement(names[k], e.layout, e.type);
		all.appendElement(names[k], e.layout, e.type);
		if (outForm)
			c.out.push_back(f);
		unsigned count = k == 0 ? 7 : ctx.range(4, 6);
		bool indexed = ctx.flag();
		if (!indexed)
			count = 4;
		s.setData(count);
		const InStream* first = k ? &c.in[0] : nullptr;
		// The first array is the longest (7 vertices or padded): share its start where it fits.
		if (first && ctx.flag())
		{
			if (s.data.size() > first->data.size())
				throw mc::SkipPath();
			std::memcpy(s.data.data(), first->dataPtr(), s.data.size());
			s.aliasData = first->dataPtr();
		}
		else
			for (unsigned v = 0; v < count; ++v)
				fill(s, v, v + k*20);
		if (indexed)
		{
			static const std::uint32_t seqs[3][4] = {{0, 3, 1, 2}, {2, 2, 0, 3}, {3, 1, 3, 0}};
			std::vector<std::uint32_t> idx(seqs[k], seqs[k] + 4);
			const InStream* donor = nullptr;
			for (auto& o : c.in)
				if (o.it != IndexType::NoIndices)
				{
					donor = &o;
					break;
				}
			IndexType t = ctx.flag() ? IndexType::UInt32 : IndexType::UInt16;
			if (donor && donor->it == t && ctx.flag())
			{
				s.setIndices(t, donor->idx);
				s.aliasIdx = donor->idxPtr();
			}
			else
				s.setIndices(t, std::move(idx));
		}
		c.in.push_back(std::move(s));
	}
	if (!outForm)
		c.out.push_back(all);
	return c;
}

// Values at the limits of floating point, exactly as they bound and normalize.
inline Case genPrecision(mc::Ctx& ctx, bool bounds)
{
	struct Out { ElementLayout l; ElementType t; };
	static const std::vector<Out> outs = {{X8Y8, UNorm}, {X8Y8, SNorm}, {X16Y16, UNorm}, {X16Y16, SNorm}, {ElementLayout::W2X10Y10Z10, UNorm},
		{ElementLayout::W2Z10Y10X10, SNorm}};
	static const double inf = std::numeric_limits<double>::infinity(), big = std::numeric_limits<double>::max(),
		tiny = std::numeric_limits<double>::denorm_min(), small = std::numeric_limits<double>::min(), fbig = std::numeric_limits<float>::max(),
		fsmall = std::numeric_limits<float>::min(), ftiny = std::numeric_limits<float>::denorm_min();
	static const std::vector<double> doubles = {0, -0.0, 1, -1, big, -big, small, -small, tiny, -tiny, 64*tiny, fbig, -fbig, fbig*1.5, -fbig*3, 1e19, -1e19,
		1000, 1000.01, 1e15, 1e15 + 0.125, -1e-17, 3e-17, std::nextafter(1.0, inf), std::nextafter(1.0, 0.0), 16777217, 16777219, 1e-300, 3e-300};
	static const std::vector<double> floats = {0, -0.0, 1, -1, fbig, -fbig, fsmall, -fsmall, ftiny, -ftiny, 64*ftiny, 1e19, -1e19, 1000, 1000.01f, -1000.02f,
		16777216, 16777218, 1e-17, -3e-17, 1e-30, 1e-38, 1.0f + 1.1920929e-7f, 1.0f - 5.960464e-8f, 6e-8};
	Case c;
	bool dbl = ctx.flag();
	Out out = bounds ? ctx.pick(outs) : outs[2];
	c.prim = PrimitiveType::PointList;
	c.ot = ctx.flag() ? IndexType::UInt16 : IndexType::NoIndices;
	c.defaultMax = true;
	InStream s;
	s.fmt = format(ctx, {{"pre", X8, UInt}, {"e", dbl ? ElementLayout::X64Y64 : X32Y32, Float}});
	c.out.push_back(format(ctx, {{"e", out.l, out.t}, {"pre", X8, UInt}}));
	c.transforms.emplace_back("e", bounds ? Transform::Bounds : Transform::Identity);
	const auto& vals = dbl ? doubles : floats;
	unsigned n = ctx.range(1, 3);
	s.setData(n);
	double x[3], lo = inf, hi = -inf;
	for (unsigned i = 0; i < n; ++i)
	{
		x[i] = vals[ctx.choose(static_cast<unsigned>(vals.size()))];
		lo = std::min(lo, x[i]);
		hi = std::max(hi, x[i]);
	}
	if (bounds && !std::isfinite(hi - lo))
		throw mc::SkipPath(); // the range has no double
	for (unsigned i = 0; i < n; ++i)
		for (unsigned m = 0; m < 2; ++m)
		{
			double d = x[m ? n - 1 - i : i]; // the other component in the other order
			s.vertex(i)[0] = static_cast<std::uint8_t>(i);
			float f = static_cast<float>(d);
			if (dbl)
				std::memcpy(s.vertex(i) + 1 + m*8, &d, 8);
			else
				std::memcpy(s.vertex(i) + 1 + m*4, &f, 4);
		}
	c.in.push_back(std::move(s));
	return c;
}

// Raw codes that exercise the boundaries of a component.
inline std::vector<std::uint64_t> boundaryRaw(ElementLayout l, ElementType t, unsigned c)
{
	std::vector<std::uint64_t> r;
	if (isShared(l))
		return {0, 1, 2, 255, 256, 257, 510, 511};
	unsigned bits = field(l, c).bits;
	std::uint64_t mask = bits == 64 ? ~0ULL : (1ULL << bits) - 1;
	if (isUFloat(l))
	{
		unsigned mb = bits - 5;
		return {0, 1, (1ULL << mb) - 1, 1ULL << mb, 15ULL << mb, (15ULL << mb) + 1, (16ULL << mb) + 3,
			(30ULL << mb) - 1, (31ULL << mb) - 1};
	}
	if (t == ElementType::Float)
	{
		static const double vals[] = {0, -0.0, 1, -1, 0.5, 0.25, -0.75, 0.3, 1.0/3, 0.999, 1.5, 2.5, -2.5, 100.49, 127.5,
			255, 256, -128, 511.5, 1023, 1024, 2048.5, 32767, 32768, 65504, -65504, 6e-8, 6.2e-5, 65519, 65535, 65536, -65536};
		static const double big[] = {1e9, 2147483647.0, -2147483648.0, 4294967295.0, 4294967296.0, 1e19, -1e19, 3e38, -3e38, 1e-40};
		for (double v : vals)
		{
			std::uint64_t raw = 0;
			if (bits == 64)
				std::memcpy(&raw, &v, 8);
			else if (bits == 32)
			{
				float f = static_cast<float>(v);
				std::memcpy(&raw, &f, 4);
			}
			else
				continue;
			r.push_back(raw);
		}
		for (double v : big)
		{
			std::uint64_t raw = 0;
			if (bits == 64)
				std::memcpy(&raw, &v, 8);
			else if (bits == 32)
			{
				float f = static_cast<float>(v);
				std::memcpy(&raw, &f, 4);
			}
			else
				continue;
			r.push_back(raw);
		}
		if (bits == 16)
			r = {0, 0x8000, 1, 0x8001, 0x3ff, 0x400, 0x3800, 0x3c00, 0xbc00, 0x3555, 0x3bff, 0x3c01, 0x4248, 0x5bf8, 0x7bff, 0xfbff, 0x7800, 0x4900};
		return r;
	}
	std::uint64_t half = 1ULL << (bits - 1);
	r = {0, 1, 2, half - 1, half, half + 1, mask - 1, mask, mask/3, (mask/3)*2};
	for (auto& v : r)
		v &= mask;
	return r;
}

// One element converted between any two valid layout/type pairs, between other elements.
inline Case genFormats(mc::Ctx& ctx, bool transforms)
{
	static const auto pairs = allValid();
	Case c;
	auto in = ctx.pick(pairs);
	auto out = ctx.pick(pairs);
	c.prim = PrimitiveType::PointList;
	c.ot = ctx.flag() ? IndexType::NoIndices : IndexType::UInt16;
	c.defaultMax = true;
	bool pad = ctx.flag();
	InStream s;
	if (pad)
	{
		s.fmt = format(ctx, {{"p", X8Y8Z8, UInt}, {"e", in.first, in.second}, {"q", X8, UInt}});
		c.out.push_back(format(ctx, {{"q", X8, UInt}, {"e", out.first, out.second}, {"p", X8Y8Z8, UInt}}));
	}
	else
	{
		s.fmt = format(ctx, {{"e", in.first, in.second}});
		c.out.push_back(format(ctx, {{"e", out.first, out.second}}));
	}
	if (transforms)
	{
		static const Transform t[] = {Transform::UNormToSNorm, Transform::SNormToUNorm, Transform::Bounds};
		c.transforms.emplace_back("e", t[ctx.choose(3)]);
	}
	std::vector<std::vector<std::uint64_t>> raws;
	std::size_t n = 0;
	for (unsigned m = 0; m < info(in.first).comps; ++m)
	{
		raws.push_back(boundaryRaw(in.first, in.second, m));
		n = std::max(n, raws.back().size());
	}
	s.setData(static_cast<std::uint32_t>(n));
	unsigned off = s.fmt.find("e")->offset;
	for (std::uint32_t v = 0; v < n; ++v)
	{
		fill(s, v, v);
		std::uint8_t* p = s.vertex(v) + off;
		for (unsigned m = 0; m < raws.size(); ++m)
			setRaw(p, in.first, m, raws[m][(v + m*3)%raws[m].size()]);
		if (isShared(in.first))
		{
			std::uint32_t w;
			std::memcpy(&w, p, 4);
			w = (w & 0x07ffffffU) | ((v*5)%32 << 27);
			std::memcpy(p, &w, 4);
		}
	}
	c.in.push_back(std::move(s));
	return c;
}

// A partition of elements 0..n-1 into ordered, non-empty groups in every order.
inline std::vector<std::vector<unsigned>> arrangement(mc::Ctx& ctx, unsigned n)
{
	std::vector<unsigned> left;
	for (unsigned i = 0; i < n; ++i)
		left.push_back(i);
	std::vector<std::vector<unsigned>> groups(1);
	while (!left.empty())
	{
		unsigned k = ctx.choose(static_cast<unsigned>(left.size()));
		if (!groups.back().empty() && ctx.flag())
			groups.emplace_back();
		groups.back().push_back(left[k]);
		left.erase(left.begin() + k);
	}
	return groups;
}

struct CfgOptions
{
	std::vector<PrimitiveType> prims = {PrimitiveType::PointList, PrimitiveType::LineList};
	unsigned elements = 3;
	unsigned n = 4;
	bool perStreamIndices = false; // choose each stream's index type independently
	bool outArrangement = true;
};

inline const std::vector<Elem>& cfgElems()
{
	// Names that are prefixes of others or differ only in case.
	static const std::vector<Elem> e = {{"pos", X8, UInt}, {"position", X16Y16, SNorm}, {"Pos", X32, Float}, {"po", ElementLayout::W2X10Y10Z10, UNorm},
		{"a position with a name too long for a small string", ElementLayout::X64, Float}};
	return e;
}

// Position values are fixed by (element, id); arrangement of inputs and outputs is enumerated.
// ids[e][i] is the value id of element e at position i.
inline void arrangeInput(mc::Ctx& ctx, Case& c, const std::vector<std::vector<unsigned>>& ids, unsigned elements, bool perStream,
	const std::vector<bool>* restart = nullptr)
{
	unsigned n = static_cast<unsigned>(ids[0].size());
	auto groups = arrangement(ctx, elements);
	unsigned extra = ctx.choose(4);      // none, unused element in front, behind, unused stream
	unsigned shared = perStream ? 0 : ctx.choose(6);
	for (auto& g : groups)
	{
		InStream s;
		if (extra == 1)
			s.fmt.appendElement("posit", X8Y8Z8, UNorm);
		for (unsigned e : g)
			s.fmt.appendElement(cfgElems()[e].name, cfgElems()[e].layout, cfgElems()[e].type);
		if (extra == 2)
			s.fmt.appendElement("positions", X16, UInt);
		unsigned form = perStream ? ctx.choose(6) : shared;
		bool mustIndex = restart != nullptr;
		if (mustIndex && form == 0)
			form = 1;
		// 0 unindexed; 1/2 u16/u32 identity; 3 reversed; 4 with unused garbage vertices; 5 shared.
		if (form == 0)
		{
			s.setData(n);
			for (unsigned i = 0; i < n; ++i)
			{
				fill(s, i, 90 + i);
				for (unsigned e : g)
				{
					InStream one;
					one.fmt.appendElement(cfgElems()[e].name, cfgElems()[e].layout, cfgElems()[e].type);
					one.setData(1);
					fill(one, 0, ids[e][i]);
					std::memcpy(s.vertex(i) + s.fmt.find(cfgElems()[e].name)->offset, one.vertex(0), one.fmt.stride());
				}
			}
		}
		else
		{
			std::vector<std::uint32_t> idx(n);
			unsigned count = n;
			for (unsigned i = 0; i < n; ++i)
				idx[i] = form == 3 ? n - 1 - i : form == 4 ? 2*i + 1 : i;
			if (form == 4)
				count = 2*n + 1;
			if (form == 5)
			{
				// Positions with equal values share an input vertex.
				for (unsigned i = 0; i < n; ++i)
					for (unsigned j = 0; j < i; ++j)
					{
						bool same = true;
						for (unsigned e : g)
							same &= ids[e][i] == ids[e][j];
						if (same)
						{
							idx[i] = idx[j];
							break;
						}
					}
			}
			s.setData(count);
			for (unsigned v = 0; v < count; ++v)
				fill(s, v, 120 + v);
			for (unsigned i = 0; i < n; ++i)
				for (unsigned e : g)
				{
					InStream one;
					one.fmt.appendElement(cfgElems()[e].name, cfgElems()[e].layout, cfgElems()[e].type);
					one.setData(1);
					fill(one, 0, ids[e][i]);
					std::memcpy(s.vertex(idx[i]) + s.fmt.find(cfgElems()[e].name)->offset, one.vertex(0), one.fmt.stride());
				}
			IndexType t = form == 2 || form == 4 ? IndexType::UInt32 : IndexType::UInt16;
			if (restart)
				for (unsigned i = 0; i < n; ++i)
					if ((*restart)[i])
						idx[i] = restartValue(t);
			s.setIndices(t, std::move(idx));
		}
		c.in.push_back(std::move(s));
	}
	if (extra == 3)
	{
		InStream s;
		s.fmt.appendElement("", X8, UInt);
		s.setData(n);
		c.in.insert(c.in.begin() + ctx.choose(2), std::move(s));
	}
}

inline void arrangeOutput(mc::Ctx& ctx, Case& c, unsigned elements)
{
	for (auto& g : arrangement(ctx, elements))
	{
		VertexFormat f;
		for (unsigned e : g)
			f.appendElement(cfgElems()[e].name, cfgElems()[e].layout, cfgElems()[e].type);
		c.out.push_back(std::move(f));
	}
}

inline Case genCfg(mc::Ctx& ctx, const CfgOptions& co)
{
	Case c;
	c.prim = ctx.pick(co.prims);
	unsigned k = ctx.choose(3);
	c.ot = k == 0 ? IndexType::UInt16 : k == 1 ? IndexType::UInt32 : IndexType::NoIndices;
	c.defaultMax = k == 2;
	c.maxIndex = 2;
	if (co.outArrangement)
		arrangeOutput(ctx, c, co.elements);
	else
	{
		VertexFormat f;
		for (unsigned e = 0; e < co.elements; ++e)
			f.appendElement(cfgElems()[e].name, cfgElems()[e].layout, cfgElems()[e].type);
		c.out.push_back(std::move(f));
	}
	std::vector<std::vector<unsigned>> ids(co.elements, std::vector<unsigned>(co.n));
	for (unsigned e = 0; e < co.elements; ++e)
		for (unsigned i = 0; i < co.n; ++i)
			ids[e][i] = e == 0 ? i%3 : e == 1 ? (i == 3 ? 0 : i) : i/2;
	arrangeInput(ctx, c, ids, co.elements, co.perStreamIndices);
	return c;
}

struct BoundsOptions
{
	unsigned n = 3;            // drawn positions
	unsigned comps = 2;        // enumerated components
	bool bounds = false;       // set the Bounds transform (C06)
	bool restarts = true;
};

// Every assignment of values from a small alphabet to the components of the drawn positions, with
// unused vertices, restarts and neighbouring elements holding extremes.
inline Case genBounds(mc::Ctx& ctx, const BoundsOptions& bo)
{
	struct In { ElementLayout l; ElementType t; };
	static const std::vector<In> ins = {{X32Y32, Float}, {ElementLayout::X64Y64, Float}, {ElementLayout::X16Y16Z16, Float},
		{X8Y8Z8W8, SNorm}, {ElementLayout::X16Y16Z16W16, UNorm}, {ElementLayout::X32Y32Z32W32, SInt}, {ElementLayout::X8Y8, UInt},
		{ElementLayout::W2Z10Y10X10, UNorm}, {ElementLayout::Z10Y11X11_UFloat, Float}};
	static const std::vector<In> outs = {{X8Y8Z8W8, UNorm}, {X8Y8, SNorm}, {ElementLayout::X16Y16Z16, SNorm}, {X16Y16, UNorm},
		{ElementLayout::W2X10Y10Z10, SNorm}, {ElementLayout::W2Z10Y10X10, UNorm}, {X32Y32, Float}, {X8Y8, SInt}, {X16Y16, Float}};
	Case c;
	In in = ctx.pick(ins);
	In out = bo.bounds ? ctx.pick(outs) : In{X32Y32, Float};
	unsigned form = ctx.choose(bo.restarts ? 4 : 2); // unindexed, indexed with unused vertices, strip with restarts, two streams
	unsigned n = form == 2 ? bo.n : ctx.range(1, bo.n);
	if (form == 2 && n < 2)
		throw mc::SkipPath();
	c.prim = form == 2 ? PrimitiveType::LineStrip : PrimitiveType::PointList;
	c.ot = form == 0 ? IndexType::NoIndices : IndexType::UInt16;
	c.defaultMax = form == 0;
	c.maxIndex = 1;
	unsigned first = ctx.choose(2); // which input components vary
	unsigned comps = info(in.l).comps;
	std::vector<Elem> fe = {{"pre", X32, Float}, {"e", in.l, in.t}, {"post", X8, SInt}};
	InStream s;
	s.fmt = format(ctx, fe);
	c.out.push_back(format(ctx, {{"post", X8, SInt}, {"e", out.l, out.t}}));
	if (bo.bounds)
		c.transforms.emplace_back("e", Transform::Bounds);
	unsigned unused = form == 1 || form == 2 ? 2 : 0;
	s.setData(n + unused);
	auto code = [&](unsigned m, unsigned k) -> std::uint64_t {
		unsigned bits = isShared(in.l) ? 9 : field(in.l, m).bits;
		static const double fl[] = {0.25, -1.5, 3, -0.5, 1000};
		if (isUFloat(in.l))
		{
			static const unsigned u[] = {0x200, 0x10, 0x1e0, 0, 0x222};
			return u[k];
		}
		if (in.t == Float)
		{
			double d = fl[k];
			std::uint64_t r = 0;
			if (bits == 64)
				std::memcpy(&r, &d, 8);
			else if (bits == 32)
			{
				float f = static_cast<float>(d);
				std::memcpy(&r, &f, 4);
			}
			else
			{
				static const unsigned h[] = {0x3400, 0xbe00, 0x4200, 0xb800, 0x63d0};
				r = h[k];
			}
			return r;
		}
		std::uint64_t mask = bits == 64 ? ~0ULL : (1ULL << bits) - 1;
		std::uint64_t v[] = {mask/3, mask, mask/5, 1, (mask >> 1) + 1};
		return v[k] & mask;
	};
	unsigned off = s.fmt.find("e")->offset;
	// Order in which the positions visit the vertices: both directions, to separate position from index.
	bool reverse = ctx.flag();
	for (unsigned v = 0; v < n + unused; ++v)
	{
		fill(s, v, v*3 + 1);
		std::uint8_t* p = s.vertex(v) + off;
		bool used = v < n;
		for (unsigned m = 0; m < comps; ++m)
		{
			unsigned k;
			if (!used)
				k = v == n ? 4 : 1;     // extremes that aren't drawn
			else if (m >= first && m < first + bo.comps)
				k = ctx.choose(4);
			else
				k = (v + m)%3;
			setRaw(p, in.l, m, code(m, k));
		}
	}
	if (form == 1 || form == 2)
	{
		std::vector<std::uint32_t> idx;
		for (unsigned i = 0; i < n; ++i)
			idx.push_back(reverse ? n - 1 - i : i);
		if (form == 2)
			idx.insert(idx.begin() + ctx.choose(n + 1), 0xFFFFFFFFU);
		s.setIndices(form == 1 ? IndexType::UInt32 : IndexType::UInt16, std::move(idx));
	}
	if (form == 3)
	{
		// The neighbouring element comes from another stream with its own indices.
		InStream t;
		t.fmt = format(ctx, {{"x", X8, UInt}, {"post2", X8, SInt}});
		t.setData(2);
		fill(t, 0, 1);
		fill(t, 1, 2);
		std::vector<std::uint32_t> idx;
		for (unsigned i = 0; i < n; ++i)
			idx.push_back(reverse ? 0 : i%2);
		t.setIndices(IndexType::UInt16, std::move(idx));
		c.out.push_back(format(ctx, {{"post2", X16, SInt}}));
		c.in.push_back(std::move(t));
	}
	c.in.push_back(std::move(s));
	return c;
}

// Sequences of thousands of positions in regular patterns, split into up to thousands of buffers.
inline Case genBulk(mc::Ctx& ctx, const std::vector<PrimitiveType>& prims, const std::vector<std::uint32_t>& counts, bool few = false)
{
	Case c;
	std::uint32_t n = ctx.pick(counts);
	c.prim = ctx.pick(prims);
	// Not every primitive type with the large counts.
	if (few && n > 65536 && c.prim != PrimitiveType::PointList && c.prim != PrimitiveType::TriangleList && c.prim != PrimitiveType::TriangleStrip)
		throw mc::SkipPath();
	if (c.prim == PrimitiveType::PatchList)
		c.patch = 5;
	unsigned stride = listStride(c.prim, std::max(c.patch, 1U));
	n -= n%stride;
	unsigned lo = minIndexCount(c.prim, c.patch) - 1;
	unsigned m = ctx.choose(6);
	c.ot = ctx.flag() ? IndexType::UInt32 : IndexType::UInt16;
	c.defaultMax = m == 5;
	const std::uint32_t maxima[] = {lo, lo + 1, 254, 255, restartValue(c.ot), 0};
	c.maxIndex = maxima[m];
	// Which vertex each position uses.
	unsigned pattern = ctx.choose(5);
	bool wideIn = pattern == 0 || ctx.flag();
	std::vector<std::uint32_t> idx;
	std::uint32_t vertices = 0;
	for (std::uint32_t i = 0; i < n; ++i)
	{
		std::uint32_t v = 0;
		switch (pattern)
		{
			case 0: v = i; break;                                   // each once
			case 1: v = i/2; break;                                 // each twice in a row
			case 2: v = i%32749; break;                             // again much later
			case 3: v = (i*7919ULL)%300 + (i/4000)%100*300; break;  // scattered within a window
			case 4: v = i%3 + i/7*2; break;                         // a ribbon
		}
		if (!wideIn)
			v %= 65000;
		vertices = std::max(vertices, v + 1);
		idx.push_back(v);
	}
	IndexType t = wideIn ? IndexType::UInt32 : IndexType::UInt16;
	if (isStrip(c.prim))
	{
		unsigned restarts = ctx.choose(4);
		for (std::uint32_t i = 0; i < n; ++i)
			if ((restarts == 1 && i%4 == 3) || (restarts == 2 && i%257 == 200) || (restarts == 3 && (i == 65535 || i == 65536 || i == 65539 || i + 2 == n || i == n/2)))
				idx[i] = restartValue(t);
	}
	c.out.push_back(format(ctx, {{"a", X32, UInt}}));
	InStream s;
	s.fmt = format(ctx, {{"a", X32, UInt}});
	s.setData(vertices);
	for (std::uint32_t i = 0; i < vertices; ++i)
	{
		std::uint32_t v = i*2654435761U;
		std::memcpy(s.vertex(i), &v, 4);
	}
	s.setIndices(t, std::move(idx));
	c.in.push_back(std::move(s));
	return c;
}

// The same elements in several output streams, each with its own format and transform.
inline Case genTwice(mc::Ctx& ctx, const std::vector<PrimitiveType>& prims)
{
	struct F { ElementLayout l; ElementType t; };
	static const std::vector<F> a = {{X8Y8, SNorm}, {X16Y16, UNorm}, {X32Y32, Float}};
	static const std::vector<F> b = {{X8, UNorm}, {X32, Float}};
	static const Transform transforms[] = {Transform::Identity, Transform::Bounds, Transform::UNormToSNorm, Transform::SNormToUNorm};
	Case c;
	c.prim = ctx.pick(prims);
	if (c.prim == PrimitiveType::PatchList)
		c.patch = 3;
	unsigned k = ctx.choose(3);
	c.ot = k == 0 ? IndexType::UInt16 : k == 1 ? IndexType::UInt32 : IndexType::NoIndices;
	c.defaultMax = k == 2;
	c.maxIndex = 2;
	unsigned streams = ctx.range(2, 3);
	for (unsigned s = 0; s < streams; ++s)
	{
		VertexFormat f;
		// a alone, a and b, b and a; b is in the last one at least.
		unsigned shape = s + 1 == streams ? ctx.range(1, 2) : ctx.choose(3);
		auto add = [&](const char* name, const F& form) {
			f.appendElement(name, form.l, form.t);
			Transform t = transforms[name[0] == 'a' ? ctx.choose(4) : (s + 1)%4];
			if (t != Transform::Identity)
				c.transformsAt.push_back({s, static_cast<unsigned>(f.size() - 1), t});
		};
		if (shape == 2)
			add("b", b[s%2]);
		add("a", a[(s + k)%3]);
		if (shape == 1)
			add("b", b[s%2]);
		c.out.push_back(std::move(f));
	}
	unsigned n = 6;
	bool two = ctx.flag();
	InStream s1, s2;
	s1.fmt = two ? format(ctx, {{"a", X32Y32, Float}}) : format(ctx, {{"b", X32, Float}, {"a", X32Y32, Float}});
	s1.setData(4);
	for (unsigned v = 0; v < 4; ++v)
	{
		fill(s1, v, v);
		static const float values[4][2] = {{-0.5f, 1}, {0.25f, -1}, {1, 0.75f}, {0, 0.5f}};
		std::memcpy(s1.vertex(v) + s1.fmt.find("a")->offset, values[v], 8);
	}
	s1.setIndices(IndexType::UInt16, {0, 1, 2, 2, 1, 3});
	c.in.push_back(std::move(s1));
	if (two)
	{
		s2.fmt = format(ctx, {{"b", X32, Float}});
		s2.setData(n);
		for (unsigned v = 0; v < n; ++v)
			fill(s2, v, v/2);
		c.in.push_back(std::move(s2));
	}
	return c;
}

// Patches of every size, with one repeated vertex anywhere.
inline Case genPatch(mc::Ctx& ctx, const std::vector<unsigned>& sizes)
{
	Case c;
	c.prim = PrimitiveType::PatchList;
	c.patch = ctx.pick(sizes);
	c.ot = ctx.flag() ? IndexType::UInt32 : IndexType::UInt16;
	static const unsigned extra[] = {0, 1, 2};
	unsigned m = ctx.choose(5);
	c.maxIndex = m < 3 ? c.patch - 1 + extra[m] : c.patch*2 - (m == 3 ? 2 : 1);
	unsigned n = c.patch*ctx.range(2, 4);
	std::vector<std::uint32_t> idx(n);
	for (unsigned i = 0; i < n; ++i)
		idx[i] = i;
	// The repeat, and what it repeats.
	unsigned last = n - c.patch;
	std::vector<unsigned> at;
	for (unsigned k : {1u, 2u, c.patch - 1, c.patch, c.patch + 1, 2*c.patch - 1, 2*c.patch, last - 1, last, last + 1, n - 1})
		if (k < n && std::find(at.begin(), at.end(), k) == at.end())
			at.push_back(k);
	unsigned k = ctx.choose(static_cast<unsigned>(at.size()) + 1);
	if (k)
	{
		unsigned i = at[k - 1];
		const unsigned back[] = {1, c.patch, i};
		unsigned b = back[ctx.choose(3)];
		if (b > i)
			throw mc::SkipPath();
		idx[i] = i - b;
	}
	bool indexed = ctx.flag();
	c.out.push_back(format(ctx, {{"a", X16, UInt}}));
	InStream s;
	s.fmt = format(ctx, {{"a", X16, UInt}});
	s.setData(n);
	for (unsigned i = 0; i < n; ++i)
	{
		std::uint16_t v = static_cast<std::uint16_t>((indexed ? i : idx[i])*40503U);
		std::memcpy(s.vertex(i), &v, 2);
	}
	if (indexed)
		s.setIndices(IndexType::UInt16, std::move(idx));
	c.in.push_back(std::move(s));
	return c;
}

// Vertices of more than 2^16 bytes.
inline Case genHugeVertex(mc::Ctx& ctx)
{
	Case c;
	c.prim = PrimitiveType::PointList;
	c.ot = ctx.flag() ? IndexType::UInt16 : IndexType::NoIndices;
	c.defaultMax = true;
	const unsigned elements = 2100; // of 32 bytes: offsets up to 67200
	VertexFormat f;
	for (unsigned e = 0; e < elements; ++e)
		f.appendElement("e" + std::to_string(e), ElementLayout::X64Y64Z64W64, Float);
	InStream in;
	in.fmt = f;
	// All output, only those at the end, or those at the end first.
	unsigned out = ctx.choose(3);
	VertexFormat g;
	if (out == 0)
		g = f;
	else
		for (unsigned e : {2099u, 2048u, 2047u, 2049u, 0u, 1u})
			g.appendElement("e" + std::to_string(e), out == 1 ? ElementLayout::X64Y64Z64W64 : X32Y32, Float);
	c.out.push_back(g);
	static const unsigned places[] = {0, 31, 32*1024, 65535, 65536, 65537, 67199, 65504};
	unsigned diff = places[ctx.choose(8)];
	in.setData(3);
	for (unsigned v = 0; v < 3; ++v)
	{
		for (unsigned b = 0; b < elements*4; ++b)
		{
			double d = b*0.5 + 1;
			std::memcpy(in.vertex(v) + b*8, &d, 8);
		}
		if (v == 1)
		{
			double d = -3;
			std::memcpy(in.vertex(v) + diff/8*8, &d, 8);
		}
	}
	c.in.push_back(std::move(in));
	return c;
}

// Every sequence of index values, not up to renaming: which indices are close, in order or in step
// with their place matters as little as which vertices they are.
inline Case genRaw(mc::Ctx& ctx, const std::vector<PrimitiveType>& prims, unsigned maxN, unsigned farN)
{
	Case c;
	c.prim = ctx.pick(prims);
	if (c.prim == PrimitiveType::PatchList)
		c.patch = ctx.range(1, 4);
	unsigned m = ctx.choose(4);
	c.defaultMax = m == 3;
	c.maxIndex = minIndexCount(c.prim, c.patch) - 1 + m;
	// Small values, or those where bytes and words end.
	static const std::uint32_t values[3][4] = {{0, 1, 2, 3}, {0, 255, 256, 65534}, {3, 1, 65535, 65536}};
	unsigned alphabet = ctx.choose(3);
	IndexType t = alphabet == 2 ? IndexType::UInt32 : IndexType::UInt16;
	if (alphabet == 2)
		c.ot = IndexType::UInt32;
	if (m == 3 && ctx.flag())
		c.ot = IndexType::NoIndices;
	unsigned n = pickCount(ctx, c.prim, c.patch, 1, alphabet ? farN : maxN);
	std::vector<std::uint32_t> idx(n);
	for (auto& v : idx)
	{
		unsigned k = ctx.choose(isStrip(c.prim) && c.ot != IndexType::NoIndices ? 5 : 4);
		v = k == 4 ? restartValue(t) : values[alphabet][k];
	}
	c.out.push_back(format(ctx, {{"a", X16, UInt}}));
	InStream s;
	s.fmt = format(ctx, {{"a", X16, UInt}});
	s.setData(alphabet == 0 ? 4 : alphabet == 1 ? 65535 : 65537);
	for (unsigned k = 0; k < 4; ++k)
		fill(s, values[alphabet][k], k + 1);
	s.setIndices(t, std::move(idx));
	c.in.push_back(std::move(s));
	return c;
}

// Two or three streams whose indices step from any values to any others.
inline Case genSteps(mc::Ctx& ctx, const std::vector<PrimitiveType>& prims)
{
	Case c;
	c.prim = ctx.pick(prims);
	if (c.prim == PrimitiveType::PatchList)
		c.patch = 1;
	if (minIndexCount(c.prim, c.patch) > 1 && !isStrip(c.prim))
		throw mc::SkipPath();
	c.ot = IndexType::UInt16;
	c.defaultMax = true;
	unsigned kind = ctx.choose(3);
	unsigned streams = kind == 2 ? 3 : 2;
	static const std::vector<std::uint32_t> alphabets[3] = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13},
		{0, 1, 2, 3, 5, 15, 16, 17, 31, 32, 33, 255, 256, 65534}, {0, 1, 2, 3, 4}};
	const auto& a = alphabets[kind];
	static const char* const names[] = {"a", "b", "c"};
	VertexFormat out;
	for (unsigned k = 0; k < streams; ++k)
	{
		InStream s;
		out.appendElement(names[k], X16, UInt);
		s.fmt = format(ctx, {{names[k], X16, UInt}});
		s.setData(a.back() + 1);
		for (unsigned i = 0; i < a.size(); ++i)
			fill(s, a[i], i + 1 + k*20);
		std::uint32_t first = ctx.pick(a), second = ctx.pick(a);
		s.setIndices(IndexType::UInt16, {first, second, first});
		c.in.push_back(std::move(s));
	}
	c.out.push_back(std::move(out));
	return c;
}

inline std::uint64_t hashCase(const Case& c)
{
	std::uint64_t h = static_cast<std::uint64_t>(c.prim)*131 + c.patch*17 + static_cast<unsigned>(c.ot)*7 + c.defaultMax + c.maxIndex*3ULL;
	for (auto& s : c.in)
	{
		h = mc::hashBytes(s.data.data(), s.data.size(), h);
		h = mc::mix(h ^ (s.far ? s.fmt.stride() : 0));
		h = mc::hashBytes(s.idxBuf.data(), s.idxBuf.size(), h ^ static_cast<unsigned>(s.it));
	}
	return h;
}

// The body shared by most checks: build the case, run the real converter, apply the oracle.
template <typename Gen, typename Oracle>
inline mc::Body body(Gen gen, Oracle oracle)
{
	return [gen, oracle](mc::Ctx& ctx) {
		Case c = gen(ctx);
		ctx.settled();
		Expected x = expect(ctx, c);
		Out o = run(c);
		requireConverted(ctx, c, o);
		if (ctx.verbose())
			ctx.note("%s%s", describe(c).c_str(), describeOut(o).c_str());
		ctx.state(mc::mix(hashCase(c)) ^ hashOut(o));
		if (o.ibs.size() > 1)
		{
			ctx.cover("split");
			ctx.nontrivial();
		}
		bool anyRestart = false;
		for (bool r : x.restart)
			anyRestart |= r;
		if (anyRestart)
		{
			ctx.cover("restart");
			ctx.nontrivial();
			if (o.ibs.size() > 1)
				ctx.cover("restart and split");
		}
		if (c.ot != IndexType::NoIndices && o.vertexCount < x.n)
		{
			ctx.cover("shared vertex");
			ctx.nontrivial();
		}
		oracle(ctx, c, x, o);
	};
}

// Sequences of index values in which their order and distance is free too.
template <typename Oracle>
inline void addRaw(std::vector<mc::Space>& s, const std::vector<PrimitiveType>& prims, bool thorough, Oracle oracle, std::vector<PrimitiveType> stepPrims = {})
{
	unsigned n = thorough ? 7 : 6, f = thorough ? 6 : 4;
	s.push_back({"raw", body([prims, n, f](mc::Ctx& c) { return genRaw(c, prims, n, f); }, oracle), 5, false, 40,
		"every sequence of up to " + std::to_string(n) + " of 4 index values and restarts (not up to renaming), up to " + std::to_string(f) +
		" of 255, 256, 65534.. and 65535, 65536.., 3 smallest maximum indices and the default"});
	if (!stepPrims.empty())
		s.push_back({"steps", body([stepPrims](mc::Ctx& c) { return genSteps(c, stepPrims); }, oracle), 5, false, 40,
			"every step from one combination of indices of two streams (14 values, small and large) or three (5 values) to another and back"});
}

// Sizes beyond what the exhaustive sequences reach.
template <typename Oracle>
inline void addSizes(std::vector<mc::Space>& s, const std::vector<PrimitiveType>& prims, bool thorough, Oracle oracle, bool few = false)
{
	std::vector<std::uint32_t> counts = thorough ? std::vector<std::uint32_t>{257, 1000, 10000, 65540, 70000, 140000, 300000} : std::vector<std::uint32_t>{600, 67000};
	s.push_back({"bulk", body([prims, counts, few](mc::Ctx& c) { return genBulk(c, prims, counts, few); }, oracle), 4, false, 60,
		std::to_string(counts[0]) + " to " + std::to_string(counts.back()) + " positions in 5 patterns x 4 patterns of restarts x 6 maximum indices x index types"});
	std::vector<std::uint32_t> sizes = thorough ? std::vector<std::uint32_t>{65540, 70020, 131080, 200000, 270000, 530000, 1050000} : std::vector<std::uint32_t>{131080, 1048600};
	std::vector<PrimitiveType> some = prims;
	if (few)
		some = {prims.front(), prims.back()};
	s.push_back({"recall", body([some, sizes](mc::Ctx& c) { return genRecall(c, some, sizes); }, oracle), 4, false, 60,
		std::string(thorough ? "65540 to 1050000" : "131080 and 1048600") + " vertices with 12 used again after up to as many others, 32-bit indices up to 65535, 65536, 70001 or unlimited, restarts"});
	bool patches = std::find(prims.begin(), prims.end(), PrimitiveType::PatchList) != prims.end();
	if (patches)
	{
		std::vector<unsigned> sizes;
		for (unsigned k = 5; k <= (thorough ? 130u : 34u); ++k)
			sizes.push_back(k);
		for (unsigned k : {63u, 64u, 65u, 127u, 128u, 129u, 255u, 256u, 257u, 1000u})
			if (k > sizes.back())
				sizes.push_back(k);
		s.push_back({"patches", body([sizes](mc::Ctx& c) { return genPatch(c, sizes); }, oracle), 4, false, 40,
			"2 to 4 patches of 5 to 34 points and " + std::string(thorough ? "all up to 130" : "8 sizes") + " up to 1000, at most one repeat, 5 maximum indices"});
		s.push_back({"huge-vertex", body([](mc::Ctx& c) { return genHugeVertex(c); }, oracle), 3, false, 60,
			"vertices of 67200 bytes that differ at 8 places, all or few elements output"});
	}
}

// More vertices or positions than 24 bits count, checked without the reference's tables. Each vertex
// holds its own number, or nearly all hold the same one and the extremes are next to powers of two.
enum class Vast { Content, Bounds };

inline void vast(mc::Ctx& ctx, const std::vector<PrimitiveType>& prims, const std::vector<std::uint32_t>& counts, Vast what)
{
	std::uint32_t n = ctx.pick(counts);
	PrimitiveType prim = ctx.pick(prims);
	unsigned patch = prim == PrimitiveType::PatchList ? 2 : 0;
	n -= n%6;
	unsigned form = what == Vast::Bounds ? 0 : ctx.choose(3); // no indices, 32-bit, 16-bit
	// In order, or 32-bit indices backwards.
	unsigned supply = what == Vast::Bounds || ctx.thorough() ? ctx.choose(2) : form == 1;
	ctx.settled();
	IndexType ot = form == 0 ? IndexType::NoIndices : form == 1 ? IndexType::UInt32 : IndexType::UInt16;
	auto vertexAt = [&](std::uint32_t i) { return supply ? n - 1 - i : i; };
	std::vector<std::uint32_t> data(n), idx;
	const std::uint32_t places[8] = {(1u << 16) - 1, 1u << 20, (1u << 20) - 1, (1u << 22) + 1, 1u << 23, (1u << 24) - 1, 1u << 24, n - 1};
	if (what == Vast::Bounds)
	{
		std::fill(data.begin(), data.end(), 0x64646464u);
		for (unsigned k = 0; k < 8; ++k)
			if (places[k] < n)
				reinterpret_cast<std::uint8_t*>(&data[vertexAt(places[k])])[k/2] = k%2 ? 200 + static_cast<std::uint8_t>(k) : static_cast<std::uint8_t>(k);
	}
	else
		for (std::uint32_t i = 0; i < n; ++i)
			data[i] = i;
	if (supply)
	{
		idx.resize(n);
		for (std::uint32_t i = 0; i < n; ++i)
			idx[i] = vertexAt(i);
	}
	VertexFormat fmt;
	if (what == Vast::Bounds)
		fmt.appendElement("a", X8Y8Z8W8, UInt);
	else
		fmt.appendElement("a", X32, UInt);
	Converter c(fmt, ot, prim, patch, [](const char*) {});
	if (!c.addVertexStream(fmt, data.data(), n, supply ? IndexType::UInt32 : IndexType::NoIndices, supply ? idx.data() : nullptr, supply ? n : 0))
		ctx.fail("a stream of %u vertices is rejected", n);
	if (!c.convert())
		ctx.fail("%u positions aren't converted", n);
	ctx.step(n);
	ctx.state(mc::mix(n*7ULL + static_cast<unsigned>(prim)*64 + form*2 + supply));
	ctx.nontrivial();
	if (what == Vast::Bounds)
	{
		VertexValue lo, hi;
		if (!c.getVertexElementBounds(lo, hi, "a"))
			ctx.fail("no bounds");
		for (unsigned k = 0; k < 8; ++k)
		{
			double want = places[k] >= n ? 100 : k%2 ? 200 + k : k, got = k%2 ? hi[k/2] : lo[k/2];
			if (got != want)
				ctx.fail("%u positions: the %s of component %u is %g rather than %g, that of position %u", n, k%2 ? "maximum" : "minimum", k/2, got, want, places[k]);
		}
		ctx.trace();
		return;
	}
	if (c.getVertices().size() != 1 || c.getVertices()[0].size() != static_cast<std::size_t>(c.getVertexCount())*4)
		ctx.fail("%u positions: %u vertices of 4 bytes don't fill the output", n, c.getVertexCount());
	const std::uint8_t* out = c.getVertices()[0].data();
	auto check = [&](std::uint32_t i, std::uint64_t v) {
		if (i >= n || v >= c.getVertexCount())
			ctx.fail("%u positions: position %u is drawn with vertex %llu of %u", n, i, static_cast<unsigned long long>(v), c.getVertexCount());
		std::uint32_t got;
		std::memcpy(&got, out + v*4, 4);
		if (got != vertexAt(i))
			ctx.fail("%u positions: position %u is drawn with vertex %llu, which holds %u rather than %u", n, i, static_cast<unsigned long long>(v), got, vertexAt(i));
	};
	if (form == 0)
	{
		for (std::uint32_t i = 0; i < n; ++i)
			check(i, i);
		if (c.getVertexCount() != n)
			ctx.fail("%u vertices for %u positions", c.getVertexCount(), n);
		ctx.trace();
		return;
	}
	std::uint32_t i = 0;
	bool first = true;
	for (const vfc::IndexData& b : c.getIndices())
	{
		// What connects the primitives at both sides of a split is repeated.
		if (!first)
			i -= prim == PrimitiveType::LineStrip ? 1 : 0;
		first = false;
		for (std::uint32_t k = 0; k < b.count; ++k, ++i)
		{
			std::uint32_t v = ot == IndexType::UInt16 ? static_cast<const std::uint16_t*>(b.data)[k] : static_cast<const std::uint32_t*>(b.data)[k];
			if (ot == IndexType::UInt16 && v == 0xFFFF && isStrip(prim))
				ctx.fail("%u positions: a restart after position %u", n, i);
			check(i, static_cast<std::uint64_t>(v) + static_cast<std::uint32_t>(b.baseVertex));
		}
	}
	if (i != n)
		ctx.fail("%u of %u positions are drawn", i, n);
	ctx.trace();
}

inline void addVast(std::vector<mc::Space>& s, const std::vector<PrimitiveType>& prims, bool thorough, Vast what)
{
	std::vector<std::uint32_t> counts = thorough ? std::vector<std::uint32_t>{(1u << 20) + 20, (1u << 22) + 20, (1u << 24) + 20, (1u << 25) + 20} : std::vector<std::uint32_t>{(1u << 24) + 20};
	s.push_back({"vast", [prims, counts, what](mc::Ctx& c) { vast(c, prims, counts, what); }, 4, false, 300,
		std::string(thorough ? "4 numbers of positions from 2^20 to 2^25" : "over 2^24 positions") + ", in order or with 32-bit indices, " +
		(what == Vast::Bounds ? "8 extremes next to powers of two" : "all different, every output index type")});
}

} // namespace conv
