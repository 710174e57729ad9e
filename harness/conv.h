// Driving the real Converter and checking what it did against a reference model of the conversion.
#pragma once
#include "explore.h"
#include "vfcref.h"
#include <VFC/Converter.h>
#include <VFC/IndexData.h>
#include "far.h"
#include <array>
#include <memory>
#include <unordered_map>
#include <unordered_set>

namespace conv
{
using namespace ref;
using vfc::Converter;
using vfc::VertexFormat;
using vfc::VertexValue;
using Transform = vfc::Converter::Transform;

// Exactly sized heap array so AddressSanitizer sees every access outside of it.
class Buf
{
public:
	Buf() = default;
	explicit Buf(std::size_t n) : m_data(new std::uint8_t[n]()), m_size(n) {}
	Buf(const Buf& o) : Buf(o.m_size)
	{
		if (m_size)
			std::memcpy(m_data.get(), o.m_data.get(), m_size);
	}
	Buf(Buf&&) = default;
	Buf& operator=(Buf o)
	{
		m_data = std::move(o.m_data);
		m_size = o.m_size;
		return *this;
	}
	std::uint8_t* data() { return m_data.get(); }
	const std::uint8_t* data() const { return m_data.get(); }
	std::size_t size() const { return m_size; }
	// The contents change places, the addresses don't.
	void swapBytes(Buf& o) { std::swap_ranges(data(), data() + m_size, o.data()); }
private:
	std::unique_ptr<std::uint8_t[]> m_data;
	std::size_t m_size = 0;
};

struct InStream
{
	VertexFormat fmt;
	std::uint32_t count = 0;
	Buf data;
	IndexType it = IndexType::NoIndices;
	std::vector<std::uint32_t> idx; // logical values
	Buf idxBuf;

	// Arrays shared with another stream: their contents are those of data and idxBuf.
	const void* aliasData = nullptr;
	const void* aliasIdx = nullptr;

	// Instead of data, memory that only exists where it's touched.
	std::shared_ptr<std::uint8_t> far;

	const void* dataPtr() const { return aliasData ? aliasData : far ? far.get() : data.data(); }
	const void* idxPtr() const { return aliasIdx ? aliasIdx : idxBuf.data(); }
	std::uint32_t positions() const
	{
		return it == IndexType::NoIndices ? count : static_cast<std::uint32_t>(idx.size());
	}
	void setData(std::uint32_t n)
	{
		count = n;
		data = Buf(static_cast<std::size_t>(n)*fmt.stride());
	}
	void setIndices(IndexType type, std::vector<std::uint32_t> values)
	{
		it = type;
		idx = std::move(values);
		unsigned sz = type == IndexType::UInt16 ? 2 : type == IndexType::UInt32 ? 4 : 0;
		idxBuf = Buf(idx.size()*sz);
		for (std::size_t i = 0; i < idx.size() && sz; ++i)
		{
			if (sz == 2)
			{
				std::uint16_t v = static_cast<std::uint16_t>(idx[i]);
				idx[i] = v;
				std::memcpy(idxBuf.data() + i*2, &v, 2);
			}
			else
				std::memcpy(idxBuf.data() + i*4, &idx[i], 4);
		}
	}
	bool setFar(std::uint32_t n)
	{
		count = n;
		far = mc::farMemory(static_cast<std::size_t>(n)*fmt.stride());
		return far != nullptr;
	}
	std::uint8_t* vertex(std::uint32_t v) { return (far ? far.get() : data.data()) + static_cast<std::size_t>(v)*fmt.stride(); }
	const std::uint8_t* vertex(std::uint32_t v) const
	{
		return (far ? far.get() : data.data()) + static_cast<std::size_t>(v)*fmt.stride();
	}
};

struct Case
{
	std::vector<VertexFormat> out;
	IndexType ot = IndexType::UInt16;
	PrimitiveType prim = PrimitiveType::TriangleList;
	unsigned patch = 0;
	bool defaultMax = false;
	std::uint32_t maxIndex = 0;
	std::vector<InStream> in;
	std::vector<std::pair<std::string, Transform>> transforms;
	struct At { unsigned stream, element; Transform transform; };
	std::vector<At> transformsAt; // set by position

	std::uint32_t limit() const
	{
		std::uint32_t m = defaultMax ? (ot == IndexType::UInt16 ? 0xFFFEu : 0xFFFFFFFEu) : maxIndex;
		if (isStrip(prim) && m == restartValue(ot))
			--m;
		return m;
	}
};

struct IndexBuffer
{
	IndexType type;
	std::uint32_t count;
	std::int32_t base;
	std::vector<std::uint32_t> idx;
};

struct Bounds { double mn[4], mx[4]; };

struct Out
{
	bool valid = false, added = true, ok = false;
	std::vector<std::vector<std::uint8_t>> vertices;
	std::vector<IndexBuffer> ibs;
	std::vector<std::vector<Bounds>> bounds;
	std::uint32_t vertexCount = 0;
	bool namedBounds = true; // bounds by name are the bounds by position
	std::vector<std::string> errors;
};

inline std::string describe(const Case& c)
{
	std::string s = std::string("prim=") + ref::name(c.prim) + " patch=" + std::to_string(c.patch) + " outIndex=" +
		(c.ot == IndexType::NoIndices ? "none" : c.ot == IndexType::UInt16 ? "u16" : "u32") + " max=" +
		(c.defaultMax ? "default" : std::to_string(c.maxIndex)) + "\n";
	for (auto& f : c.out)
	{
		s += "  out stream:";
		for (auto& e : f)
			s += std::string(" ") + e.name + ":" + ref::name(e.layout) + ":" + ref::name(e.type);
		s += "\n";
	}
	for (auto& st : c.in)
	{
		s += "  in stream (" + std::to_string(st.count) + " vertices):";
		for (auto& e : st.fmt)
			s += std::string(" ") + e.name + ":" + ref::name(e.layout) + ":" + ref::name(e.type);
		s += st.it == IndexType::NoIndices ? " unindexed" : st.it == IndexType::UInt16 ? " u16 [" : " u32 [";
		for (std::size_t i = 0; i < st.idx.size() && i < 60; ++i)
		{
			bool r = st.idx[i] == restartValue(st.it);
			s += (i ? " " : "") + (r ? std::string("R") : std::to_string(st.idx[i]));
		}
		if (st.it != IndexType::NoIndices)
			s += st.idx.size() > 60 ? " ...]" : "]";
		s += "\n";
	}
	for (auto& t : c.transformsAt)
		s += "  transform " + std::to_string(t.stream) + "/" + std::to_string(t.element) + "=" + std::to_string(static_cast<int>(t.transform)) + "\n";
	for (auto& t : c.transforms)
		s += "  transform " + t.first + "=" + std::to_string(static_cast<int>(t.second)) + "\n";
	return s;
}

// A C string that is always at the same address, whatever it holds.
inline const char* sameBuffer(const std::string& name)
{
	static thread_local std::vector<char> buffer(200000);
	if (name.size() >= buffer.size())
		return name.c_str();
	std::memcpy(buffer.data(), name.c_str(), name.size() + 1);
	return buffer.data();
}

inline void snapshot(const Converter& cv, Out& o)
{
	o.vertices = cv.getVertices();
	o.vertexCount = cv.getVertexCount();
	o.ibs.clear();
	for (const vfc::IndexData& d : cv.getIndices())
	{
		IndexBuffer b{d.type, d.count, d.baseVertex, {}};
		const std::uint8_t* p = static_cast<const std::uint8_t*>(d.data);
		for (std::uint32_t i = 0; i < d.count; ++i)
		{
			if (d.type == IndexType::UInt16)
			{
				std::uint16_t v;
				std::memcpy(&v, p + i*2, 2);
				b.idx.push_back(v);
			}
			else
			{
				std::uint32_t v;
				std::memcpy(&v, p + static_cast<std::size_t>(i)*4, 4);
				b.idx.push_back(v);
			}
		}
		o.ibs.push_back(std::move(b));
	}
	o.bounds.clear();
	for (std::size_t s = 0; s < cv.getVertexFormat().size(); ++s)
	{
		std::vector<Bounds> bs;
		for (std::size_t e = 0; e < cv.getVertexFormat()[s].size(); ++e)
		{
			VertexValue mn, mx;
			cv.getVertexElementBounds(mn, mx, s, e);
			Bounds b;
			for (unsigned i = 0; i < 4; ++i)
			{
				b.mn[i] = mn[i];
				b.mx[i] = mx[i];
			}
			bs.push_back(b);
			VertexValue nmn, nmx;
			if (!cv.getVertexElementBounds(nmn, nmx, cv.getVertexFormat()[s][e].name))
				o.namedBounds = false;
			for (unsigned i = 0; i < 4; ++i)
				if (std::memcmp(&nmn[i], &b.mn[i], 8) != 0 || std::memcmp(&nmx[i], &b.mx[i], 8) != 0)
					o.namedBounds = false;
			const std::string& name = cv.getVertexFormat()[s][e].name;
			if (name.find('\0') != std::string::npos)
				continue;
			if (!cv.getVertexElementBounds(nmn, nmx, sameBuffer(name)))
				o.namedBounds = false;
			for (unsigned i = 0; i < 4; ++i)
				if (std::memcmp(&nmn[i], &b.mn[i], 8) != 0 || std::memcmp(&nmx[i], &b.mx[i], 8) != 0)
					o.namedBounds = false;
		}
		o.bounds.push_back(std::move(bs));
	}
}

inline std::unique_ptr<Converter> makeConverter(const Case& c, std::vector<std::string>* errors)
{
	auto err = [errors](const char* m) { if (errors) errors->push_back(m ? m : ""); };
	if (c.defaultMax)
		return std::unique_ptr<Converter>(new Converter(c.out, c.ot, c.prim, c.patch, err));
	return std::unique_ptr<Converter>(new Converter(c.out, c.ot, c.prim, c.patch, c.maxIndex, err));
}

inline bool addStream(Converter& cv, const InStream& s)
{
	if (s.it == IndexType::NoIndices)
		return cv.addVertexStream(s.fmt, s.dataPtr(), s.count);
	return cv.addVertexStream(s.fmt, s.dataPtr(), s.count, s.it, s.idxPtr(), static_cast<std::uint32_t>(s.idx.size()));
}

inline Out run(const Case& c)
{
	Out o;
	auto cv = makeConverter(c, &o.errors);
	o.valid = cv->isValid();
	if (!o.valid)
		return o;
	for (const InStream& s : c.in)
	{
		if (!addStream(*cv, s))
		{
			o.added = false;
			return o;
		}
	}
	for (auto& t : c.transforms)
		cv->setElementTransform(t.first, t.second);
	for (auto& t : c.transformsAt)
		cv->setElementTransform(t.stream, t.element, t.transform);
	o.ok = cv->convert();
	if (o.ok)
	{
		// The arrays are the caller's again: what becomes of them doesn't matter any more.
		std::vector<std::pair<Buf*, Buf>> kept;
		for (const InStream& s : c.in)
			for (const Buf* b : {&s.data, &s.idxBuf})
				if (b->size() > 0)
				{
					Buf* m = const_cast<Buf*>(b);
					kept.emplace_back(m, Buf(b->size()));
					std::memset(kept.back().second.data(), 0xA5, b->size());
					m->swapBytes(kept.back().second);
				}
		snapshot(*cv, o);
		for (auto& k : kept)
			k.first->swapBytes(k.second);
	}
	return o;
}

// ---- Reference model -------------------------------------------------------------------------

struct Expected
{
	std::uint32_t n = 0;
	std::vector<bool> restart;                    // per position
	// value[pos][element in output order][component]
	struct Values
	{
		std::vector<std::array<double, 4>> v;
		std::size_t elements = 0;
		std::array<double, 4>* operator[](std::size_t i) { return v.data() + i*elements; }
		const std::array<double, 4>* operator[](std::size_t i) const { return v.data() + i*elements; }
	} value;
	std::vector<Transform> transform;             // per output element (flat)
	std::vector<bool> rounded;                    // decoding the source rounds (normalized types)
	std::vector<std::pair<unsigned, unsigned>> elem; // flat -> (stream, element)
};

struct Source { const InStream* s = nullptr; const vfc::VertexElement* e = nullptr; };

inline Source findSource(const Case& c, const std::string& name)
{
	for (auto& st : c.in)
		for (auto& e : st.fmt)
			if (e.name == name)
				return Source{&st, &e};
	return Source();
}

inline bool relevant(const Case& c, const InStream& s)
{
	for (auto& f : c.out)
		for (auto& e : f)
			for (auto& i : s.fmt)
				if (i.name == e.name)
					return true;
	return false;
}

inline Expected expect(mc::Ctx& ctx, const Case& c)
{
	Expected x;
	for (auto& st : c.in)
		if (relevant(c, st))
			x.n = st.positions();
	x.restart.assign(x.n, false);
	if (isStrip(c.prim))
	{
		for (auto& st : c.in)
		{
			if (!relevant(c, st) || st.it == IndexType::NoIndices)
				continue;
			for (std::uint32_t i = 0; i < x.n; ++i)
				if (st.idx[i] == restartValue(st.it))
					x.restart[i] = true;
		}
	}
	for (unsigned s = 0; s < c.out.size(); ++s)
		for (unsigned e = 0; e < c.out[s].size(); ++e)
			x.elem.emplace_back(s, e);
	x.transform.assign(x.elem.size(), Transform::Identity);
	for (auto& t : c.transforms)
		for (std::size_t k = 0; k < x.elem.size(); ++k)
			if (c.out[x.elem[k].first][x.elem[k].second].name == t.first)
				x.transform[k] = t.second;
	for (auto& t : c.transformsAt)
		for (std::size_t k = 0; k < x.elem.size(); ++k)
			if (x.elem[k] == std::make_pair(t.stream, t.element))
				x.transform[k] = t.transform;
	x.value.elements = x.elem.size();
	x.value.v.resize(static_cast<std::size_t>(x.n)*x.elem.size());
	std::vector<Source> src;
	for (auto& se : x.elem)
	{
		src.push_back(findSource(c, c.out[se.first][se.second].name));
		if (!src.back().s)
			ctx.fail("harness: element without source");
		x.rounded.push_back(src.back().e->type == ElementType::UNorm || src.back().e->type == ElementType::SNorm);
	}
	for (std::uint32_t i = 0; i < x.n; ++i)
	{
		if (x.restart[i])
			continue;
		for (std::size_t k = 0; k < x.elem.size(); ++k)
		{
			const InStream& st = *src[k].s;
			std::uint32_t v = st.it == IndexType::NoIndices ? i : st.idx[i];
			if (v >= st.count)
				ctx.fail("harness: index out of range");
			ref::decode(st.vertex(v) + src[k].e->offset, src[k].e->layout, src[k].e->type, x.value[i][k].data());
		}
		ctx.step();
	}
	return x;
}

inline double applyTransform(Transform t, double v)
{
	switch (t)
	{
		case Transform::UNormToSNorm: return v*2 - 1;
		case Transform::SNormToUNorm: return v*0.5 + 0.5;
		default: return v;
	}
}

// Does output vertex v hold the expected values of position i? Elements with a Bounds transform are
// left to their own check.
inline bool vertexMatches(const Case& c, const Expected& x, const Out& o, std::uint32_t i, std::uint32_t v, std::string* why)
{
	for (std::size_t k = 0; k < x.elem.size(); ++k)
	{
		const VertexFormat& f = c.out[x.elem[k].first];
		const vfc::VertexElement& e = f[x.elem[k].second];
		if (x.transform[k] == Transform::Bounds &&
			(e.type == ElementType::UNorm || e.type == ElementType::SNorm))
		{
			continue;
		}
		const std::uint8_t* p = o.vertices[x.elem[k].first].data() + static_cast<std::size_t>(v)*f.stride() + e.offset;
		unsigned shared = 0;
		double vals[4];
		bool rounded = x.rounded[k] || x.transform[k] == Transform::UNormToSNorm || x.transform[k] == Transform::SNormToUNorm;
		for (unsigned m = 0; m < 4; ++m)
			vals[m] = applyTransform(x.transform[k], x.value[i][k][m]);
		if (isShared(e.layout))
		{
			std::uint32_t w;
			std::memcpy(&w, p, 4);
			shared = w >> 27;
		}
		for (unsigned m = 0; m < info(e.layout).comps; ++m)
		{
			std::uint64_t raw = getRaw(p, e.layout, m);
			double eps = rounded ? 1e-15*(1 + std::fabs(vals[m])) : 0;
			if (!ref::encodedOk(e.layout, e.type, m, vals[m], raw, shared, eps))
			{
				if (why)
				{
					char b[400];
					snprintf(b, sizeof(b), "position %u element '%s' component %u: expected %.17g, output vertex %u "
						"holds %.17g (raw 0x%llx)", i, e.name.c_str(), m, vals[m], v,
						decodeRaw(e.layout, e.type, m, raw, shared), (unsigned long long)raw);
					*why = b;
				}
				return false;
			}
		}
	}
	return true;
}

inline void requireConverted(mc::Ctx& ctx, const Case& c, const Out& o)
{
	if (!o.valid || !o.added || !o.ok)
	{
		ctx.fail("a valid conversion was rejected (valid=%d added=%d converted=%d): %s\n%s", o.valid, o.added,
			o.ok, o.errors.empty() ? "no error" : o.errors[0].c_str(), describe(c).c_str());
	}
}

inline void checkSizes(mc::Ctx& ctx, const Case& c, const Out& o)
{
	if (o.vertices.size() != c.out.size())
		ctx.fail("%zu output vertex streams instead of %zu\n%s", o.vertices.size(), c.out.size(), describe(c).c_str());
	for (std::size_t s = 0; s < c.out.size(); ++s)
		if (o.vertices[s].size() != static_cast<std::size_t>(o.vertexCount)*c.out[s].stride())
			ctx.fail("output vertex stream %zu holds %zu bytes for %u vertices of %u bytes\n%s", s, o.vertices[s].size(),
				o.vertexCount, c.out[s].stride(), describe(c).c_str());
}

inline std::string describeOut(const Out& o)
{
	std::string s = "  output: " + std::to_string(o.vertexCount) + " vertices;";
	for (auto& b : o.ibs)
	{
		s += " buffer base=" + std::to_string(b.base) + " [";
		for (std::size_t i = 0; i < b.idx.size() && i < 40; ++i)
			s += (i ? " " : "") + std::to_string(b.idx[i]);
		s += b.idx.size() > 40 ? " ...]" : "]";
	}
	return s + "\n";
}

// C01: content and order for lists and unindexed output.
inline void oracleContent(mc::Ctx& ctx, const Case& c, const Expected& x, const Out& o)
{
	checkSizes(ctx, c, o);
	std::string why;
	if (c.ot == IndexType::NoIndices)
	{
		if (o.vertexCount != x.n)
			ctx.fail("%u output vertices for %u positions\n%s", o.vertexCount, x.n, describe(c).c_str());
		for (std::uint32_t i = 0; i < x.n; ++i)
			if (!vertexMatches(c, x, o, i, i, &why))
				ctx.fail("%s\n%s", why.c_str(), describe(c).c_str());
		ctx.trace();
		return;
	}
	std::uint32_t i = 0;
	for (auto& b : o.ibs)
	{
		for (std::uint32_t v : b.idx)
		{
			if (i >= x.n)
				ctx.fail("more than %u output indices\n%s%s", x.n, describe(c).c_str(), describeOut(o).c_str());
			std::uint64_t vi = static_cast<std::uint64_t>(v) + static_cast<std::uint64_t>(static_cast<std::int64_t>(b.base));
			if (vi >= o.vertexCount)
				ctx.fail("output index %u (base %d) is out of range\n%s%s", v, b.base, describe(c).c_str(), describeOut(o).c_str());
			if (!vertexMatches(c, x, o, i, static_cast<std::uint32_t>(vi), &why))
				ctx.fail("%s\n%s%s", why.c_str(), describe(c).c_str(), describeOut(o).c_str());
			++i;
		}
	}
	if (i != x.n)
		ctx.fail("%u output indices for %u positions\n%s%s", i, x.n, describe(c).c_str(), describeOut(o).c_str());
	ctx.trace();
}

struct Prim { std::uint32_t v[3]; unsigned k; unsigned strip; unsigned buffer; };

// Splits a strip/fan sequence (isRestart(i) tells restarts, n entries) into primitives.
template <typename R>
inline void decodePrims(PrimitiveType prim, std::uint32_t n, R isRestart, unsigned buffer, std::vector<Prim>& out)
{
	std::uint32_t start = 0;
	unsigned strip = 0;
	for (std::uint32_t i = 0; i < n; ++i)
	{
		if (isRestart(i))
		{
			start = i + 1;
			++strip;
			continue;
		}
		std::uint32_t have = i - start + 1;
		if (prim == PrimitiveType::LineStrip)
		{
			if (have >= 2)
				out.push_back(Prim{{i - 1, i, 0}, have - 2, strip, buffer});
		}
		else if (have >= 3)
		{
			unsigned k = have - 3;
			if (prim == PrimitiveType::TriangleFan)
				out.push_back(Prim{{start, i - 1, i}, k, strip, buffer});
			else if (k & 1)
				out.push_back(Prim{{i - 1, i - 2, i}, k, strip, buffer});
			else
				out.push_back(Prim{{i - 2, i - 1, i}, k, strip, buffer});
		}
	}
}

// C02: same primitives, corners and winding.
inline void oraclePrims(mc::Ctx& ctx, const Case& c, const Expected& x, const Out& o)
{
	checkSizes(ctx, c, o);
	std::vector<Prim> want, got;
	decodePrims(c.prim, x.n, [&](std::uint32_t i) { return x.restart[i]; }, 0, want);
	if (c.ot == IndexType::NoIndices)
	{
		if (o.vertexCount != x.n)
			ctx.fail("%u output vertices for %u positions\n%s", o.vertexCount, x.n, describe(c).c_str());
		decodePrims(c.prim, x.n, [](std::uint32_t) { return false; }, 0, got);
	}
	else
	{
		unsigned b = 0;
		for (auto& ib : o.ibs)
		{
			std::size_t before = got.size();
			decodePrims(c.prim, static_cast<std::uint32_t>(ib.idx.size()), [&](std::uint32_t i) {
				return ib.idx[i] == restartValue(c.ot); }, b, got);
			for (std::size_t p = before; p < got.size(); ++p)
				for (unsigned m = 0; m < 3; ++m)
				{
					std::uint64_t vi = static_cast<std::uint64_t>(ib.idx[got[p].v[m]]) + static_cast<std::uint64_t>(static_cast<std::int64_t>(ib.base));
					if ((m < 2 || c.prim != PrimitiveType::LineStrip))
					{
						if (vi >= o.vertexCount)
							ctx.fail("output index out of range\n%s%s", describe(c).c_str(), describeOut(o).c_str());
						got[p].v[m] = static_cast<std::uint32_t>(vi);
					}
				}
			++b;
		}
	}
	if (want.size() != got.size())
		ctx.fail("%zu primitives in the output, %zu in the input\n%s%s", got.size(), want.size(), describe(c).c_str(), describeOut(o).c_str());
	unsigned corners = c.prim == PrimitiveType::LineStrip ? 2 : 3;
	std::string why;
	bool knownFlip = false;
	for (std::size_t p = 0; p < want.size(); ++p)
	{
		const Prim& w = want[p];
		Prim q = got[p];
		// Listed finding: a triangle strip continued in a new buffer after an odd number of its
		// indices has every triangle of that continuation wound the other way.
		if (c.prim == PrimitiveType::TriangleStrip && q.buffer > 0 && q.strip == 0 && w.k > q.k &&
			((w.k - q.k) & 1))
		{
			std::swap(q.v[0], q.v[1]);
			knownFlip = true;
		}
		for (unsigned m = 0; m < corners; ++m)
			if (!vertexMatches(c, x, o, w.v[m], q.v[m], &why))
				ctx.fail("primitive %zu corner %u: %s\n%s%s", p, m, why.c_str(), describe(c).c_str(), describeOut(o).c_str());
	}
	if (knownFlip)
		ctx.known("triangle-strip-odd-split-winding", [&]() { return std::string() + "a triangle strip split after an odd number of indices continues "
			"with the opposite winding: " + describe(c) + describeOut(o); });
	ctx.trace();
}

// C03: every buffer is drawable.
inline void oracleIndices(mc::Ctx& ctx, const Case& c, const Expected&, const Out& o)
{
	checkSizes(ctx, c, o);
	std::string d;
	auto bad = [&](const char* what) {
		ctx.fail("%s\n%s%s", what, describe(c).c_str(), describeOut(o).c_str());
	};
	if (c.ot == IndexType::NoIndices)
	{
		if (!o.ibs.empty())
			bad("index buffers without output indices");
		ctx.trace();
		return;
	}
	if (o.ibs.empty())
		bad("no index buffers");
	std::uint32_t limit = c.defaultMax ? restartValue(c.ot) - 1 : c.maxIndex;
	unsigned stride = listStride(c.prim, c.patch);
	for (std::size_t b = 0; b < o.ibs.size(); ++b)
	{
		const IndexBuffer& ib = o.ibs[b];
		if (ib.type != c.ot)
			bad("wrong index type");
		if (b == 0 && ib.base != 0)
			bad("first base vertex isn't 0");
		if (ib.base < 0 || (b > 0 && ib.base < o.ibs[b - 1].base))
			bad("base vertices decrease");
		std::uint32_t end = b + 1 < o.ibs.size() ? static_cast<std::uint32_t>(o.ibs[b + 1].base) : o.vertexCount;
		if (ib.idx.size()%stride != 0)
			bad("index buffer with a partial primitive");
		for (std::uint32_t v : ib.idx)
		{
			if (isStrip(c.prim) && v == restartValue(c.ot))
				continue;
			if (v > limit)
				bad("index above the maximum index value");
			if (static_cast<std::uint64_t>(v) + static_cast<std::uint32_t>(ib.base) >= end)
				bad("index outside its buffer's vertices");
		}
	}
	ctx.trace();
}

// The restarts of the output are restarts of the input (C03 part that needs the model): a vertex is
// never mistaken for a restart. Counted per buffer order: total restarts can't exceed the input's.
inline void oracleRestarts(mc::Ctx& ctx, const Case& c, const Expected& x, const Out& o)
{
	if (c.ot == IndexType::NoIndices || !isStrip(c.prim))
		return;
	std::size_t in = 0, out = 0;
	for (bool r : x.restart)
		in += r;
	for (auto& b : o.ibs)
		for (std::uint32_t v : b.idx)
			out += v == restartValue(c.ot);
	if (out > in)
		ctx.fail("%zu restarts in the output, %zu in the input\n%s%s", out, in, describe(c).c_str(), describeOut(o).c_str());
}

// C04: sharing, no waste, no early split.
inline void oracleDedup(mc::Ctx& ctx, const Case& c, const Expected&, const Out& o)
{
	checkSizes(ctx, c, o);
	if (c.ot == IndexType::NoIndices)
		return;
	std::vector<std::string> bytes(o.vertexCount);
	for (std::uint32_t v = 0; v < o.vertexCount; ++v)
		for (std::size_t s = 0; s < c.out.size(); ++s)
			bytes[v].append(reinterpret_cast<const char*>(o.vertices[s].data()) + static_cast<std::size_t>(v)*c.out[s].stride(), c.out[s].stride());
	std::unordered_set<std::string> used;
	auto bad = [&](const char* what) {
		ctx.fail("%s\n%s%s", what, describe(c).c_str(), describeOut(o).c_str());
	};
	unsigned stride = listStride(c.prim, c.patch);
	for (std::size_t b = 0; b < o.ibs.size(); ++b)
	{
		const IndexBuffer& ib = o.ibs[b];
		std::uint32_t base = static_cast<std::uint32_t>(ib.base);
		std::uint32_t end = b + 1 < o.ibs.size() ? static_cast<std::uint32_t>(o.ibs[b + 1].base) : o.vertexCount;
		std::unordered_map<std::string, std::uint32_t> seen;
		for (std::uint32_t v : ib.idx)
		{
			if (isStrip(c.prim) && v == restartValue(c.ot))
				continue;
			if (static_cast<std::uint64_t>(v) + base >= o.vertexCount)
				bad("index out of range");
			const std::string& k = bytes[v + base];
			used.insert(k);
			auto ins = seen.emplace(k, v);
			if (ins.first->second != v)
				bad("identical vertices with different indices in a buffer");
		}
		std::unordered_set<std::string> stored;
		for (std::uint32_t v = base; v < end && v < o.vertexCount; ++v)
			if (!stored.insert(bytes[v]).second)
				bad("a buffer stores the same vertex twice");
		if (b + 1 < o.ibs.size() && static_cast<std::uint64_t>(end - base) + stride <= static_cast<std::uint64_t>(c.limit()) + 1)
			bad("a new index buffer was started while the next primitive still fits");
		if (b > 0 && ib.idx.empty())
			bad("empty additional index buffer");
	}
	for (auto& k : bytes)
		if (!used.count(k))
			bad("a stored vertex isn't used by any index");
	ctx.trace();
}

// Positions whose vertices collapse must share; with the model: equal expected values for all
// elements implies equal indices within a buffer (lists only, where positions map one to one).
inline void oracleDedupModel(mc::Ctx& ctx, const Case& c, const Expected& x, const Out& o)
{
	if (c.ot == IndexType::NoIndices || isStrip(c.prim))
		return;
	std::uint32_t i = 0;
	for (auto& b : o.ibs)
	{
		std::map<std::vector<std::array<double, 4>>, std::uint32_t> seen;
		std::unordered_map<std::uint32_t, std::pair<std::uint32_t, bool>> shared;
		for (std::uint32_t v : b.idx)
		{
			if (i >= x.n)
				return;
			auto ins = seen.emplace(std::vector<std::array<double, 4>>(x.value[i], x.value[i] + x.elem.size()), v);
			if (ins.first->second != v)
				ctx.fail("equal input vertices have different indices in a buffer\n%s%s", describe(c).c_str(), describeOut(o).c_str());
			// Distinct vertices that share an index: the stored one can only be right for one of them.
			std::uint64_t at = static_cast<std::uint64_t>(v) + static_cast<std::uint32_t>(b.base);
			bool right = at < o.vertexCount && vertexMatches(c, x, o, i, static_cast<std::uint32_t>(at), nullptr);
			auto first = shared.emplace(v, std::make_pair(i, right));
			if (first.first->second.second != right)
				ctx.fail("positions %u and %u have different vertices but share index %u\n%s%s", first.first->second.first, i, v,
					describe(c).c_str(), describeOut(o).c_str());
			++i;
		}
	}
}

inline bool sameValue(ElementType t, double a, double b)
{
	if (a == b)
		return true;
	if (t == ElementType::UNorm || t == ElementType::SNorm)
		return std::fabs(a - b) <= 1e-12*std::max(1.0, std::fabs(b));
	return false;
}

// C05: exact bounds over the drawn positions.
inline void oracleBounds(mc::Ctx& ctx, const Case& c, const Expected& x, const Out& o)
{
	if (!o.namedBounds)
		ctx.fail("the bounds by name differ from the bounds by position\n%s", describe(c).c_str());
	for (std::size_t k = 0; k < x.elem.size(); ++k)
	{
		const vfc::VertexElement& oe = c.out[x.elem[k].first][x.elem[k].second];
		Source src = findSource(c, oe.name);
		const Bounds& b = o.bounds[x.elem[k].first][x.elem[k].second];
		for (unsigned m = 0; m < 4; ++m)
		{
			bool any = false;
			double mn = 0, mx = 0;
			std::vector<double> maybe;
			for (std::uint32_t i = 0; i < x.n; ++i)
			{
				if (x.restart[i])
				{
					// Another stream may still supply a value at a position that isn't drawn.
					std::uint32_t v = src.s->it == IndexType::NoIndices ? i : src.s->idx[i];
					if (v < src.s->count)
					{
						double d[4];
						ref::decode(src.s->vertex(v) + src.e->offset, src.e->layout, src.e->type, d);
						maybe.push_back(d[m]);
					}
					continue;
				}
				double v = x.value[i][k][m];
				if (!any || v < mn) mn = v;
				if (!any || v > mx) mx = v;
				any = true;
			}
			if (!any)
				continue;
			auto ok = [&](double got, double want, bool low) {
				if (sameValue(src.e->type, got, want))
					return true;
				for (double q : maybe)
					if ((low ? q < want : q > want) && sameValue(src.e->type, got, q))
						return true;
				return false;
			};
			if (!ok(b.mn[m], mn, true) || !ok(b.mx[m], mx, false))
				ctx.fail("bounds of '%s' component %u are [%.17g, %.17g], expected [%.17g, %.17g]\n%s", oe.name.c_str(), m,
					b.mn[m], b.mx[m], mn, mx, describe(c).c_str());
		}
	}
	ctx.trace();
}

// C06: interpolating between the reported bounds reconstructs the input.
inline void checkBoundsVertex(mc::Ctx& ctx, const Case& c, const Expected& x, const Out& o, std::uint32_t i, std::uint32_t v)
{
	for (std::size_t k = 0; k < x.elem.size(); ++k)
	{
		const VertexFormat& f = c.out[x.elem[k].first];
		const vfc::VertexElement& e = f[x.elem[k].second];
		if (x.transform[k] != Transform::Bounds || (e.type != ElementType::UNorm && e.type != ElementType::SNorm))
			continue;
		const Bounds& b = o.bounds[x.elem[k].first][x.elem[k].second];
		const std::uint8_t* p = o.vertices[x.elem[k].first].data() + static_cast<std::size_t>(v)*f.stride() + e.offset;
		double vals[4];
		ref::decode(p, e.layout, e.type, vals);
		for (unsigned m = 0; m < info(e.layout).comps; ++m)
		{
			double t = e.type == ElementType::SNorm ? (vals[m] + 1)*0.5 : vals[m];
			double range = b.mx[m] - b.mn[m], want = x.value[i][k][m];
			if (range == 0 || !std::isfinite(range))
				continue;
			// Compared as fractions of the range, where the reconstruction itself doesn't round.
			double steps = p2((int)field(e.layout, m).bits) - 1;
			long double frac = (static_cast<long double>(want) - b.mn[m])/(static_cast<long double>(b.mx[m]) - b.mn[m]);
			double tol = 0.5/steps*(1 + 1e-6) + 1e-15;
			if (!(std::fabs(static_cast<double>(t - frac)) <= tol))
				ctx.fail("position %u '%s' component %u: %.17g reconstructs as %.17g from bounds [%.17g, %.17g] (%.17g of the range, not %.17g)\n%s",
					i, e.name.c_str(), m, want, b.mn[m] + t*range, b.mn[m], b.mx[m], t, static_cast<double>(frac), describe(c).c_str());
			if (want == b.mn[m] && t != 0)
				ctx.fail("the minimum doesn't map to the lower end\n%s", describe(c).c_str());
			if (want == b.mx[m] && t != 1)
				ctx.fail("the maximum doesn't map to the upper end\n%s", describe(c).c_str());
		}
	}
}

inline void oracleBoundsTransform(mc::Ctx& ctx, const Case& c, const Expected& x, const Out& o)
{
	if (c.ot == IndexType::NoIndices)
	{
		for (std::uint32_t i = 0; i < x.n && i < o.vertexCount; ++i)
			checkBoundsVertex(ctx, c, x, o, i, i);
	}
	else if (!isStrip(c.prim))
	{
		std::uint32_t i = 0;
		for (auto& b : o.ibs)
			for (std::uint32_t v : b.idx)
				if (i < x.n)
				{
					if (static_cast<std::uint64_t>(v) + static_cast<std::uint32_t>(b.base) >= o.vertexCount)
						ctx.fail("index out of range\n%s", describe(c).c_str());
					checkBoundsVertex(ctx, c, x, o, i++, v + static_cast<std::uint32_t>(b.base));
				}
	}
	ctx.trace();
}

inline std::uint64_t hashOut(const Out& o)
{
	std::uint64_t h = 7;
	for (auto& v : o.vertices)
		h = mc::hashBytes(v.data(), v.size(), h);
	for (auto& b : o.ibs)
	{
		h = mc::mix(h ^ static_cast<std::uint64_t>(b.base)*31);
		h = mc::hashBytes(b.idx.data(), b.idx.size()*4, h);
	}
	for (auto& s : o.bounds)
		h = mc::hashBytes(s.data(), s.size()*sizeof(Bounds), h);
	return h;
}

inline bool sameOut(const Out& a, const Out& b)
{
	if (a.ok != b.ok || a.vertices != b.vertices || a.vertexCount != b.vertexCount || a.ibs.size() != b.ibs.size())
		return false;
	for (std::size_t i = 0; i < a.ibs.size(); ++i)
		if (a.ibs[i].type != b.ibs[i].type || a.ibs[i].base != b.ibs[i].base || a.ibs[i].idx != b.ibs[i].idx || a.ibs[i].count != b.ibs[i].count)
			return false;
	if (a.bounds.size() != b.bounds.size())
		return false;
	for (std::size_t i = 0; i < a.bounds.size(); ++i)
	{
		if (a.bounds[i].size() != b.bounds[i].size())
			return false;
		for (std::size_t j = 0; j < a.bounds[i].size(); ++j)
			if (std::memcmp(&a.bounds[i][j], &b.bounds[i][j], sizeof(Bounds)) != 0)
				return false;
	}
	return true;
}

// ---- Case construction -----------------------------------------------------------------------

struct Elem { const char* name; ElementLayout layout; ElementType type; };

inline VertexFormat format(mc::Ctx& ctx, const std::vector<Elem>& elems)
{
	VertexFormat f;
	for (auto& e : elems)
		if (f.appendElement(e.name, e.layout, e.type) != VertexFormat::AddResult::Succeeded)
			ctx.fail("appending valid element '%s' failed", e.name);
	return f;
}

// A finite raw code for a component, distinct for nearby ids where the format has room.
inline std::uint64_t rawFor(ElementLayout l, ElementType t, unsigned c, unsigned id)
{
	if (isShared(l))
		return (id*37 + c*11) & 0x1ff;
	unsigned bits = field(l, c).bits;
	std::uint64_t mask = bits == 64 ? ~0ULL : (1ULL << bits) - 1;
	if (isUFloat(l))
		return ((8U << (bits - 5)) + id*5 + c*3) & mask;
	if (t == ElementType::Float)
	{
		double v = (id + 1)*0.5*((id & 1) ? -1 : 1) + c;
		if (bits == 64)
		{
			std::uint64_t r;
			std::memcpy(&r, &v, 8);
			return r;
		}
		if (bits == 32)
		{
			float f = static_cast<float>(v);
			std::uint32_t r;
			std::memcpy(&r, &f, 4);
			return r;
		}
		// Half: exponents around 1.0 with the id in the mantissa.
		return (0x3c00U + id*9 + c*3) & 0x7bff;
	}
	return (id*73 + c*29 + 3) & mask;
}

inline void fill(InStream& s, std::uint32_t v, unsigned id)
{
	for (auto& e : s.fmt)
	{
		std::uint8_t* p = s.vertex(v) + e.offset;
		std::memset(p, 0, info(e.layout).size);
		for (unsigned c = 0; c < info(e.layout).comps; ++c)
			setRaw(p, e.layout, c, rawFor(e.layout, e.type, c, id));
		if (isShared(e.layout))
		{
			std::uint32_t w;
			std::memcpy(&w, p, 4);
			w |= (14U + id%4) << 27;
			std::memcpy(p, &w, 4);
		}
	}
}

// A restricted growth string: every index sequence up to renaming of vertices, with optional
// restarts (symbol -1).
inline std::vector<int> rgs(mc::Ctx& ctx, unsigned n, unsigned maxIds, bool restarts)
{
	std::vector<int> s(n);
	unsigned next = 0;
	for (unsigned i = 0; i < n; ++i)
	{
		unsigned ids = std::min(next + 1, maxIds);
		unsigned v = ctx.choose(ids + (restarts ? 1 : 0));
		if (v == ids)
			s[i] = -1;
		else
		{
			// Simplest first: a fresh vertex, then the most recent ones.
			int id = next < maxIds ? static_cast<int>(next) - static_cast<int>(v) : static_cast<int>(maxIds - 1 - v);
			s[i] = id;
			if (id == static_cast<int>(next))
				++next;
		}
	}
	return s;
}

inline std::uint32_t idCount(const std::vector<int>& s)
{
	int m = -1;
	for (int v : s)
		m = std::max(m, v);
	return static_cast<std::uint32_t>(m + 1);
}

inline std::vector<std::uint32_t> toIndices(const std::vector<int>& s, IndexType t)
{
	std::vector<std::uint32_t> r(s.size());
	for (std::size_t i = 0; i < s.size(); ++i)
		r[i] = s[i] < 0 ? restartValue(t) : static_cast<std::uint32_t>(s[i]);
	return r;
}

constexpr ElementLayout X8 = ElementLayout::X8, X8Y8 = ElementLayout::X8Y8, X8Y8Z8 = ElementLayout::X8Y8Z8,
	X8Y8Z8W8 = ElementLayout::X8Y8Z8W8, X16 = ElementLayout::X16, X16Y16 = ElementLayout::X16Y16,
	X32 = ElementLayout::X32, X32Y32 = ElementLayout::X32Y32, X32Y32Z32 = ElementLayout::X32Y32Z32;
constexpr ElementType UNorm = ElementType::UNorm, SNorm = ElementType::SNorm, UInt = ElementType::UInt,
	SInt = ElementType::SInt, Float = ElementType::Float;

inline std::vector<std::pair<ElementLayout, ElementType>> allValid()
{
	std::vector<std::pair<ElementLayout, ElementType>> r;
	for (int l = 0; l < 20; ++l)
		for (int t = 0; t < 5; ++t)
			if (valid(static_cast<ElementLayout>(l), static_cast<ElementType>(t)))
				r.emplace_back(static_cast<ElementLayout>(l), static_cast<ElementType>(t));
	return r;
}

} // namespace conv
