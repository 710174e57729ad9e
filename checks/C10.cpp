#include "spaces.h"
using namespace conv;

// The canonical conversion: one stream, one output stream, identity indices.
static Case canonical(mc::Ctx& ctx, const Case& c, const std::vector<std::vector<unsigned>>& ids, const std::vector<bool>* restart, unsigned elements)
{
	Case k = c;
	k.in.clear();
	k.out.clear();
	VertexFormat f;
	for (unsigned e = 0; e < elements; ++e)
		f.appendElement(cfgElems()[e].name, cfgElems()[e].layout, cfgElems()[e].type);
	k.out.push_back(f);
	InStream s;
	s.fmt = f;
	unsigned n = static_cast<unsigned>(ids[0].size());
	s.setData(n);
	for (unsigned i = 0; i < n; ++i)
		for (unsigned e = 0; e < elements; ++e)
		{
			InStream one;
			one.fmt = format(ctx, {cfgElems()[e]});
			one.setData(1);
			fill(one, 0, ids[e][i]);
			std::memcpy(s.vertex(i) + s.fmt.find(cfgElems()[e].name)->offset, one.vertex(0), one.fmt.stride());
		}
	if (restart)
	{
		std::vector<std::uint32_t> idx(n);
		for (unsigned i = 0; i < n; ++i)
			idx[i] = (*restart)[i] ? 0xFFFFU : i;
		s.setIndices(IndexType::UInt16, std::move(idx));
	}
	k.in.push_back(std::move(s));
	return k;
}

// Converts both and compares.
static Out same(mc::Ctx& ctx, const Case& c, const Case& k)
{
	Out want = run(k), got = run(c);
	requireConverted(ctx, k, want);
	requireConverted(ctx, c, got);
	auto differ = [&](const char* what) {
		ctx.fail("%s differ\n%s%scanonical:\n%s%s", what, describe(c).c_str(), describeOut(got).c_str(), describe(k).c_str(), describeOut(want).c_str());
	};
	if (want.vertexCount != got.vertexCount)
		differ("vertex counts");
	if (want.ibs.size() != got.ibs.size())
		differ("index buffer counts");
	for (std::size_t i = 0; i < want.ibs.size(); ++i)
		if (want.ibs[i].idx != got.ibs[i].idx || want.ibs[i].base != got.ibs[i].base || want.ibs[i].type != got.ibs[i].type)
			differ("index buffers");
	checkSizes(ctx, c, got);
	for (std::size_t s = 0; s < c.out.size(); ++s)
		for (std::size_t e = 0; e < c.out[s].size(); ++e)
		{
			const auto& el = c.out[s][e];
			const VertexFormat& kf = k.out[0];
			auto ke = kf.find(el.name);
			for (std::uint32_t v = 0; v < got.vertexCount; ++v)
				if (std::memcmp(got.vertices[s].data() + v*c.out[s].stride() + el.offset, want.vertices[0].data() + v*kf.stride() + ke->offset,
					info(el.layout).size) != 0)
					differ("vertices");
			const Bounds &a = got.bounds[s][e], &b = want.bounds[0][ke - kf.begin()];
			if (std::memcmp(&a, &b, sizeof(a)) != 0)
				differ("bounds");
		}
	return got;
}

// The same vertices as any case's in one stream without unused vertices or elements.
static Case gathered(const Case& c)
{
	Case k = c;
	k.in.clear();
	k.out.clear();
	k.transformsAt.clear();
	VertexFormat out, in;
	struct Source { const InStream* s; std::uint32_t offset, size; };
	std::vector<Source> sources;
	unsigned n = 0;
	std::vector<bool> restart;
	for (auto& f : c.out)
		for (auto& e : f)
		{
			out.appendElement(e.name, e.layout, e.type);
			for (auto& s : c.in)
			{
				auto it = s.fmt.find(e.name);
				if (it == s.fmt.end())
					continue;
				in.appendElement(e.name, it->layout, it->type);
				sources.push_back({&s, it->offset, info(it->layout).size});
				n = s.positions();
				restart.resize(n);
				if (isStrip(c.prim) && s.it != IndexType::NoIndices)
					for (unsigned i = 0; i < n; ++i)
						restart[i] = restart[i] || s.idx[i] == restartValue(s.it);
			}
		}
	k.out.push_back(out);
	InStream g;
	g.fmt = in;
	g.setData(n);
	bool any = false;
	std::vector<std::uint32_t> idx(n);
	for (unsigned i = 0; i < n; ++i)
	{
		any = any || restart[i];
		idx[i] = restart[i] ? 0xFFFFFFFFU : i;
		std::size_t at = 0;
		for (auto& src : sources)
		{
			std::uint32_t v = restart[i] ? 0 : src.s->it == IndexType::NoIndices ? i : src.s->idx[i];
			std::memcpy(g.vertex(i) + at, static_cast<const std::uint8_t*>(src.s->dataPtr()) + static_cast<std::size_t>(v)*src.s->fmt.stride() + src.offset, src.size);
			at += src.size;
		}
	}
	if (any)
		g.setIndices(IndexType::UInt32, std::move(idx));
	k.in.push_back(std::move(g));
	return k;
}

// Any generated case.
template <typename Gen>
static mc::Body against(Gen gen)
{
	return [gen](mc::Ctx& ctx) {
		Case c = gen(ctx);
		Case k = gathered(c);
		Out got = same(ctx, c, k);
		ctx.step(2);
		ctx.trace();
		ctx.nontrivial();
		ctx.state(mc::mix(hashCase(c)) ^ hashOut(got));
		if (ctx.verbose())
			ctx.note("%s%s", describe(c).c_str(), describeOut(got).c_str());
	};
}

// Many elements in streams of any number, in 6 orders.
static Case shuffled(mc::Ctx& ctx, const std::vector<unsigned>& counts)
{
	Case c;
	c.prim = ctx.flag() ? PrimitiveType::LineStrip : PrimitiveType::PointList;
	c.ot = ctx.flag() ? IndexType::NoIndices : IndexType::UInt16;
	c.defaultMax = true;
	unsigned m = ctx.pick(counts);
	static const std::vector<Elem> shapes = {{"", X8, UInt}, {"", X16Y16, SNorm}, {"", X8Y8Z8, UNorm}};
	auto order = [&](unsigned how) {
		std::vector<unsigned> r(m);
		for (unsigned i = 0; i < m; ++i)
			r[i] = i;
		switch (how)
		{
			case 0: break;
			case 1: std::reverse(r.begin(), r.end()); break;
			case 2: std::rotate(r.begin(), r.begin() + 1, r.end()); break;
			case 3: std::swap(r[0], r[m - 1]); break;
			case 4: std::swap(r[m/2], r[m - 1]); break;
			default: // even before odd
				for (unsigned i = 0; i < m; ++i)
					r[i] = i < (m + 1)/2 ? 2*i : 2*(i - (m + 1)/2) + 1;
				break;
		}
		return r;
	};
	auto in = order(ctx.choose(6)), out = order(ctx.choose(6));
	unsigned inSplit = ctx.choose(4), outSplit = ctx.choose(3); // how many streams
	unsigned keep = ctx.choose(3); // all, all but one, every third is output
	std::vector<VertexFormat> inF(inSplit == 3 ? (m + 1)/2 : inSplit + 1), outF(outSplit + 1);
	for (unsigned i = 0; i < m; ++i)
		inF[i*inF.size()/m].appendElement("e" + std::to_string(in[i]), shapes[in[i]%3].layout, shapes[in[i]%3].type);
	unsigned kept = 0;
	for (unsigned i = 0; i < m; ++i)
		if (keep == 0 || (keep == 1 ? out[i] != m/3 : out[i]%3 == 1))
			outF[i*outF.size()/m].appendElement("e" + std::to_string(out[i]), shapes[out[i]%3].layout, shapes[out[i]%3].type), ++kept;
	for (auto& f : outF)
		if (!f.empty())
			c.out.push_back(f);
	if (c.out.empty())
		throw mc::SkipPath();
	unsigned k = 0;
	for (auto& f : inF)
	{
		if (f.empty())
			continue;
		InStream s;
		s.fmt = f;
		s.setData(3);
		for (unsigned v = 0; v < 3; ++v)
			fill(s, v, v*7 + k);
		++k;
		c.in.push_back(std::move(s));
	}
	c.transforms.emplace_back(c.out.back()[c.out.back().size() - 1].name, Transform::Bounds);
	return c;
}

static void arranged(mc::Ctx& ctx, unsigned elements, unsigned n, bool outToo, bool perStream, bool values)
{
	Case c;
	static const std::vector<PrimitiveType> prims = {PrimitiveType::PointList, PrimitiveType::LineStrip, PrimitiveType::TriangleStrip};
	c.prim = ctx.pick(prims);
	unsigned kind = ctx.choose(3);
	c.ot = kind == 0 ? IndexType::UInt16 : kind == 1 ? IndexType::UInt32 : IndexType::NoIndices;
	c.defaultMax = kind == 2;
	c.maxIndex = c.prim == PrimitiveType::PointList ? 1 : c.prim == PrimitiveType::LineStrip ? 2 : 3;
	bool restarts = isStrip(c.prim) && kind != 2;
	std::vector<int> seq(n);
	if (values)
		seq = rgs(ctx, n, 3, restarts);
	else
		for (unsigned i = 0; i < n; ++i)
			seq[i] = restarts && i == 1 ? -1 : static_cast<int>(i%3);
	std::vector<bool> restart(n, false);
	bool any = false;
	std::vector<std::vector<unsigned>> ids(elements, std::vector<unsigned>(n));
	for (unsigned i = 0; i < n; ++i)
	{
		if (seq[i] < 0)
			restart[i] = any = true;
		unsigned v = seq[i] < 0 ? 0 : static_cast<unsigned>(seq[i]);
		for (unsigned e = 0; e < elements; ++e)
			ids[e][i] = e == 0 ? v : e == 1 ? v%2 : e == 2 ? v/2 : (v + e)%3;
	}
	std::vector<Transform> tr;
	unsigned tsel = ctx.choose(3);
	if (tsel == 1)
		c.transforms.emplace_back(cfgElems()[1].name, Transform::Bounds);
	if (tsel == 2)
		c.transforms.emplace_back(cfgElems()[0].name, Transform::UNormToSNorm);
	if (outToo)
		arrangeOutput(ctx, c, elements);
	else
	{
		VertexFormat f;
		for (unsigned e = 0; e < elements; ++e)
			f.appendElement(cfgElems()[e].name, cfgElems()[e].layout, cfgElems()[e].type);
		c.out.push_back(f);
	}
	arrangeInput(ctx, c, ids, elements, perStream, any ? &restart : nullptr);
	if (any)
	{
		// The unused stream of the arrangement is unindexed; that's fine. Everything else restarts.
	}
	Case k = canonical(ctx, c, ids, any ? &restart : nullptr, elements);
	Out got = same(ctx, c, k);
	ctx.step(2);
	ctx.trace();
	ctx.nontrivial();
	if (any)
		ctx.cover("restart");
	if (got.ibs.size() > 1)
		ctx.cover("split");
	ctx.state(mc::mix(hashCase(c)) ^ hashOut(got));
	if (ctx.verbose())
		ctx.note("%s%s", describe(c).c_str(), describeOut(got).c_str());
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		unsigned n = thorough ? 5 : 4;
		s.push_back({"input", [n](mc::Ctx& c) { arranged(c, 3, n, false, false, true); }, 5, false, 40,
			"every sequence of " + std::to_string(n) + " positions with restarts x every arrangement of 3 elements into input streams x unused elements and "
			"streams x 6 index forms, against the canonical layout"});
		s.push_back({"both", [thorough](mc::Ctx& c) { arranged(c, 3, 4, true, thorough, false); }, 5, false, 40,
			"every arrangement of 3 elements into input and output streams at once"});
		if (thorough)
			s.push_back({"per-stream", [](mc::Ctx& c) { arranged(c, 3, 3, false, true, true); }, 5, false, 40,
				"index forms chosen per input stream"});
		s.push_back({"five", [thorough](mc::Ctx& c) { arranged(c, thorough ? 5 : 4, 3, false, false, false); }, 5, false, 40,
			"every arrangement of " + std::to_string(thorough ? 5 : 4) + " elements into input streams"});
		std::vector<unsigned> counts = thorough ? std::vector<unsigned>{} : std::vector<unsigned>{4, 8, 9, 16, 17, 20, 32, 33, 64, 65, 128, 129, 257};
		for (unsigned k = 4; thorough && k <= 130; ++k)
			counts.push_back(k);
		if (thorough)
			counts.insert(counts.end(), {255, 256, 257, 300, 1000});
		s.push_back({"many", against([counts](mc::Ctx& c) { return shuffled(c, counts); }), 4, false, 60,
			std::to_string(counts.size()) + " numbers of elements up to " + std::to_string(counts.back()) + " in 6 orders each of input and output, 4 numbers of input and 3 of output streams, with unused ones"});
		return s;
	});
}
