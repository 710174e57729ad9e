#include "callmodel.h"
#include <stdexcept>
using namespace conv;

static void construction(mc::Ctx& ctx)
{
	std::vector<std::string> errors;
	static const PrimitiveType prims[] = {PrimitiveType::TriangleList, PrimitiveType::PointList, PrimitiveType::LineList, PrimitiveType::LineStrip,
		PrimitiveType::TriangleStrip, PrimitiveType::TriangleFan, PrimitiveType::PatchList, PrimitiveType::Invalid};
	PrimitiveType prim = prims[ctx.choose(8)];
	static const unsigned patches[] = {3, 0, 1, 2, 7, 70000};
	unsigned patch = patches[ctx.choose(6)];
	static const IndexType ots[] = {IndexType::UInt16, IndexType::UInt32, IndexType::NoIndices};
	IndexType ot = ots[ctx.choose(3)];
	static const std::uint32_t maxes[] = {0, 1, 2, 3, 4, 5, 6, 7, 69998, 69999, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF};
	unsigned m = ctx.choose(19);
	bool def = m == 18;
	std::uint32_t maxIndex = def ? (ot == IndexType::UInt16 ? 0xFFFEU : ot == IndexType::UInt32 ? 0xFFFFFFFEU : 0) : maxes[m];
	std::vector<VertexFormat> out;
	unsigned shape = ctx.choose(7);
	VertexFormat a = format(ctx, {{"a", X8, UInt}}), b = format(ctx, {{"b", X32Y32Z32, Float}, {"c", X8, UNorm}});
	switch (shape)
	{
		case 0: out = {a}; break;
		case 1: out = {a, b}; break;
		case 2: out = {VertexFormat()}; break;
		case 3: out = {}; break;
		case 4: out = {a, VertexFormat()}; break;
		case 5: out = {VertexFormat(), b}; break;
		default: out = {a, VertexFormat(), b}; break;
	}
	bool single = out.size() == 1 && ctx.flag();
	bool silent = ctx.flag();
	Converter::ErrorFunction err;
	if (!silent)
		err = [&](const char* msg) { errors.push_back(msg ? msg : ""); };
	// A default for no indices may be anything: it isn't used.
	bool expectValid = constructionValid(out, ot, prim, patch, maxIndex);
	std::vector<VertexFormat> copy = out;
	std::unique_ptr<Converter> cv;
	if (single && def)
		cv.reset(new Converter(out[0], ot, prim, patch, err));
	else if (single)
		cv.reset(new Converter(out[0], ot, prim, patch, maxIndex, err));
	else if (def)
		cv.reset(new Converter(out, ot, prim, patch, err));
	else
		cv.reset(new Converter(out, ot, prim, patch, maxIndex, err));
	char where[200];
	snprintf(where, sizeof(where), "prim=%d patch=%u outIndex=%d max=%s%u shape=%u single=%d", static_cast<int>(prim), patch, static_cast<int>(ot),
		def ? "default " : "", maxIndex, shape, single);
	if (cv->isValid() != expectValid || static_cast<bool>(*cv) != expectValid)
		ctx.fail("construction %s, expected %s: %s", cv->isValid() ? "succeeded" : "failed", expectValid ? "success" : "failure", where);
	if (!silent)
		checkErrors(ctx, "construction", expectValid, errors, where);
	if (cv->getIndexType() != ot || cv->getPrimitiveType() != prim || cv->getPatchPoints() != patch ||
		(!def && cv->getMaxIndexValue() != maxIndex))
		ctx.fail("the converter doesn't return its parameters: %s", where);
	if (expectValid && cv->getVertexFormat().size() != copy.size())
		ctx.fail("the converter doesn't return its formats: %s", where);
	if (!cv->getVertices().empty() || !cv->getIndices().empty() || cv->getVertexCount() != 0)
		ctx.fail("a new converter has output: %s", where);
	if (!expectValid)
	{
		// An invalid converter rejects everything, with a diagnostic.
		Buf data(64);
		errors.clear();
		if (cv->addVertexStream(a, data.data(), 6))
			ctx.fail("an invalid converter accepted a vertex stream: %s", where);
		if (!silent)
			checkErrors(ctx, "addVertexStream", false, errors, where);
		errors.clear();
		if (cv->convert())
			ctx.fail("an invalid converter converted: %s", where);
		if (!silent)
			checkErrors(ctx, "convert", false, errors, where);
		if (cv->isValid() || !cv->getVertices().empty() || !cv->getIndices().empty() || cv->getVertexCount() != 0)
			ctx.fail("an invalid converter changed: %s", where);
	}
	ctx.state(mc::hashBytes(where, std::strlen(where), silent));
	ctx.nontrivial();
	ctx.step();
	ctx.trace();
	ctx.note("%s -> %s", where, expectValid ? "valid" : "invalid");
}

// What a converter reports, and where: without an error function nothing, by default on the standard error.
static void reporting(mc::Ctx& ctx)
{
	unsigned how = ctx.choose(3); // default, none, given
	unsigned scenario = ctx.choose(11);
	bool single = ctx.flag(), withMax = ctx.flag(), moved = ctx.flag();
	std::vector<std::string> errors;
	Converter::ErrorFunction given = [&](const char* msg) { errors.push_back(msg ? msg : ""); };
	VertexFormat f = format(ctx, {{"a", X8, UInt}}), out = scenario == 0 ? VertexFormat() : f, other = format(ctx, {{"c", X8, UInt}});
	Buf data(3);
	const std::uint16_t fine[] = {0, 1, 2, 0}, beyond[] = {0, 1, 3}, restart[] = {0, 1, 0xFFFF, 0};
	static const char* const names[] = {"empty format", "null data", "other count", "element given twice", "missing element", "index out of range",
		"restart without indices", "converted twice", "success", "null indices", "no patch points"};

	std::fflush(stderr);
	int saved = dup(2), capture = memfd_create("stderr", MFD_CLOEXEC);
	if (saved < 0 || capture < 0 || dup2(capture, 2) < 0)
		throw std::runtime_error("can't redirect the standard error");
	IndexType ot = scenario == 6 ? IndexType::NoIndices : IndexType::UInt16;
	PrimitiveType prim = scenario == 10 ? PrimitiveType::PatchList : PrimitiveType::LineStrip;
	std::vector<VertexFormat> outs = {out};
	std::unique_ptr<Converter> cv;
	auto make = [&](auto first) {
		switch (how*2 + withMax)
		{
			case 0: return std::unique_ptr<Converter>(new Converter(first, ot, prim));
			case 1: return std::unique_ptr<Converter>(new Converter(first, ot, prim, 0, 100));
			case 2: return std::unique_ptr<Converter>(new Converter(first, ot, prim, 0, Converter::ErrorFunction()));
			case 3: return std::unique_ptr<Converter>(new Converter(first, ot, prim, 0, 100, nullptr));
			case 4: return std::unique_ptr<Converter>(new Converter(first, ot, prim, 0, given));
			default: return std::unique_ptr<Converter>(new Converter(first, ot, prim, 0, 100, given));
		}
	};
	cv = single ? make(out) : make(outs);
	if (moved)
		cv.reset(new Converter(std::move(*cv)));
	bool ok = cv->isValid();
	bool expect = scenario == 8;
	if (cv->getPatchPoints() != 0 || cv->getPrimitiveType() != prim || (withMax && cv->getMaxIndexValue() != 100))
		ctx.fail("%s: the converter doesn't return its parameters", names[scenario]);
	auto use = [&](const std::uint16_t* idx, unsigned n) { return cv->addVertexStream(f, data.data(), 3, IndexType::UInt16, idx, n); };
	switch (scenario)
	{
		case 0: case 10: break;
		case 1: ok = cv->addVertexStream(f, nullptr, 3); break;
		case 2: ok = cv->addVertexStream(other, data.data(), 2) && use(fine, 4); break;
		case 3: ok = use(fine, 4) && use(fine, 4); break;
		case 4: ok = cv->addVertexStream(other, data.data(), 3) && cv->convert(); break;
		case 5: ok = use(beyond, 3) && cv->convert(); break;
		case 6: ok = use(restart, 4) && cv->convert(); break;
		case 7: ok = use(fine, 4) && cv->convert() && cv->convert(); break;
		case 8: ok = use(fine, 4) && cv->convert(); break;
		default: ok = cv->addVertexStream(f, data.data(), 3, IndexType::UInt16, nullptr, 4); break;
	}
	cv.reset();
	std::fflush(stderr);
	dup2(saved, 2);
	char text[256] = "";
	ssize_t got = pread(capture, text, sizeof(text) - 1, 0);
	close(saved);
	close(capture);
	if (ok != expect)
		ctx.fail("%s: %s", names[scenario], ok ? "succeeded" : "failed");
	bool wantText = how == 0 && !expect;
	if (wantText ? got < 2 || text[got - 1] != '\n' : got != 0)
		ctx.fail("%s, %s error function: '%s' on the standard error", names[scenario], how == 0 ? "default" : how == 1 ? "no" : "given", text);
	if (how == 2)
		checkErrors(ctx, names[scenario], expect, errors, "");
	ctx.state(mc::hashBytes(text, std::strlen(text), scenario*64 + how*8 + single*4 + withMax*2 + moved));
	ctx.nontrivial();
	ctx.trace();
	ctx.note("%s: '%s'", names[scenario], text);
}

struct StreamOptions
{
	unsigned streams = 2;
	std::vector<unsigned> counts = {0, 2, 3, 4};
	bool extremes = false; // more out of range values
};

static void streams(mc::Ctx& ctx, const StreamOptions& so)
{
	Case c;
	static const std::vector<PrimitiveType> prims = {PrimitiveType::TriangleList, PrimitiveType::PointList, PrimitiveType::LineStrip,
		PrimitiveType::TriangleFan, PrimitiveType::PatchList};
	c.prim = ctx.pick(prims);
	c.patch = c.prim == PrimitiveType::PatchList ? 2 : 0;
	c.ot = ctx.flag() ? IndexType::UInt16 : IndexType::NoIndices;
	c.defaultMax = c.ot == IndexType::NoIndices;
	c.maxIndex = 2;
	c.out.push_back(format(ctx, {{"a", X8, UInt}}));
	c.out.push_back(format(ctx, {{"b", X8Y8, UNorm}}));
	std::vector<AddCall> calls(so.streams);
	for (AddCall& a : calls)
	{
		switch (ctx.choose(4))
		{
			case 0: a.s.fmt = format(ctx, {{"a", X16, UInt}}); break;
			case 1: a.s.fmt = format(ctx, {{"pad", X8Y8Z8, UInt}, {"b", X16Y16, UNorm}}); break;
			case 2: a.s.fmt = format(ctx, {{"b", X8, UNorm}, {"a", X32, UInt}}); break;
			default: a.s.fmt = format(ctx, {{"z", X32, UInt}, {"A", X8, UInt}}); break;
		}
		unsigned kind = ctx.choose(5); // unindexed, u16, u32, null data, null indices
		unsigned n = ctx.pick(so.counts);
		if (kind == 0 || kind == 3)
		{
			a.s.setData(n);
			a.nullData = kind == 3;
		}
		else
		{
			unsigned verts = 1 + (n > 2 ? 1 : 0);
			if (n == 0 && ctx.flag())
				verts = 0;
			a.s.setData(verts);
			IndexType t = kind == 2 ? IndexType::UInt32 : IndexType::UInt16;
			std::vector<std::uint32_t> idx(n);
			for (unsigned i = 0; i < n; ++i)
				idx[i] = (i*5 + 1)%std::max(verts, 1U);
			if (kind != 4 && n > 0)
			{
				unsigned bad = ctx.choose(so.extremes ? 6 : 4);
				static const std::uint32_t values[] = {0, 0, 0xFFFFFFFFU, 0x7FFF, 0xFFFE, 0x80000000U};
				if (bad)
				{
					unsigned at = so.extremes ? ctx.choose(n) : ctx.choose(2)*(n - 1);
					idx[at] = bad == 1 ? verts : values[bad];
				}
			}
			a.nullIndices = kind == 4;
			a.s.setIndices(t, std::move(idx));
			// The very index array of an earlier call, perhaps over another number of vertices.
			const AddCall* donor = nullptr;
			for (AddCall* b = calls.data(); b != &a && !donor; ++b)
				if (b->s.it == t && !b->nullIndices && b->s.idx.size() >= n && n > 0)
					donor = b;
			if (donor && kind != 4 && ctx.flag())
			{
				std::vector<std::uint32_t> same(donor->s.idx.begin(), donor->s.idx.begin() + n);
				a.s.setData(ctx.range(1, 3));
				a.s.setIndices(t, std::move(same));
				a.s.aliasIdx = donor->s.idxPtr();
				ctx.cover("shared index array");
			}
		}
		for (unsigned v = 0; v < a.s.count; ++v)
			fill(a.s, v, v);
	}
	std::string where = describe(c);
	{
		Case d;
		d.in.clear();
		for (auto& a : calls)
		{
			where += std::string("  call: ") + (a.nullData ? "null data " : "") + (a.nullIndices ? "null indices " : "");
			for (auto& e : a.s.fmt)
				where += e.name + " ";
			where += std::to_string(a.s.count) + " vertices";
			for (std::uint32_t v : a.s.idx)
				where += " " + std::to_string(v);
			where += a.s.it == IndexType::NoIndices ? " unindexed\n" : a.s.it == IndexType::UInt16 ? " (u16)\n" : " (u32)\n";
		}
	}
	std::vector<std::string> errors;
	auto cv = makeConverter(c, &errors);
	if (!cv->isValid())
		ctx.fail("a valid converter was rejected\n%s", where.c_str());
	CallModel model;
	model.c = &c;
	for (auto& a : calls)
	{
		errors.clear();
		Verdict want = model.add(a);
		bool got = callAdd(*cv, a);
		if (want != Either && got != (want == Succeeds))
			ctx.fail("addVertexStream %s (%s), expected %s\n%s", got ? "succeeded" : "failed", errors.empty() ? "" : errors[0].c_str(),
				want == Succeeds ? "success" : "failure", where.c_str());
		checkErrors(ctx, "addVertexStream", got, errors, where);
		if (got)
			model.added(a.s);
		else
			ctx.nontrivial();
		ctx.step();
	}
	errors.clear();
	Verdict want = model.convert();
	bool got = cv->convert();
	if (got != (want == Succeeds))
		ctx.fail("convert %s (%s), expected %s\n%s", got ? "succeeded" : "failed", errors.empty() ? "" : errors[0].c_str(),
			want == Succeeds ? "success" : "failure", where.c_str());
	checkErrors(ctx, "convert", got, errors, where);
	if (!got)
	{
		ctx.nontrivial();
		if (!cv->getVertices().empty() || !cv->getIndices().empty() || cv->getVertexCount() != 0)
			ctx.fail("a failed conversion has output\n%s", where.c_str());
		// Failing again must be just as clean.
		errors.clear();
		if (cv->convert())
			ctx.fail("a failed conversion succeeded when repeated\n%s", where.c_str());
		checkErrors(ctx, "convert", false, errors, where);
	}
	else
	{
		Out o;
		snapshot(*cv, o);
		ctx.cover("converted");
	}
	ctx.step();
	ctx.trace();
	ctx.state(mc::hashBytes(where.data(), where.size(), got));
	ctx.note("%s-> %s", where.c_str(), got ? "converted" : "rejected");
}

// Arrays that were fine when they were added but no longer are when they're converted: they belong
// to the caller, who may change them until then.
static void late(mc::Ctx& ctx, unsigned maxN)
{
	Case c;
	c.prim = ctx.pick(std::vector<PrimitiveType>{PrimitiveType::PointList, PrimitiveType::TriangleList, PrimitiveType::LineStrip, PrimitiveType::TriangleFan});
	c.ot = ctx.flag() ? IndexType::UInt16 : IndexType::NoIndices;
	c.defaultMax = c.ot == IndexType::NoIndices;
	c.maxIndex = 2;
	c.out.push_back(format(ctx, {{"a", X8, UInt}, {"b", X8, UInt}}));
	unsigned streams = ctx.range(1, 2), n = ctx.range(1, maxN)*3;
	std::vector<AddCall> calls(streams);
	unsigned changed = ctx.choose(streams), at = ctx.choose(n);
	for (unsigned k = 0; k < streams; ++k)
	{
		InStream& s = calls[k].s;
		if (streams == 1)
			s.fmt = format(ctx, {{"b", X8, UInt}, {"a", X8, UInt}});
		else if (k)
			s.fmt = format(ctx, {{"b", X8, UInt}});
		else
			s.fmt = format(ctx, {{"a", X8, UInt}});
		s.setData(2);
		for (unsigned v = 0; v < 2; ++v)
			fill(s, v, v + k);
		std::vector<std::uint32_t> idx(n);
		for (unsigned i = 0; i < n; ++i)
			idx[i] = i%2;
		s.setIndices(ctx.flag() ? IndexType::UInt32 : IndexType::UInt16, std::move(idx));
	}
	InStream& s = calls[changed].s;
	std::vector<std::uint32_t> values = {0, 1, 2, 3, 255, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF};
	if (s.it == IndexType::UInt32)
		for (std::uint32_t v : {0x10000u, 0x10001u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFEu, 0xFFFFFFFFu})
			values.push_back(v);
	std::uint32_t value = ctx.pick(values);
	std::vector<std::string> errors;
	auto cv = makeConverter(c, &errors);
	CallModel model;
	model.c = &c;
	for (AddCall& a : calls)
		if (!callAdd(*cv, a))
			ctx.fail("a valid stream was rejected\n%s", describe(c).c_str());
	// In place.
	s.idx[at] = value;
	if (s.it == IndexType::UInt16)
	{
		std::uint16_t v = static_cast<std::uint16_t>(value);
		std::memcpy(s.idxBuf.data() + at*2, &v, 2);
	}
	else
		std::memcpy(s.idxBuf.data() + at*4, &value, 4);
	for (AddCall& a : calls)
		model.added(a.s);
	std::string where = describe(c) + "index " + std::to_string(at) + " of stream " + std::to_string(changed) + " changed to " + std::to_string(value) + " after adding";
	bool want = model.convert() == Succeeds;
	bool got = cv->convert();
	if (got != want)
		ctx.fail("convert %s (%s), expected %s\n%s", got ? "succeeded" : "failed", errors.empty() ? "" : errors[0].c_str(), want ? "success" : "failure", where.c_str());
	checkErrors(ctx, "convert", got, errors, where);
	if (!got)
		ctx.nontrivial();
	ctx.trace();
	ctx.state(mc::hashBytes(where.data(), where.size(), static_cast<unsigned>(c.prim)*64 + n*4 + streams*2 + (c.ot == IndexType::UInt16) + (s.it == IndexType::UInt16 ? 1000 : 0)));
	ctx.note("%s-> %s", where.c_str(), got ? "converted" : "rejected");
}

// A 16-bit index can address 65536 vertices in lists, and is a restart in strips.
static void boundary(mc::Ctx& ctx)
{
	Case c;
	c.prim = ctx.pick(allPrims());
	c.patch = c.prim == PrimitiveType::PatchList ? 3 : 0;
	c.ot = ctx.flag() ? IndexType::UInt16 : IndexType::UInt32;
	c.defaultMax = true;
	c.out.push_back(format(ctx, {{"a", X32, UInt}}));
	AddCall a;
	a.s.fmt = format(ctx, {{"a", X32, UInt}});
	std::uint32_t count = 65534 + ctx.choose(4);
	a.s.setData(count);
	for (std::uint32_t i = 0; i < count; ++i)
		std::memcpy(a.s.vertex(i), &i, 4);
	bool wide = ctx.flag();
	std::vector<std::uint32_t> idx = {0, 1, 2, 3, 4, 5};
	static const std::uint32_t vals[] = {65533, 65534, 65535, 65536, 65537, 0xFFFFFFFEU, 0xFFFFFFFFU};
	std::uint32_t v = vals[ctx.choose(wide ? 7 : 3)];
	idx[ctx.choose(6)] = v;
	a.s.setIndices(wide ? IndexType::UInt32 : IndexType::UInt16, idx);
	std::string where = describe(c) + std::to_string(count) + " vertices, index " + std::to_string(v) + (wide ? " (u32)" : " (u16)");
	std::vector<std::string> errors;
	auto cv = makeConverter(c, &errors);
	CallModel model;
	model.c = &c;
	if (!callAdd(*cv, a))
		ctx.fail("a valid stream was rejected\n%s", where.c_str());
	model.added(a.s);
	bool want = model.convert() == Succeeds;
	bool got = cv->convert();
	if (got != want)
		ctx.fail("convert %s, expected %s\n%s", got ? "succeeded" : "failed", want ? "success" : "failure", where.c_str());
	checkErrors(ctx, "convert", got, errors, where);
	ctx.nontrivial();
	ctx.trace();
	ctx.step();
	ctx.state(mc::hashBytes(where.data(), where.size(), got));
}

// Two streams of any two counts, small, around powers of two, and as large as they can be.
static void counts(mc::Ctx& ctx)
{
	static const std::vector<std::uint32_t> all = {0, 1, 2, 3, 4, 6, 254, 255, 256, 257, 258, 260, 262, 65532, 65534, 65535, 65536, 65537, 65538, 65540, 65542, 131072, 131074, 16777216, 16777218, 16777220,
		0x7FFFFFFEU, 0x7FFFFFFFU, 0x80000000U, 0x80000004U, 0xFFFFFFFCU, 0xFFFFFFFEU, 0xFFFFFFFFU};
	// Zero, and there whatever is read; no index is out of range.
	static std::shared_ptr<std::uint8_t> memory = mc::farMemory(std::size_t(4) << 32);
	if (!memory)
		throw std::runtime_error("no address space");
	static const std::vector<PrimitiveType> prims = {PrimitiveType::PointList, PrimitiveType::LineList, PrimitiveType::TriangleStrip};
	Case c;
	c.prim = ctx.pick(prims);
	c.ot = ctx.flag() ? IndexType::UInt16 : IndexType::NoIndices;
	c.defaultMax = true;
	c.out.push_back(format(ctx, {{"a", X8, UInt}, {"b", X8, UInt}}));
	std::vector<std::string> errors;
	auto cv = makeConverter(c, &errors);
	bool have = false;
	std::uint32_t first = 0;
	std::string where;
	for (const char* name : {"a", "b"})
	{
		std::uint32_t n = ctx.pick(all);
		unsigned kind = ctx.choose(3); // unindexed, u16, u32
		where += std::string(name) + ": " + std::to_string(n) + (kind == 0 ? " vertices\n" : kind == 1 ? " 16-bit indices\n" : " 32-bit indices\n");
		VertexFormat f = format(ctx, {{name, X8, UInt}});
		errors.clear();
		bool got = kind == 0 ? cv->addVertexStream(f, memory.get(), n) :
			cv->addVertexStream(f, memory.get(), 1, kind == 1 ? IndexType::UInt16 : IndexType::UInt32, memory.get(), n);
		bool want = countValid(c.prim, n, 0) && (!have || n == first);
		if (got != want)
			ctx.fail("addVertexStream %s (%s), expected %s\n%s%s", got ? "succeeded" : "failed", errors.empty() ? "" : errors[0].c_str(), want ? "success" : "failure", describe(c).c_str(), where.c_str());
		checkErrors(ctx, "addVertexStream", got, errors, where);
		if (!got)
			break;
		have = true;
		first = n;
		ctx.step();
	}
	ctx.nontrivial();
	ctx.trace();
	ctx.state(mc::hashBytes(where.data(), where.size(), static_cast<unsigned>(c.prim)));
	ctx.note("%s", where.c_str());
}

// One bad index anywhere in a longer stream, or none.
static void oneBad(mc::Ctx& ctx)
{
	static const std::vector<unsigned> lengths = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 18, 24, 31, 32, 33, 48, 63, 64, 66, 127, 128, 129, 256, 258};
	static const std::vector<PrimitiveType> prims = {PrimitiveType::PointList, PrimitiveType::LineList, PrimitiveType::TriangleList, PrimitiveType::TriangleStrip};
	Case c;
	c.prim = ctx.pick(prims);
	c.ot = ctx.flag() ? IndexType::UInt16 : IndexType::NoIndices;
	c.defaultMax = true;
	c.out.push_back(format(ctx, {{"a", X8, UInt}, {"b", X16, UInt}}));
	unsigned n = ctx.pick(lengths);
	if (!countValid(c.prim, n, 0))
		throw mc::SkipPath();
	static const std::uint32_t verts[] = {1, 5, 256};
	std::uint32_t count = verts[ctx.choose(3)];
	unsigned bad = ctx.choose(2); // which stream
	IndexType t = ctx.flag() ? IndexType::UInt32 : IndexType::UInt16;
	std::vector<std::uint32_t> values = {count - 1, count, count + 1, 2*count, 255, 256, 32767, 32768, 65534, 65535};
	if (t == IndexType::UInt32)
		values.insert(values.end(), {65536, 65536 + count - 1, 0x01000000, 0x7FFFFFFF, 0x80000000U, 0xFFFF0000U, 0xFFFFFFFEU, 0xFFFFFFFFU});
	std::uint32_t v = ctx.pick(values);
	unsigned at = ctx.choose(n);
	if (!ctx.thorough() && n > 33 && at > 4 && at + 5 < n && at%16 > 1 && at%16 != 15)
		throw mc::SkipPath();
	CallModel model;
	model.c = &c;
	std::vector<std::string> errors;
	auto cv = makeConverter(c, &errors);
	AddCall calls[2];
	for (unsigned s = 0; s < 2; ++s)
	{
		AddCall& a = calls[s];
		a.s.fmt = format(ctx, {s == 0 ? Elem{"a", X8, UInt} : Elem{"b", X16, UInt}});
		a.s.setData(count);
		std::vector<std::uint32_t> idx(n);
		for (unsigned i = 0; i < n; ++i)
			idx[i] = i*(3 + s)%count;
		if (s == bad)
			idx[at] = v;
		a.s.setIndices(s == bad ? t : IndexType::UInt16, std::move(idx));
		if (!callAdd(*cv, a))
			ctx.fail("a valid stream was rejected: %s", errors.empty() ? "" : errors[0].c_str());
		model.added(a.s);
	}
	bool want = model.convert() == Succeeds, got = cv->convert();
	char where[160];
	snprintf(where, sizeof(where), "%u indices, number %u of stream %u is %u of %u vertices", n, at, bad, v, count);
	if (got != want)
		ctx.fail("convert %s (%s), expected %s: %s\n%s", got ? "succeeded" : "failed", errors.empty() ? "" : errors[0].c_str(), want ? "success" : "failure", where, describe(c).c_str());
	checkErrors(ctx, "convert", got, errors, where);
	if (!got && (!cv->getVertices().empty() || !cv->getIndices().empty()))
		ctx.fail("a failed conversion has output: %s", where);
	ctx.nontrivial();
	ctx.trace();
	ctx.step(3);
	ctx.state(mc::hashBytes(where, std::strlen(where), got));
	ctx.note("%s: %s", where, got ? "converted" : "rejected");
}

// What the requirements say of adding these streams and converting, whatever the model says.
static void follow(mc::Ctx& ctx, const Case& c, const std::vector<AddCall>& calls, const std::string& where)
{
	std::vector<std::string> errors;
	auto cv = makeConverter(c, &errors);
	if (!cv->isValid())
		ctx.fail("a valid converter was rejected\n%s", where.c_str());
	CallModel model;
	model.c = &c;
	for (const AddCall& a : calls)
	{
		errors.clear();
		Verdict want = model.add(a);
		bool got = callAdd(*cv, a);
		if (want != Either && got != (want == Succeeds))
			ctx.fail("addVertexStream %s, expected %s\n%s", got ? "succeeded" : "failed", want == Succeeds ? "success" : "failure", where.c_str());
		checkErrors(ctx, "addVertexStream", got, errors, where);
		if (got)
			model.added(a.s);
		else
			ctx.nontrivial();
		ctx.step();
	}
	errors.clear();
	bool want = model.convert() == Succeeds, got = cv->convert();
	if (got != want)
		ctx.fail("convert %s, expected %s\n%s", got ? "succeeded" : "failed", want ? "success" : "failure", where.c_str());
	checkErrors(ctx, "convert", got, errors, where);
	if (!got)
	{
		ctx.nontrivial();
		if (!cv->getVertices().empty() || !cv->getIndices().empty() || cv->getVertexCount() != 0)
			ctx.fail("a failed conversion has output\n%s", where.c_str());
	}
	ctx.cover(got ? "converted" : "rejected");
	ctx.trace();
	ctx.state(mc::hashBytes(where.data(), where.size(), got));
	ctx.note("%s-> %s", where.c_str(), got ? "converted" : "rejected");
}

// Every sequence of streams that supply some of three elements, or none.
static void supply(mc::Ctx& ctx, unsigned length)
{
	Case c;
	c.prim = PrimitiveType::PointList;
	c.ot = IndexType::UInt16;
	c.defaultMax = true;
	static const char* names[] = {"a", "b", "c"};
	if (ctx.flag())
		c.out.push_back(format(ctx, {{"a", X8, UInt}, {"b", X8, UInt}, {"c", X8, UInt}}));
	else
		for (const char* n : {"c", "a", "b"})
			c.out.push_back(format(ctx, {{n, X8, UInt}}));
	std::vector<AddCall> calls(ctx.range(1, length));
	std::string where = std::to_string(c.out.size()) + " output streams:";
	for (AddCall& a : calls)
	{
		unsigned set = ctx.choose(8);
		where += " ";
		std::vector<Elem> elems;
		for (unsigned i = 0; i < 3; ++i)
			if (set >> i & 1)
			{
				elems.push_back({names[i], X8, UInt});
				where += names[i];
			}
		if (!set)
		{
			elems.push_back({"other", X8, UInt});
			where += "other";
		}
		a.s.fmt = format(ctx, elems);
		a.s.setData(2);
		for (unsigned v = 0; v < 2; ++v)
			fill(a.s, v, v);
	}
	follow(ctx, c, calls, where);
}

// Many output elements of which any one isn't supplied, is supplied twice, or has an index out of range.
static void manyElements(mc::Ctx& ctx, bool thorough)
{
	static const std::vector<unsigned> counts = {1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 67, 127, 128, 129, 130, 255, 256, 257, 300};
	unsigned n = ctx.pick(counts), outs = ctx.choose(3), k = ctx.choose(n), what = ctx.choose(4), ins = ctx.choose(3);
	if (!thorough && n > 67 && k > 2 && k + 3 < n && (k + 2)%32 > 3)
		throw mc::SkipPath();
	Case c;
	c.prim = PrimitiveType::PointList;
	c.ot = IndexType::UInt16;
	c.defaultMax = true;
	auto name = [](unsigned i) { return "e" + std::to_string(i); };
	// In one output stream, one each, or two of different lengths.
	unsigned per = outs == 0 ? n : outs == 1 ? 1 : n - n/3;
	for (unsigned i = 0; i < n; i += per)
	{
		c.out.emplace_back();
		for (unsigned j = i; j < std::min(i + per, n); ++j)
			c.out.back().appendElement(name(j), X8, UInt);
	}
	std::vector<AddCall> calls;
	auto add = [&](std::vector<unsigned> which, bool bad) {
		calls.emplace_back();
		InStream& s = calls.back().s;
		for (unsigned i : which)
			s.fmt.appendElement(name(i), X8, UInt);
		s.setData(2);
		for (unsigned v = 0; v < 2; ++v)
			fill(s, v, v);
		s.setIndices(IndexType::UInt16, {0, 1, bad ? 2u : 1u});
	};
	// Supplied by one stream, one each, or two: the even and the odd ones.
	unsigned groups = ins == 0 ? 1 : ins == 1 ? n : 2;
	for (unsigned g = 0; g < groups; ++g)
	{
		std::vector<unsigned> which;
		for (unsigned i = g; i < n; i += groups)
			if (i != k || what > 1)
				which.push_back(i);
		if (!which.empty())
			add(which, false);
	}
	// 0: missing, 1: out of range, 2: twice, 3: nothing wrong
	if (what == 1 || what == 2)
		add({k}, what == 1);
	static const char* const whats[] = {"isn't supplied", "has an index out of range", "is supplied twice", "is as fine as the others"};
	char where[200];
	snprintf(where, sizeof(where), "%u elements in %zu output and %u input streams, of which number %u %s", n, c.out.size(), groups, k, whats[what]);
	follow(ctx, c, calls, where);
}

// Names of any length and content in everything that is reported with one.
static void messages(mc::Ctx& ctx)
{
	static const std::vector<unsigned> lengths = {0, 1, 15, 16, 60, 100, 127, 128, 199, 200, 210, 220, 230, 240, 250, 255, 256, 257, 500, 511, 512, 1000, 1023, 1024, 2048, 4096, 8192, 65536, 200000};
	unsigned n = ctx.pick(lengths), content = ctx.choose(5), what = ctx.choose(5);
	static const char* const contents[] = {"n", "%s", "%n%d", "\xC3\xA9", "'\n"};
	std::string name;
	while (name.size() < n)
		name += contents[content];
	name.resize(n);
	Case c;
	c.prim = PrimitiveType::LineStrip;
	c.ot = IndexType::UInt16;
	c.defaultMax = true;
	bool second = ctx.flag();
	c.out.emplace_back();
	if (second)
		c.out.back().appendElement("first", X8, UInt);
	c.out.back().appendElement(name, X8, UInt);
	std::vector<AddCall> calls;
	auto add = [&](const std::string& element, std::uint32_t index) {
		calls.emplace_back();
		InStream& s = calls.back().s;
		s.fmt.appendElement(element, X8, UInt);
		s.setData(3);
		s.setIndices(IndexType::UInt16, {0, 1, index});
	};
	if (second)
		add("first", 2);
	if (what != 0)
		add(name, what == 1 ? 3 : 2);
	if (what == 2)
		add(name, 2);
	if (what == 3)
		add(name + "x", 2);
	static const char* const whats[] = {"isn't supplied", "has an index out of range", "is supplied twice", "is supplied as is another", "is supplied"};
	follow(ctx, c, calls, "an element with a name of " + std::to_string(n) + " times " + contents[content] + (second ? " after another " : " ") + whats[what]);
}

static void noOracle(mc::Ctx& ctx, const Case& c, const Expected&, const Out& o)
{
	if (!o.errors.empty())
		ctx.fail("a successful conversion reported '%s'\n%s", o.errors[0].c_str(), describe(c).c_str());
	ctx.trace();
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		s.push_back({"construction", construction, 2, false, 40,
			"every combination of 8 primitive types, 6 patch sizes, 3 index types, 19 maximum index values, 7 format lists, all constructors"});
		s.push_back({"reporting", reporting, 2, false, 40, "10 ways to fail and one to succeed x default, no and given error function x every constructor, moved or not"});
		StreamOptions so;
		if (thorough)
			so.extremes = true;
		s.push_back({"streams", [so](mc::Ctx& c) { streams(c, so); }, 4, false, 40,
			"every pair of addVertexStream calls over 4 formats x null arguments x index types x 4 counts x out of range or restart indices, then convert"});
		if (thorough)
		{
			StreamOptions s3;
			s3.streams = 3;
			s3.counts = {0, 3};
			s.push_back({"streams3", [s3](mc::Ctx& c) { streams(c, s3); }, 6, false, 40, "the same with three calls and two counts"});
		}
		s.push_back({"boundary", boundary, 2, false, 40, "indices around 65535 and 2^32 in buffers of 65534..65537 vertices, every primitive type"});
		s.push_back({"late", [thorough](mc::Ctx& c) { late(c, thorough ? 6 : 3); }, 4, false, 40, "one or two streams, one index at any place changed after they're added to any of 15 values, 4 primitive types, every index type"});
		s.push_back({"one-bad", oneBad, 5, false, 40, "1 to 258 indices in two streams of which one at any place has any of 18 values, 3 vertex counts, 4 primitive types"});
		unsigned sequence = thorough ? 6 : 4;
		s.push_back({"supply", [sequence](mc::Ctx& c) { supply(c, sequence); }, 3, false, 40, "every sequence of up to " + std::to_string(sequence) + " streams that supply any of three elements or none"});
		s.push_back({"elements", [thorough](mc::Ctx& c) { manyElements(c, thorough); }, 4, false, 40, "29 numbers of elements up to 300 in 1 to 300 output and input streams, any one missing, supplied twice or with an index out of range"});
		s.push_back({"messages", messages, 3, false, 40, "names of 29 lengths up to 200000 and 5 contents in every report that has one"});
		SeqOptions sq;
		sq.maxN = thorough ? 6 : 5;
		sq.extraMax = 2;
		s.push_back({"memory", body([sq](mc::Ctx& c) { return genSeq(c, sq); }, noOracle), 5, false, 40,
			"valid conversions of every index sequence up to " + std::to_string(sq.maxN) + " positions under AddressSanitizer with exactly sized inputs"});
		s.push_back({"memory-formats", body([](mc::Ctx& c) { return genFormats(c, true); }, noOracle), 2, false, 40,
			"all 70x70 layout/type pairs with every transform under AddressSanitizer"});
		CfgOptions co;
		co.outArrangement = thorough;
		s.push_back({"memory-arrangements", body([co](mc::Ctx& c) { return genCfg(c, co); }, noOracle), 4, false, 40,
			"every input arrangement of 3 elements under AddressSanitizer"});
		// Last: with code that looks at every index when a stream is added it takes long.
		s.push_back({"counts", counts, 3, false, 40, "every pair of 33 counts up to 2^32 - 1 in any index type, 3 primitive types"});
		return s;
	});
}
