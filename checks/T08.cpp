// Result documents, parsed back with a JSON reader of our own.
#include "explore.h"
#include "json.h"
#include "vfcref.h"
#include "ResultFile.h"
#include <cmath>
#include <limits>
using namespace vfc;

struct Case
{
	std::vector<VertexFormat> formats;
	std::vector<std::vector<Bounds>> bounds;
	std::vector<std::string> data;
	std::uint32_t count = 0;
	IndexType type = IndexType::NoIndices;
	std::vector<IndexFileData> indices;
	std::vector<std::string> indexStrings;
};

static std::string shown(const std::string& s) { return "\"" + mc::jsonEscape(s) + "\""; }

static const js::Value& member(mc::Ctx& ctx, const js::Value& o, const char* name, js::Kind kind)
{
	if (!o.is(js::Kind::Object) || o.count(name) != 1)
		ctx.fail("member %s is missing or repeated", name);
	const js::Value& v = *o.find(name);
	if (!v.is(kind))
		ctx.fail("member %s has the wrong type", name);
	return v;
}

static void str(mc::Ctx& ctx, const js::Value& o, const char* name, const std::string& want)
{
	const std::string& got = member(ctx, o, name, js::Kind::String).text;
	if (got != want)
		ctx.fail("%s is %s instead of %s", name, shown(got).c_str(), shown(want).c_str());
}

static void integer(mc::Ctx& ctx, const js::Value& o, const char* name, long long want)
{
	const js::Value& v = member(ctx, o, name, js::Kind::Number);
	if (!v.isInteger() || v.integer() != want)
		ctx.fail("%s is %s instead of %lld", name, v.text.c_str(), want);
}

static void vec(mc::Ctx& ctx, const js::Value& o, const char* name, const VertexValue& want)
{
	const js::Value& v = member(ctx, o, name, js::Kind::Array);
	if (v.items.size() != 4)
		ctx.fail("%s has %zu values", name, v.items.size());
	for (unsigned k = 0; k < 4; ++k)
	{
		double w = want[k];
		if (std::isfinite(w) ? !v.items[k].is(js::Kind::Number) || v.items[k].number() != w : !v.items[k].is(js::Kind::Null))
			ctx.fail("%s[%u] is %s instead of %.17g", name, k, v.items[k].text.c_str(), w);
	}
}

static void check(mc::Ctx& ctx, Case& c)
{
	for (std::size_t i = 0; i < c.indices.size(); ++i)
		c.indices[i].dataFile = c.indexStrings[i].c_str();
	std::string text = resultFile(c.formats, c.bounds, c.data, c.count, c.type, c.indices);
	ctx.step();
	js::Value doc;
	if (js::parse(doc, text) != js::Verdict::Json)
		ctx.fail("not a JSON document:\n%.1500s", text.c_str());
	ctx.note("%s", text.c_str());
	const js::Value& vertices = member(ctx, doc, "vertices", js::Kind::Array);
	if (vertices.items.size() != c.formats.size())
		ctx.fail("%zu vertex streams instead of %zu", vertices.items.size(), c.formats.size());
	for (std::size_t i = 0; i < c.formats.size(); ++i)
	{
		const js::Value& s = vertices.items[i];
		const js::Value& f = member(ctx, s, "vertexFormat", js::Kind::Array);
		if (f.items.size() != c.formats[i].size())
			ctx.fail("%zu elements instead of %zu", f.items.size(), c.formats[i].size());
		std::uint32_t offset = 0;
		for (std::size_t j = 0; j < c.formats[i].size(); ++j)
		{
			const VertexElement& e = c.formats[i][j];
			const js::Value& o = f.items[j];
			str(ctx, o, "name", e.name);
			str(ctx, o, "layout", ref::name(e.layout));
			str(ctx, o, "type", ref::name(e.type));
			integer(ctx, o, "offset", offset);
			offset += ref::info(e.layout).size;
			vec(ctx, o, "minValue", c.bounds[i][j].min);
			vec(ctx, o, "maxValue", c.bounds[i][j].max);
		}
		integer(ctx, s, "vertexStride", offset);
		str(ctx, s, "vertexData", c.data[i]);
	}
	integer(ctx, doc, "vertexCount", c.count);
	if (c.type == IndexType::NoIndices)
	{
		if (doc.find("indexType") || doc.find("indexBuffers"))
			ctx.fail("index members without an index type");
	}
	else
	{
		str(ctx, doc, "indexType", c.type == IndexType::UInt16 ? "UInt16" : "UInt32");
		if (!c.indices.empty() || doc.find("indexBuffers"))
		{
			const js::Value& b = member(ctx, doc, "indexBuffers", js::Kind::Array);
			if (b.items.size() != c.indices.size())
				ctx.fail("%zu index buffers instead of %zu", b.items.size(), c.indices.size());
			for (std::size_t i = 0; i < b.items.size(); ++i)
			{
				integer(ctx, b.items[i], "indexCount", c.indices[i].count);
				integer(ctx, b.items[i], "baseVertex", c.indices[i].baseVertex);
				str(ctx, b.items[i], "indexData", c.indexStrings[i]);
			}
		}
	}
	ctx.state(mc::hashBytes(text.data(), text.size()));
	ctx.nontrivial();
	ctx.trace();
}

static void basic(Case& c, unsigned indices)
{
	c.formats.resize(1);
	c.formats[0].appendElement("position", ElementLayout::X32Y32Z32, ElementType::Float);
	c.bounds.push_back({Bounds{VertexValue(-1.0, -2.0, -3.0, 1.0), VertexValue(1.0, 2.0, 3.0, 1.0)}});
	c.data.push_back("base64:AAAA");
	c.count = 3;
	if (indices)
		c.type = IndexType::UInt16;
	for (unsigned i = 0; i < indices; ++i)
	{
		c.indices.push_back(IndexFileData{6, 0, nullptr});
		c.indexStrings.push_back("base64:AAAA");
	}
}

static void place(Case& c, unsigned where, const std::string& s)
{
	if (where == 0)
	{
		c.formats[0].clear();
		c.formats[0].appendElement(s, ElementLayout::X32Y32Z32, ElementType::Float);
	}
	else if (where == 1)
		c.data[0] = s;
	else
		c.indexStrings[where - 2] = s;
}

static void strings(mc::Ctx& ctx)
{
	Case c;
	basic(c, 2);
	unsigned where = ctx.choose(4);
	static const char* wide[] = {"\xC2\x80", "\xC3\xA9", "\xDF\xBF", "\xE0\xA0\x80", "\xE2\x82\xAC", "\xE2\x80\xA8", "\xE2\x80\xA9", "\xEF\xBF\xBD", "\xEF\xBF\xBF", "\xF0\x9F\x98\x80", "\xF4\x8F\xBF\xBF"};
	unsigned ch = ctx.choose(127 + 11);
	std::string unit = ch < 127 ? std::string(1, static_cast<char>(ch + 1)) : wide[ch - 127];
	static const char* around[][2] = {{"", ""}, {"a", ""}, {"", "b"}, {"\\", "n"}, {"u00", "41"}, {"/dir with space/", ".dat"}};
	unsigned form = ctx.choose(6 + 4);
	std::string s;
	if (form < 6)
		s = around[form][0] + unit + around[form][1];
	else
	{
		static const unsigned lengths[] = {15, 16, 300, 5000};
		while (s.size() < lengths[form - 6])
			s += unit;
	}
	place(c, where, s);
	check(ctx, c);
}

// Strings of sizes around those of buffers, plain or with something to escape at either end.
static void longer(mc::Ctx& ctx)
{
	static const std::vector<unsigned> sizes = {0, 1, 31, 32, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 131072, 1048576};
	Case c;
	basic(c, 2);
	unsigned w = ctx.choose(4);
	std::size_t n = ctx.pick(sizes) + (ctx.thorough() ? ctx.choose(4) : 0);
	if (ctx.thorough() && ctx.flag())
		n += 0xFFFFFF;
	std::string s(n, 'x');
	for (std::size_t i = 0; i < n; ++i)
		s[i] = static_cast<char>('A' + i*7%50);
	for (char& ch : s)
		if (ch == '\\')
			ch = '/';
	unsigned form = ctx.choose(4);
	if (n > 0 && form == 1)
		s[0] = '"';
	if (n > 0 && form == 2)
		s[n - 1] = '\n';
	if (form == 3)
		s += "\xE2\x82\xAC";
	place(c, w, s);
	check(ctx, c);
}

// Strings of sizes where 32 bits don't hold a multiple of them, by comparison with a short one in their place.
static void large(mc::Ctx& ctx)
{
	static const std::vector<std::size_t> quick = {715827982}, all = {178956971, 268435457, 357913942, 536870913, 715827881, 715827882,
		715827883, 858993460, 1073741825, 1431655766, 2147483647, 2147483649, 3000000001, 4294967290, 4294967295};
	unsigned w = ctx.thorough() ? ctx.choose(2) + 1 : 1;
	std::size_t n = ctx.pick(ctx.thorough() ? all : quick);
	Case c, small;
	basic(c, 2);
	basic(small, 2);
	static const std::string mark = "@here@";
	place(small, w, mark);
	for (std::size_t i = 0; i < 2; ++i)
		small.indices[i].dataFile = small.indexStrings[i].c_str();
	std::string around = resultFile(small.formats, small.bounds, small.data, small.count, small.type, small.indices);
	std::size_t at = around.find(mark);
	if (at == std::string::npos || around.find(mark, at + 1) != std::string::npos)
		ctx.fail("the string isn't in the result once:\n%s", around.c_str());
	check(ctx, small);
	std::string s(n, 'A');
	for (std::size_t i = 0; i < n; i += 4099)
		s[i] = static_cast<char>('0' + i%10);
	place(c, w, s);
	for (std::size_t i = 0; i < 2; ++i)
		c.indices[i].dataFile = c.indexStrings[i].c_str();
	std::string text = resultFile(c.formats, c.bounds, c.data, c.count, c.type, c.indices);
	ctx.step();
	std::size_t rest = around.size() - at - mark.size();
	if (text.size() != at + n + rest || text.compare(0, at, around, 0, at) != 0 || text.compare(at, n, s) != 0 ||
		text.compare(at + n, rest, around, at + mark.size(), rest) != 0)
		ctx.fail("with a string of %zu characters the result of %zu ones isn't that with a short string in its place:\n%.400s", n, text.size(), text.c_str());
	ctx.state(mc::mix(n*4 + w));
	ctx.nontrivial();
	ctx.trace();
}

static void pairs(mc::Ctx& ctx) // two special characters side by side, in two members
{
	static const char special[] = "\"\\/\b\f\n\r\t\x01\x1F\x7F u'<&";
	Case c;
	basic(c, 2);
	unsigned n = static_cast<unsigned>(sizeof(special) - 1);
	std::string s;
	unsigned len = ctx.choose(ctx.thorough() ? 4 : 3);
	for (unsigned i = 0; i < len; ++i)
		s += special[ctx.choose(n)];
	for (unsigned w = 0; w < 4; ++w)
		place(c, w, w%2 ? s : s + "x");
	check(ctx, c);
}

static const std::vector<double>& doubles()
{
	static const std::vector<double> d = [] {
		std::vector<double> r{0.0, -0.0, 1.0, -1.0, 0.1, 1.0/3, 123456789.0, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0,
			1e21, 1e22, 1e23, 1e15, 1e16, 1e17, 1e-4, 1e-5, 1e-6, 1e-7, 5e-324, 2.2250738585072014e-308, 2.2250738585072009e-308,
			1.7976931348623157e308, 4294967295.0, 4294967296.0, 2147483647.0, -2147483648.0, 18446744073709551615.0, 9223372036854775807.0,
			3.4028234663852886e38, 1.1754943508222875e-38, 1.401298464324817e-45, 65504.0, 100.0, 1000000.0, 12345678901234567890.0, 0.5, 255.0/256,
			std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
		std::size_t n = r.size();
		for (std::size_t i = 0; i < n; ++i)
			r.push_back(-r[i]);
		return r;
	}();
	return d;
}

static void extremes(mc::Ctx& ctx)
{
	Case c;
	basic(c, 1);
	unsigned at = ctx.choose(8);
	double d = ctx.pick(doubles());
	unsigned next = ctx.choose(3); // and its neighbours
	if (next && std::isfinite(d))
		d = std::nextafter(d, next == 1 ? -HUGE_VAL : HUGE_VAL);
	Bounds& b = c.bounds[0][0];
	(at < 4 ? b.min : b.max)[at%4] = d;
	check(ctx, c);
}

static void exponents(mc::Ctx& ctx) // every binary exponent with several mantissas
{
	Case c;
	basic(c, 0);
	std::uint64_t e = ctx.choose(2047);
	std::uint64_t mants[] = {0, 1, 0xFFFFFFFFFFFFFULL, 0x8000000000000ULL, 0x5555555555555ULL, 0x123456789ABCDULL, 0x3333333333334ULL, 0x999999999999AULL};
	for (unsigned i = 0; i < 8; ++i)
	{
		std::uint64_t bits = e << 52 | mants[i] | static_cast<std::uint64_t>(i%2) << 63;
		double d;
		memcpy(&d, &bits, 8);
		(i < 4 ? c.bounds[0][0].min : c.bounds[0][0].max)[i%4] = d;
	}
	check(ctx, c);
}

static void counts(mc::Ctx& ctx)
{
	static const std::uint32_t counts[] = {0, 1, 65535, 65536, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFEu, 0xFFFFFFFFu};
	static const std::int32_t bases[] = {0, 1, 65535, 0x7FFFFFFF, -1, -2147483647 - 1};
	Case c;
	basic(c, 2);
	c.count = counts[ctx.choose(8)];
	c.type = static_cast<IndexType>(ctx.choose(3));
	for (IndexFileData& d : c.indices)
	{
		d.count = counts[ctx.choose(8)];
		d.baseVertex = bases[ctx.choose(6)];
	}
	check(ctx, c);
}

static void shapes(mc::Ctx& ctx) // streams, elements, every valid layout and type, index buffers
{
	static std::vector<std::pair<ElementLayout, ElementType>> all;
	if (all.empty())
		for (unsigned l = 0; l < elementLayoutCount; ++l)
			for (unsigned t = 0; t < elementTypeCount; ++t)
				if (ref::valid(static_cast<ElementLayout>(l), static_cast<ElementType>(t)))
					all.emplace_back(static_cast<ElementLayout>(l), static_cast<ElementType>(t));
	Case c;
	unsigned streams = ctx.range(1, 3), next = ctx.choose(static_cast<unsigned>(all.size()));
	unsigned seen = 0;
	for (unsigned i = 0; i < streams; ++i)
	{
		c.formats.emplace_back();
		c.bounds.emplace_back();
		unsigned elements = ctx.range(1, 3);
		for (unsigned j = 0; j < elements; ++j)
		{
			auto& lt = all[(next + 17*seen)%all.size()];
			c.formats.back().appendElement("e" + std::to_string(seen), lt.first, lt.second);
			double b = 10.0*seen;
			c.bounds.back().push_back(Bounds{VertexValue(b, b + 1, b + 2, b + 3), VertexValue(b + 4, b + 5, b + 6, b + 7)});
			++seen;
		}
		c.data.push_back("data" + std::to_string(i));
	}
	c.count = 7;
	c.type = static_cast<IndexType>(ctx.choose(3));
	static const unsigned buffers[] = {0, 1, 2, 5};
	unsigned n = buffers[ctx.choose(4)];
	for (unsigned i = 0; i < n; ++i)
	{
		c.indices.push_back(IndexFileData{i*3, static_cast<std::int32_t>(i*100), nullptr});
		c.indexStrings.push_back("index" + std::to_string(i));
	}
	check(ctx, c);
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		s.push_back({"shapes", shapes, 3, false, 60, "1 to 3 streams of 1 to 3 elements over every valid layout and type, every index type, 0 to 5 index buffers"});
		s.push_back({"strings", strings, 2, false, 60, "every character from U+0001 to U+007F and 11 beyond, 10 surroundings and lengths, in a name, a vertex data string and either of two index data strings"});
		s.push_back({"longer", longer, 2, false, 60, "strings of 21 lengths up to a megabyte, plain, with something to escape first or last, or with a multi-byte character"});
		s.push_back({"large", large, 0, true, 300, thorough ? "vertex or index data strings of 15 lengths up to 2^32 - 1" : "a vertex data string of 715827982 characters"});
		s.push_back({"pairs", pairs, 2, false, 60, std::string("all strings up to ") + (thorough ? "3" : "2") + " characters that need care, in every string at once"});
		s.push_back({"extremes", extremes, 2, false, 60, "82 extreme doubles and their neighbours in each of the 8 components"});
		s.push_back({"exponents", exponents, 1, false, 60, "every finite binary exponent with 8 mantissas"});
		s.push_back({"counts", counts, 3, false, 60, "extreme vertex counts, index counts and base vertices, every index type"});
		return s;
	});
}
