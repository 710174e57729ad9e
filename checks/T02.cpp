// Configurations: documents one and two mutations away from complete ones, and corrupted texts, against the schema.
#include "explore.h"
#include "config.h"
#include "ConfigFile.h"
#include <fstream>
#include <sstream>
using js::Kind;
using js::Value;

static const char fileName[] = "some/config.json";

static Value element(const char* name, const char* layout, const char* type)
{
	Value v(Kind::Object);
	v.members = {{"name", Value::string(name)}, {"layout", Value::string(layout)}, {"type", Value::string(type)}};
	return v;
}

static Value array(std::vector<Value> items)
{
	Value v(Kind::Array);
	v.items = std::move(items);
	return v;
}

static Value object(std::vector<std::pair<std::string, Value>> members)
{
	Value v(Kind::Object);
	v.members = std::move(members);
	return v;
}

static std::vector<Value> makeBases()
{
	std::vector<Value> r;
	// Everything at once.
	r.push_back(object({
		{"vertexFormat", array({array({element("position", "X16Y16Z16W16", "SNorm"), element("color", "R8G8B8A8", "unorm")}), array({element("texCoord", "X16Y16", "Float")})})},
		{"indexType", Value::string("UInt16")},
		{"primitiveType", Value::string("PatchList")},
		{"patchPoints", Value::number("3")},
		{"vertexStreams", array({
			object({{"vertexFormat", array({element("position", "x32y32z32", "float")})}, {"vertexData", Value::string("positions.dat")}, {"indexType", Value::string("uint32")}, {"indexData", Value::string("base64:AAAA")}}),
			object({{"vertexFormat", array({element("color", "W2X10Y10Z10", "UInt"), element("texCoord", "X32Y32", "Float")})}, {"vertexData", Value::string("base64:")}})})},
		{"vertexTransforms", array({object({{"name", Value::string("position")}, {"transform", Value::string("Bounds")}}), object({{"name", Value::string("color")}, {"transform", Value::string("UNormToSNorm")}})})}}));
	// The least.
	r.push_back(object({
		{"vertexFormat", array({array({element("a", "X8", "UInt")})})},
		{"vertexStreams", array({object({{"vertexFormat", array({element("a", "X32", "Float")})}, {"vertexData", Value::string("")}})})}}));
	// Optional members present but null, other members in an unusual order.
	r.push_back(object({
		{"vertexTransforms", array({})},
		{"vertexStreams", array({object({{"indexData", Value::string("i")}, {"indexType", Value(Kind::Null)}, {"vertexData", Value::string("v")}, {"vertexFormat", array({element("z", "E5Z9Y9X9_UFloat", "Float")})}})})},
		{"primitiveType", Value(Kind::Null)},
		{"indexType", Value(Kind::Null)},
		{"vertexFormat", array({array({element("z", "Z10Y11X11_UFloat", "Float")})})}}));
	return r;
}
static const std::vector<Value>& bases()
{
	static const std::vector<Value> r = makeBases();
	return r;
}

// All nodes of a tree in document order; the parent is null for the root.
struct Node
{
	Value* value;
	Value* parent;
	std::size_t index;
};
static void collect(std::vector<Node>& out, Value& v, Value* parent, std::size_t index)
{
	out.push_back(Node{&v, parent, index});
	for (std::size_t i = 0; i < v.items.size(); ++i)
		collect(out, v.items[i], &v, i);
	for (std::size_t i = 0; i < v.members.size(); ++i)
		collect(out, v.members[i].second, &v, i);
}

static std::string recase(std::string s, unsigned how)
{
	for (std::size_t i = 0; i < s.size(); ++i)
		if (how == 0 || (how == 2 && i%2))
			s[i] = static_cast<char>(toupper(s[i]));
		else
			s[i] = static_cast<char>(tolower(s[i]));
	return s;
}

constexpr unsigned kMutations = 25;

// False when the mutation doesn't apply to the node.
static bool mutate(const Node& n, unsigned m)
{
	Value& v = *n.value;
	Value* p = n.parent;
	switch (m)
	{
		case 0: // remove
			if (!p)
				return false;
			if (p->is(Kind::Array))
				p->items.erase(p->items.begin() + static_cast<long>(n.index));
			else
				p->members.erase(p->members.begin() + static_cast<long>(n.index));
			return true;
		case 1: v = Value(Kind::Null); return true;
		case 2: v = Value::boolean(true); return true;
		case 3: v = Value::number("0"); return true;
		case 4: v = Value::number("5"); return true;
		case 5: v = Value::string(""); return true;
		case 6: v = Value::string("bogus"); return true;
		case 7: v = Value(Kind::Array); return true;
		case 8: v = Value(Kind::Object); return true;
		case 9: // wrapped
		{
			Value w(Kind::Array);
			w.items.push_back(v);
			v = w;
			return true;
		}
		case 10: // unwrapped
			if (!v.is(Kind::Array) || v.items.size() != 1)
				return false;
			v = Value(v.items[0]);
			return true;
		case 11: case 12: case 13:
			if (!v.is(Kind::String))
				return false;
			v.text = recase(v.text, m - 11);
			return true;
		case 14: case 15: case 16:
			if (!v.is(Kind::String))
				return false;
			if (m == 14)
				v.text += ' ';
			else if (m == 15)
				v.text = "X" + v.text;
			else if (!v.text.empty())
				v.text.pop_back();
			return true;
		case 17: // member renamed
			if (!p || !p->is(Kind::Object))
				return false;
			p->members[n.index].first += "s";
			return true;
		case 18: case 19: // member's case changed: a different name
			if (!p || !p->is(Kind::Object))
				return false;
			p->members[n.index].first = recase(p->members[n.index].first, m - 18);
			return true;
		case 20: case 21: // unknown member first or last
		{
			if (!v.is(Kind::Object))
				return false;
			std::pair<std::string, Value> extra{"extra", array({object({{"name", Value::number("-1.5e3")}, {"layout", Value(Kind::Null)}}), Value::boolean(false)})};
			v.members.insert(m == 20 ? v.members.begin() : v.members.end(), extra);
			return true;
		}
		case 22: // reversed
			if (v.items.size() + v.members.size() < 2)
				return false;
			std::reverse(v.items.begin(), v.items.end());
			std::reverse(v.members.begin(), v.members.end());
			return true;
		case 23: // last item twice
			if (!v.is(Kind::Array) || v.items.empty())
				return false;
			v.items.push_back(Value(v.items.back()));
			return true;
		case 24: // a sibling's value instead
			if (!p || p->items.size() + p->members.size() < 2)
				return false;
			if (p->is(Kind::Array))
				v = Value(p->items[(n.index + 1)%p->items.size()]);
			else
				v = Value(p->members[(n.index + 1)%p->members.size()].second);
			return true;
	}
	return false;
}

static bool sameFormat(const vfc::VertexFormat& f, const cfg::Format& want)
{
	if (f.size() != want.size())
		return false;
	std::uint32_t offset = 0;
	for (std::size_t i = 0; i < want.size(); ++i)
	{
		if (f[i].name != want[i].name || f[i].layout != want[i].layout || f[i].type != want[i].type || f[i].offset != offset)
			return false;
		offset += ref::info(want[i].layout).size;
	}
	return f.stride() == offset;
}

static const char* differs(const ConfigFile& f, const cfg::Config& c)
{
	if (f.getVertexFormat().size() != c.formats.size())
		return "number of vertex formats";
	for (std::size_t i = 0; i < c.formats.size(); ++i)
		if (!sameFormat(f.getVertexFormat()[i], c.formats[i]))
			return "vertex format";
	if (f.getIndexType() != c.type)
		return "index type";
	if (f.getPrimitiveType() != c.primitive)
		return "primitive type";
	if (f.getPatchPoints() != c.patch)
		return "patch points";
	if (f.getVertexStreams().size() != c.streams.size())
		return "number of vertex streams";
	for (std::size_t i = 0; i < c.streams.size(); ++i)
	{
		const ConfigFile::VertexStream& s = f.getVertexStreams()[i];
		if (!sameFormat(s.vertexFormat, c.streams[i].format))
			return "vertex format of a stream";
		if (s.indexType != c.streams[i].type)
			return "index type of a stream";
		if (s.vertexData != c.streams[i].vertexData)
			return "vertex data of a stream";
		if (s.indexType != vfc::IndexType::NoIndices && s.indexData != c.streams[i].indexData)
			return "index data of a stream";
	}
	if (f.getTransforms() != c.transforms)
		return "transforms";
	return nullptr;
}

struct Expected
{
	cfg::Verdict verdict;
	cfg::Config config;
	const char* why = "";
};

static Expected expect(const std::string& text, Value* tree = nullptr)
{
	Expected e;
	Value v;
	js::Verdict json = js::parse(v, text);
	if (tree)
		*tree = v;
	if (json == js::Verdict::NotJson)
	{
		e.verdict = cfg::Verdict::Reject;
		e.why = "not JSON";
		return e;
	}
	e.verdict = cfg::evaluate(v, e.config, &e.why);
	// A reader that takes what's unclear may also find it invalid, but nothing makes an invalid document valid.
	if (json == js::Verdict::Unclear)
		e.verdict = cfg::Verdict::Either;
	return e;
}

enum class Via { Text, Stream, File };

static void load(mc::Ctx& ctx, ConfigFile& file, const std::string& text, Via via = Via::Text)
{
	Expected e = expect(text);
	std::vector<std::string> messages;
	vfc::Converter::ErrorFunction onError = [&](const char* m) { messages.push_back(m); };
	bool ok;
	std::string name = fileName;
	if (via == Via::Text)
		ok = file.load(std::string(text).c_str(), fileName, onError);
	else if (via == Via::Stream)
	{
		std::istringstream stream(text);
		ok = file.load(stream, fileName, onError);
	}
	else
	{
		name = mc::args().scratch + "/config." + std::to_string(getpid());
		std::ofstream(name, std::ios::binary) << text;
		ok = file.load(name.c_str(), onError);
		unlink(name.c_str());
	}
	ctx.step();
	ctx.note("%s\n-> %s %s", text.c_str(), ok ? "accepted" : "rejected", messages.empty() ? "" : messages[0].c_str());
	std::string shown = text.substr(0, 1500);
	if (e.verdict == cfg::Verdict::Accept && !ok)
		ctx.fail("a valid configuration is rejected: %s\n%s", messages.empty() ? "" : messages[0].c_str(), shown.c_str());
	if (e.verdict == cfg::Verdict::Reject && ok)
		ctx.fail("an invalid configuration (%s) is accepted\n%s", e.why, shown.c_str());
	if (ok && !messages.empty())
		ctx.fail("accepted with a diagnostic: %s\n%s", messages[0].c_str(), shown.c_str());
	if (!ok)
	{
		bool named = false;
		for (auto& m : messages)
			named = named || m.find(name) != std::string::npos;
		if (!named)
			ctx.fail("rejected without a diagnostic that names the file\n%s", shown.c_str());
	}
	if (ok && e.verdict == cfg::Verdict::Accept)
	{
		if (const char* d = differs(file, e.config))
			ctx.fail("the %s of an accepted configuration is wrong\n%s", d, shown.c_str());
		ctx.nontrivial();
		ctx.cover("accepted");
	}
	else
		ctx.cover(ok ? "accepted (either)" : e.verdict == cfg::Verdict::Either ? "rejected (either)" : strcmp(e.why, "not JSON") ? "rejected by the schema" : "rejected, not JSON");
	ctx.state(mc::hashBytes(text.data(), text.size(), ok));
	ctx.trace();
}

static void load(mc::Ctx& ctx, const std::string& text, Via via = Via::Text)
{
	ConfigFile file;
	load(ctx, file, text, via);
}

static std::string render(mc::Ctx& ctx, const Value& v, unsigned style)
{
	std::string text;
	js::write(text, v, style);
	Value back;
	if (js::parse(back, text) == js::Verdict::NotJson || !(back == v))
		ctx.fail("harness: the document doesn't read back\n%s", text.c_str());
	return text;
}

static bool mutateOne(mc::Ctx& ctx, Value& v)
{
	std::vector<Node> nodes;
	collect(nodes, v, nullptr, 0);
	const Node& n = nodes[ctx.choose(static_cast<unsigned>(nodes.size()))];
	return mutate(n, ctx.choose(kMutations));
}

static void single(mc::Ctx& ctx)
{
	Value v = bases()[ctx.choose(static_cast<unsigned>(bases().size()))];
	if (!mutateOne(ctx, v))
		return;
	unsigned style = ctx.choose(3);
	load(ctx, render(ctx, v, style), static_cast<Via>(ctx.choose(3)));
}

static void twice(mc::Ctx& ctx)
{
	// Quick: the small documents in full; the large one in the thorough tier.
	unsigned count = static_cast<unsigned>(bases().size());
	Value v = bases()[ctx.thorough() ? ctx.choose(count) : 1 + ctx.choose(count - 1)];
	if (!mutateOne(ctx, v) || !mutateOne(ctx, v))
		return;
	load(ctx, render(ctx, v, 0));
}

// Name tables: every pair of layout and type in both formats, every enum name in every spelling.
static void elements(mc::Ctx& ctx)
{
	unsigned l = ctx.choose(static_cast<unsigned>(ref::layouts().size())), t = ctx.choose(static_cast<unsigned>(ref::typeNames().size()));
	bool rgba = ctx.flag(), output = ctx.flag();
	unsigned how = ctx.choose(4);
	std::string layout = rgba ? ref::layouts()[l].rgba : ref::layouts()[l].xyzw, type = ref::typeNames()[t];
	if (how < 3)
	{
		layout = recase(layout, how);
		type = recase(type, how);
	}
	Value v = bases()[1];
	Value e = element("a", layout.c_str(), type.c_str());
	if (output)
		v.members[0].second.items[0].items[0] = e;
	else
		v.members[1].second.items[0].members[0].second.items[0] = e;
	load(ctx, render(ctx, v, 0));
}

static void names(mc::Ctx& ctx) // enum names and their neighbourhood in each place
{
	std::vector<std::string> all;
	for (auto n : ref::primNames())
		all.push_back(n);
	for (auto n : {"UInt16", "UInt32", "UInt8", "UInt", "NoIndices", "Invalid", "Identity", "Bounds", "UNormToSNorm", "SNormToUNorm", "", "0"})
		all.push_back(n);
	std::string s = all[ctx.choose(static_cast<unsigned>(all.size()))];
	unsigned how = ctx.choose(9);
	if (how < 3)
		s = recase(s, how);
	else if (how == 4)
		s += "x";
	else if (how == 5)
		s = " " + s;
	else if (how == 6 && !s.empty())
		s.erase(0, 1);
	else if (how == 7 && !s.empty())
		s.pop_back();
	else if (how == 8)
		s += s;
	Value v = bases()[0];
	switch (ctx.choose(4))
	{
		case 0: v.members[1].second = Value::string(s); break;
		case 1: v.members[2].second = Value::string(s); break;
		case 2: v.members[4].second.items[0].members[2].second = Value::string(s); break;
		case 3: v.members[5].second.items[1].members[1].second = Value::string(s); break;
	}
	load(ctx, render(ctx, v, 0));
}

static void patches(mc::Ctx& ctx)
{
	static const char* numbers[] = {"1", "2", "3", "32", "65535", "65536", "2147483646", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807",
		"18446744073709551615", "18446744073709551617", "0", "-0", "-1", "-2147483648", "-2147483649", "-4294967295", "1.0", "3e0", "0.5", "1.5", "1e30", "-1.0", "1e-5", "300e-2"};
	Value v = bases()[0];
	v.members[3].second = Value::number(numbers[ctx.choose(sizeof(numbers)/sizeof(*numbers))]);
	v.members[2].second = Value::string(ref::primNames()[ctx.choose(static_cast<unsigned>(ref::primNames().size()))]);
	load(ctx, render(ctx, v, 0));
}

static void uniqueness(mc::Ctx& ctx) // element names over a small alphabet everywhere
{
	static const char* alphabet[] = {"a", "A", "b"};
	auto name = [&] { return alphabet[ctx.choose(3)]; };
	auto list = [&] {
		Value f(Kind::Array);
		unsigned n = ctx.range(1, 2);
		for (unsigned i = 0; i < n; ++i)
			f.items.push_back(element(name(), "X32", "Float"));
		return f;
	};
	Value v = bases()[1];
	Value out(Kind::Array);
	unsigned n = ctx.range(1, ctx.thorough() ? 3 : 2);
	for (unsigned i = 0; i < n; ++i)
		out.items.push_back(list());
	v.members[0].second = out;
	Value streams(Kind::Array);
	n = ctx.range(1, 2);
	for (unsigned i = 0; i < n; ++i)
		streams.items.push_back(object({{"vertexFormat", list()}, {"vertexData", Value::string("d")}}));
	v.members[1].second = streams;
	load(ctx, render(ctx, v, 0));
}

static void spread(mc::Ctx& ctx) // the same over more streams
{
	static const char* alphabet[] = {"a", "A", "b"};
	auto list = [&](unsigned max) {
		Value f(Kind::Array);
		unsigned n = ctx.range(1, max);
		for (unsigned i = 0; i < n; ++i)
			f.items.push_back(element(alphabet[ctx.choose(3)], "X32", "Float"));
		return f;
	};
	Value v = bases()[1];
	bool in = ctx.flag();
	Value out(Kind::Array), streams(Kind::Array);
	unsigned n = ctx.range(3, 5);
	for (unsigned i = 0; i < n; ++i)
	{
		Value f = list(n == 3 || ctx.thorough() ? 2 : 1);
		if (in)
			streams.items.push_back(object({{"vertexFormat", f}, {"vertexData", Value::string("d")}}));
		else
			out.items.push_back(f);
	}
	if (in)
		out.items.push_back(list(2));
	else
		for (auto name : alphabet)
		{
			Value f(Kind::Array);
			f.items.push_back(element(name, "X32", "Float"));
			streams.items.push_back(object({{"vertexFormat", f}, {"vertexData", Value::string("d")}}));
		}
	v.members[0].second = out;
	v.members[1].second = streams;
	load(ctx, render(ctx, v, 0));
}

static void strings(mc::Ctx& ctx) // names and data come through unchanged
{
	static const std::vector<std::string> units = [] {
		std::vector<std::string> r;
		for (int c = 1; c < 128; ++c)
			r.push_back(std::string(1, static_cast<char>(c)));
		for (auto w : {"\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xEF\xBF\xBF"})
			r.push_back(w);
		return r;
	}();
	std::string s = ctx.pick(units);
	unsigned form = ctx.choose(3);
	if (form == 1)
		s = "x" + s + "y";
	else if (form == 2)
		while (s.size() < 600)
			s += s;
	Value v = bases()[0];
	switch (ctx.choose(4))
	{
		case 0: v.members[0].second.items[0].items[0].members[0].second.text = s; break;
		case 1: v.members[4].second.items[0].members[1].second.text = s; break;
		case 2: v.members[4].second.items[0].members[3].second.text = s; break;
		case 3: v.members[5].second.items[0].members[0].second.text = s; break;
	}
	load(ctx, render(ctx, v, ctx.choose(2) ? 2 : 0));
}

// Strings with a NUL character: rejected, or names and data that come through whole. Never cut off.
static void nul(mc::Ctx& ctx)
{
	Value v = bases()[ctx.choose(static_cast<unsigned>(bases().size()))];
	std::vector<Node> nodes;
	collect(nodes, v, nullptr, 0);
	std::vector<Value*> strings;
	for (auto& n : nodes)
		if (n.value->is(Kind::String))
			strings.push_back(n.value);
	std::string& s = strings[ctx.choose(static_cast<unsigned>(strings.size()))]->text;
	switch (ctx.choose(5))
	{
		case 0: s += '\0'; break;
		case 1: s += std::string("\0x", 2); break;
		case 2: s = std::string(1, '\0'); break;
		case 3: s.insert(0, 1, '\0'); break;
		case 4: s.insert(s.size()/2, 1, '\0'); break;
	}
	std::string text = render(ctx, v, ctx.choose(3));
	cfg::Config want;
	const char* why = "";
	cfg::Verdict verdict = cfg::evaluate(v, want, &why);
	ConfigFile file;
	std::vector<std::string> messages;
	bool ok = file.load(text.c_str(), fileName, [&](const char* m) { messages.push_back(m); });
	ctx.step();
	ctx.note("%s\n-> %s %s", text.c_str(), ok ? "accepted" : "rejected", messages.empty() ? "" : messages[0].c_str());
	if (ok && verdict == cfg::Verdict::Reject)
		ctx.fail("an invalid configuration (%s) is accepted\n%s", why, text.c_str());
	if (ok)
		if (const char* d = differs(file, want))
			ctx.fail("the %s of an accepted configuration is wrong\n%s", d, text.c_str());
	if (ok != messages.empty() || (!ok && messages[0].find(fileName) == std::string::npos))
		ctx.fail("%s\n%s", ok ? "accepted with a diagnostic" : "rejected without a diagnostic that names the file", text.c_str());
	ctx.cover(ok ? "accepted" : "rejected by the schema");
	ctx.state(mc::hashBytes(text.data(), text.size(), ok));
	ctx.nontrivial();
	ctx.trace();
}

// A NUL byte anywhere in the text: not JSON, however complete it is before that.
static void nulBytes(mc::Ctx& ctx)
{
	std::string text = render(ctx, bases()[1 + ctx.choose(2)], ctx.choose(3));
	std::size_t at = ctx.choose(static_cast<unsigned>(text.size() + 1));
	if (at < text.size() && ctx.flag())
		text[at] = '\0';
	else
		text.insert(at, 1, '\0');
	if (ctx.flag())
		text += at == text.size() - 1 ? "{" : " ";
	load(ctx, text, ctx.flag() ? Via::Stream : Via::File);
}

static void truncated(mc::Ctx& ctx)
{
	unsigned which = ctx.choose(static_cast<unsigned>(bases().size()));
	std::string text = render(ctx, bases()[which], ctx.choose(3));
	std::size_t n = ctx.choose(static_cast<unsigned>(text.size() + 1));
	load(ctx, text.substr(0, n), static_cast<Via>(ctx.choose(2)));
}

static void corrupted(mc::Ctx& ctx) // any byte replaced by any other
{
	static const char some[] = "\x01\n !\"#,-.09:A[\\]n{}\x7F\xC3\xFF";
	unsigned which = ctx.choose(3);
	std::string text = render(ctx, bases()[which], 0);
	std::size_t at = ctx.choose(static_cast<unsigned>(text.size()));
	char c = ctx.thorough() || which == 1 ? static_cast<char>(1 + ctx.choose(255)) : some[ctx.choose(sizeof(some) - 1)];
	text[at] = c;
	load(ctx, text);
}

static void edited(mc::Ctx& ctx) // bytes of JSON's alphabet inserted, bytes removed or swapped
{
	static const char alphabet[] = "{}[]:,\"\\/ \n\t0-+.eEntfu\x01\x7F";
	unsigned which = ctx.thorough() ? ctx.choose(3) : 1;
	std::string text = render(ctx, bases()[which], 0);
	unsigned edits = ctx.range(1, ctx.thorough() && which == 1 ? 2 : 1);
	for (unsigned i = 0; i < edits; ++i)
	{
		std::size_t at = ctx.choose(static_cast<unsigned>(text.size() + 1));
		unsigned what = ctx.choose(sizeof(alphabet) + 1);
		if (what < sizeof(alphabet) - 1)
			text.insert(at, 1, alphabet[what]);
		else if (at >= text.size())
			return;
		else if (what == sizeof(alphabet) - 1)
			text.erase(at, 1);
		else if (at + 1 < text.size())
			std::swap(text[at], text[at + 1]);
	}
	load(ctx, text);
}

static void sizes(mc::Ctx& ctx) // around the sizes of read buffers
{
	static const unsigned around[] = {512, 1024, 4096, 8191, 8192, 16384, 65536};
	unsigned which = ctx.choose(3), target = around[ctx.choose(7)] - 2 + ctx.choose(5), where = ctx.choose(4);
	Value v = bases()[which];
	std::string text = render(ctx, v, 0);
	if (text.size() > target)
		return;
	std::string pad(target - text.size(), ' ');
	if (where == 0)
		text = pad + text;
	else if (where == 1)
		text += pad;
	else if (where == 2)
		text.insert(text.find(':') + 1, pad);
	else
	{
		if (pad.size() < 9)
			return;
		std::string extra = "\"x\":\"" + std::string(pad.size() - 7, 'q') + "\",";
		text.insert(1, extra);
	}
	load(ctx, text, static_cast<Via>(ctx.choose(3)));
}

static void nested(mc::Ctx& ctx) // deep nesting in an ignored member, complete or not
{
	static const unsigned depths[] = {1, 10, 100, 500, 1000, 1900};
	unsigned depth = depths[ctx.choose(6)];
	bool objects = ctx.flag();
	unsigned broken = ctx.choose(3);
	std::string deep;
	for (unsigned i = 0; i < depth; ++i)
		deep += objects ? "{\"a\":" : "[";
	if (objects)
		deep += "1";
	for (unsigned i = broken == 1 ? 1 : 0; i < depth; ++i)
		deep += objects ? "}" : "]";
	if (broken == 2)
		deep += "]";
	std::string text = render(ctx, bases()[1], 0);
	text.insert(1, "\"deep\":" + deep + ",");
	load(ctx, text);
}

static void histories(mc::Ctx& ctx) // an object used again: each load stands alone
{
	static const std::vector<std::string> texts = [] {
		std::vector<std::string> r;
		for (auto& b : bases())
		{
			r.emplace_back();
			js::write(r.back(), b);
		}
		auto with = [&](unsigned base, const char* member, Value v) {
			Value b = bases()[base];
			for (auto& m : b.members)
				if (m.first == member)
					m.second = v;
			r.emplace_back();
			js::write(r.back(), b);
		};
		with(0, "primitiveType", Value::string("TriangleStrip"));
		with(0, "primitiveType", Value(Kind::Null));
		with(0, "indexType", Value(Kind::Null));
		with(0, "vertexTransforms", Value(Kind::Array));
		with(0, "vertexTransforms", Value(Kind::True));
		with(0, "patchPoints", Value::number("7"));
		with(0, "patchPoints", Value::string("7"));
		with(0, "vertexStreams", Value(Kind::Array));
		with(0, "vertexFormat", Value(Kind::Array));
		r.push_back("{");
		r.push_back("");
		r.push_back("[]");
		return r;
	}();
	ConfigFile file;
	unsigned n = ctx.thorough() ? 4 : 3;
	for (unsigned i = 0; i < n; ++i)
		load(ctx, file, ctx.pick(texts));
}

static void opens(mc::Ctx& ctx) // files that can't be read
{
	unsigned kind = ctx.choose(3);
	std::string name = kind == 0 ? mc::args().scratch + "/missing.json" : kind == 1 ? mc::args().scratch : "";
	ConfigFile file;
	unsigned messages = 0;
	bool ok = file.load(name.c_str(), [&](const char* m) { messages += strstr(m, name.c_str()) != nullptr; });
	if (ok || messages == 0)
		ctx.fail("loading %s %s", kind == 0 ? "a missing file" : kind == 1 ? "a directory" : "an empty name", ok ? "succeeds" : "gives no diagnostic with its name");
	ctx.step();
	ctx.state(kind);
	ctx.nontrivial();
	ctx.trace();
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		s.push_back({"single", single, 3, false, 60, "3 complete documents, every node, 25 mutations, 3 ways to write it, from text, a stream and a file"});
		s.push_back({"twice", twice, 4, false, 60, thorough ? "3 documents, every two mutations of any nodes" : "the 2 smaller documents, every two mutations of any nodes"});
		s.push_back({"elements", elements, 2, false, 60, "every layout with every type, both spellings, 4 cases, on input and output"});
		s.push_back({"names", names, 2, false, 60, "every enum name and its neighbourhood in each of 4 places"});
		s.push_back({"patches", patches, 2, false, 60, "29 numbers with every primitive type"});
		s.push_back({"uniqueness", uniqueness, 4, false, 60, "element names over 3 letters, 1 to 2 output and input streams of 1 to 2 elements"});
		s.push_back({"spread", spread, 4, false, 60, std::string("element names over 3 letters, 3 to 5 output or input streams of 1 to 2 elements") + (thorough ? "" : " (1 in the longer ones)")});
		s.push_back({"strings", strings, 2, false, 60, "every character below U+0080 and 4 beyond, 3 forms, 4 places, literal and escaped"});
		s.push_back({"nul", nul, 2, false, 60, "every string of 3 documents with a NUL character in 5 places"});
		s.push_back({"nul-bytes", nulBytes, 3, false, 60, "a NUL byte in the text anywhere, instead of one or between two, from a stream and a file"});
		s.push_back({"truncated", truncated, 3, false, 60, "every prefix of 3 documents written in 3 ways"});
		s.push_back({"corrupted", corrupted, 3, false, 60, thorough ? "every byte of 3 documents replaced by every other byte" : "every byte of the smallest document replaced by every other byte, and of 2 more by 22 others"});
		s.push_back({"edited", edited, 3, false, 60, thorough ? "24 characters inserted anywhere, a byte removed or swapped, twice for the smallest document" : "24 characters inserted anywhere, a byte removed or swapped"});
		s.push_back({"sizes", sizes, 3, false, 60, "documents of sizes around 7 buffer sizes, padded in 4 ways"});
		s.push_back({"nested", nested, 2, false, 60, "ignored members nested up to 1900 deep, complete, unclosed and overclosed"});
		s.push_back({"histories", histories, 2, false, 60, std::string("every sequence of ") + (thorough ? "4" : "3") + " of 15 documents loaded into one object"});
		s.push_back({"opens", opens, 1, true, 60, "a missing file, a directory and an empty name"});
		return s;
	});
}
