// The tool on inputs one and two corruptions away from convertible ones: it fails cleanly exactly when they can't be converted.
#include "tooljob.h"
using namespace tool;
using js::Value;

struct El
{
	const char *name, *layout, *type;
	El(const char* n, const char* l, const char* t) : name(n), layout(l), type(t) {}
};

struct Item // a data item of a stream
{
	std::string bytes;
	int unit;           // size of a vertex or index
	bool file;          // in a file, otherwise embedded
	std::string given;  // overrides what the configuration says
	enum { Normal, Missing, Directory } state = Normal;
};

struct Stream
{
	std::vector<El> format;
	unsigned type;
	Item vertices, indices;
};

struct Job
{
	bool viaStdin = false;
	std::vector<std::vector<El>> formats;
	unsigned type = 0;
	const char* primitive = nullptr;
	const char* patch = nullptr;
	std::vector<Stream> streams;
	std::vector<std::pair<const char*, const char*>> transforms;
	std::string output;
	std::string blocker;  // a file or directory that's in the way, "d:" or "f:" and its path
	std::string extra;    // text for an ignored member
	bool mustFail = false, unclear = false;
};

static std::string f32(std::initializer_list<float> v) { return bytes<float>(v); }

static std::vector<Job> makeBases()
{
	std::vector<Job> r;
	{
		Job j;
		j.formats = {{El("position", "X16Y16", "SNorm"), El("color", "X8Y8Z8W8", "UNorm")}};
		j.type = 1;
		j.primitive = "TriangleList";
		j.streams.push_back(Stream{{El("position", "X32Y32", "Float")}, 1, Item{f32({-1, -1, 1, -1, -1, 1, 1, 1}), 8, true, "", Item::Normal}, Item{indexBytes({0, 1, 2, 2, 1, 3}, false), 2, true, "", Item::Normal}});
		j.streams.push_back(Stream{{El("color", "X32Y32Z32", "Float")}, 2, Item{f32({1, 0, 0, 0, 1, 0}), 12, false, "", Item::Normal}, Item{indexBytes({0, 0, 0, 1, 1, 1}, true), 4, false, "", Item::Normal}});
		j.transforms = {{"position", "Bounds"}, {"color", "Identity"}};
		j.output = "out/dir";
		r.push_back(j);
	}
	{
		Job j;
		j.viaStdin = true;
		j.formats = {{El("a", "X32", "UInt")}, {El("b", "X8Y8", "Int")}};
		j.primitive = "PatchList";
		j.patch = "2";
		j.streams.push_back(Stream{{El("a", "X8", "UInt"), El("b", "X16Y16", "Int")}, 0, Item{std::string("\0\1\2\3\4\5\6\7\x8\x9\xA\xB\xC\xD\xE\xF\x10\x11\x12\x13", 20), 5, false, "", Item::Normal}, Item{"", 1, false, "", Item::Normal}});
		r.push_back(j);
	}
	{
		Job j;
		j.formats = {{El("p", "X32", "Float")}};
		j.type = 2;
		j.primitive = "TriangleStrip";
		j.streams.push_back(Stream{{El("p", "X32", "Float")}, 2, Item{f32({0, 1, 2, 3, 4, 5}), 4, true, "", Item::Normal}, Item{indexBytes({0, 1, 2, 3, 0xFFFFFFFF, 3, 4, 5}, true), 4, true, "", Item::Normal}});
		r.push_back(j);
	}
	return r;
}

static bool corruptItem(Item& i, unsigned k)
{
	switch (k)
	{
		case 0: if (i.bytes.empty()) return false; i.bytes.pop_back(); return true;
		case 1: if (i.bytes.size() < static_cast<std::size_t>(i.unit)) return false; i.bytes.resize(i.bytes.size() - static_cast<std::size_t>(i.unit)); return true;
		case 2: i.bytes += 'x'; return true;
		case 3: i.bytes += std::string(static_cast<std::size_t>(i.unit), '\0'); return true;
		case 4: i.bytes.clear(); return true;
		case 5: i.file = !i.file; return true;
		case 6: i.file = true; i.state = Item::Missing; return true;
		case 7: i.file = true; i.state = Item::Directory; return true;
		case 8: i.given = ""; i.file = true; i.state = Item::Missing; i.given = "missing/dir/data"; return true;
		case 9: i.given = "base64:" + encode64(i.bytes) + "A"; return true;
		case 10: i.given = "base64:" + encode64(i.bytes) + "===="; return true;
		case 11: i.given = "base64:!" + encode64(i.bytes); return true;
		case 12: i.given = "base64:AA==" + encode64(i.bytes); return true;
		case 13: i.given = "base64:"; return true;
		case 14: i.given = "base64"; return true;
		case 15: i.given = "bAsE64:" + encode64(i.bytes); return true;
		case 16: i.bytes += i.bytes; return true;
		case 17: i.given = "."; return true;
		case 18: i.file = true; i.given = std::string("kept\0x", 6); return true;
		case 19: i.given = "base64:" + encode64(i.bytes) + std::string(1, '\0'); return true;
		case 20: i.given = "base64:" + encode64(i.bytes) + "\n"; return true;
		case 21: i.given = "base64: " + encode64(i.bytes); return true;
	}
	return false;
}
constexpr unsigned kItem = 22;

static bool corruptIndex(Stream& s, unsigned k)
{
	static const std::uint32_t specials[] = {4, 2, 6, 65534, 65535, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFEu, 0xFFFFFFFFu};
	unsigned n = s.type == 0 ? 0 : static_cast<unsigned>(s.indices.bytes.size())/static_cast<unsigned>(s.indices.unit);
	unsigned at = k/9;
	if (at >= 2 || n == 0)
		return false;
	std::string v = indexBytes({specials[k%9]}, s.type == 2);
	s.indices.bytes.replace((at ? n - 1 : 0)*v.size(), v.size(), v);
	return true;
}
constexpr unsigned kIndex = 18;

static const char* primitives[] = {"PointList", "LineList", "LineStrip", "TriangleList", "TriangleStrip", "TriangleFan", "PatchList"};

constexpr unsigned kWhole = 42;
static bool corruptWhole(Job& j, unsigned k)
{
	if (j.formats.empty() || j.formats[0].empty() || j.streams.empty())
		return false;
	Stream& s = j.streams[0];
	if (k < 7)
	{
		j.primitive = primitives[k];
		return true;
	}
	switch (k)
	{
		case 7: j.patch = nullptr; return true;
		case 8: j.patch = "0"; return true;
		case 9: j.patch = "-1"; return true;
		case 10: j.patch = "3"; return true;
		case 11: j.patch = "2147483647"; return true;
		case 12: case 13: case 14: j.type = k - 12; return true;
		case 15: case 16: case 17: s.type = k - 15; s.indices.unit = k == 17 ? 4 : k == 16 ? 2 : 1; return true;
		case 18: j.formats[0].pop_back(); return true;
		case 19: j.formats.pop_back(); return true;
		case 20: j.formats.push_back({El("new", "X32", "Float")}); return true;
		case 21: j.formats.push_back(j.formats[0]); return true;
		case 22: if (j.formats[0].empty()) return false; j.formats[0][0].name = "other"; return true;
		case 23: if (j.formats[0].empty()) return false; j.formats[0][0].layout = "X64"; return true;
		case 24: if (j.formats[0].empty()) return false; j.formats[0][0].type = "UNorm"; return true;
		case 25: s.format[0].name = "other"; return true;
		case 26: s.format.push_back(El("extra", "X8", "UInt")); return true;
		case 27: s.format.push_back(s.format[0]); return true;
		case 28: s.format[0].layout = "X64Y64Z64W64"; return true;
		case 29: j.streams.push_back(Stream(s)); return true;
		case 30: j.streams.erase(j.streams.begin()); return true;
		case 31: j.streams.push_back(Stream(s)); j.streams.back().format = {El("unused", "X32Y32", "Float")}; return true;
		case 32: j.transforms.push_back({"missing", "Bounds"}); return true;
		case 33: j.transforms.push_back({"", "Bounds"}); return true;
		case 34: j.transforms.push_back({"position", "UNormToSNorm"}); return true;
		case 35: j.transforms.push_back({"p", "SNormToUNorm"}); return true;
		case 36: j.viaStdin = !j.viaStdin; return true;
		// What's in the way of the output.
		case 37: j.output = "blocked"; j.blocker = "f:blocked"; j.mustFail = true; return true;
		case 38: j.output = "blocked/below/it"; j.blocker = "f:blocked"; j.mustFail = true; return true;
		case 39: j.output = "taken"; j.blocker = "d:taken/vertices.0.dat"; j.mustFail = true; return true;
		case 40: j.output = "kept"; j.blocker = "f:kept/other.dat"; j.mustFail = false; return true;
		case 41: j.output = std::string(300, 'x'); j.mustFail = true; return true;
	}
	return false;
}

static const unsigned kCorruptions = kWhole + 4*kItem + 2*kIndex + 1;

static bool corrupt(Job& j, unsigned k)
{
	if (k == 0)
		return true;
	--k;
	if (k < kWhole)
		return corruptWhole(j, k);
	k -= kWhole;
	if (k < 4*kItem)
	{
		unsigned which = k/kItem;
		if (which/2 >= j.streams.size())
			return false;
		Stream& s = j.streams[which/2];
		return corruptItem(which%2 ? s.indices : s.vertices, k%kItem);
	}
	k -= 4*kItem;
	return k/kIndex < j.streams.size() && corruptIndex(j.streams[k/kIndex], k%kIndex);
}

static Value formatValue(const std::vector<El>& f)
{
	Value v(js::Kind::Array);
	for (auto& e : f)
		v.items.push_back(element(e.name, e.layout, e.type));
	return v;
}

static Value itemValue(const Scratch& scratch, const std::string& dir, const char* name, const Item& i)
{
	std::string path = scratch.path() + "/" + dir + name;
	if (i.file && i.state == Item::Normal)
		put(path, i.bytes);
	else if (i.state == Item::Directory)
		::mkdir(path.c_str(), 0755);
	if (!i.given.empty())
		return text(i.given);
	return text(i.file ? name : "base64:" + encode64(i.bytes));
}

static std::string build(Scratch& scratch, const Job& j)
{
	std::string dir = j.viaStdin ? "" : "cfg/";
	Value doc(js::Kind::Object), formats(js::Kind::Array), streams(js::Kind::Array), transforms(js::Kind::Array);
	for (auto& f : j.formats)
		formats.items.push_back(formatValue(f));
	doc.members.emplace_back("vertexFormat", formats);
	if (j.type)
		doc.members.emplace_back("indexType", text(j.type == 1 ? "UInt16" : "UInt32"));
	if (j.primitive)
		doc.members.emplace_back("primitiveType", text(j.primitive));
	if (j.patch)
		doc.members.emplace_back("patchPoints", Value::number(j.patch));
	for (std::size_t i = 0; i < j.streams.size(); ++i)
	{
		const Stream& s = j.streams[i];
		std::string n = std::to_string(i);
		Value v = object({{"vertexFormat", formatValue(s.format)}, {"vertexData", itemValue(scratch, dir, ("v" + n).c_str(), s.vertices)}});
		if (s.type)
		{
			v.members.emplace_back("indexType", text(s.type == 1 ? "UInt16" : "UInt32"));
			v.members.emplace_back("indexData", itemValue(scratch, dir, ("i" + n).c_str(), s.indices));
		}
		streams.items.push_back(v);
	}
	doc.members.emplace_back("vertexStreams", streams);
	for (auto& t : j.transforms)
		transforms.items.push_back(object({{"name", text(t.first)}, {"transform", text(t.second)}}));
	doc.members.emplace_back("vertexTransforms", transforms);
	std::string config;
	js::write(config, doc);
	return config;
}

static void execute(mc::Ctx& ctx, Scratch& scratch, const Job& j, const std::string& config)
{
	std::string dir = j.viaStdin ? "" : "cfg/", input;
	std::vector<std::string> args;
	if (j.viaStdin)
		input = config;
	else
	{
		put(scratch.path() + "/" + dir + "config.json", config);
		args = {"--input", dir + "config.json"};
	}
	if (!j.output.empty())
	{
		args.push_back("--output");
		args.push_back(j.output);
	}
	if (!j.blocker.empty())
	{
		std::string p = j.blocker.substr(2);
		if (j.blocker[0] == 'd')
			scratch.dir(p);
		else
		{
			if (p.find('/') != std::string::npos)
				scratch.dir(p.substr(0, p.find('/')));
			put(scratch.path() + "/" + p, "already here");
		}
	}
	Outcome o = predict(config, scratch.path() + "/" + dir);
	if (j.mustFail && o.kind == Outcome::Converted)
	{
		o.kind = Outcome::Failed;
		o.why = "the output can't be written";
	}
	if (j.unclear)
		o.kind = Outcome::Unclear;
	Result r = run(ctx, scratch.path(), scratch.path(), args, input);
	ctx.note("%s\n-> %s, predicted: %s %s\n%s", config.substr(0, 2000).c_str(), r.ended().c_str(), o.kind == Outcome::Converted ? "converts" : "fails", o.why.c_str(), brief(r.err).c_str());
	judge(ctx, r, o, scratch.path(), j.output);
	std::string kept;
	if (!j.blocker.empty() && j.blocker[0] == 'f' && (!get(scratch.path() + "/" + j.blocker.substr(2), kept) || kept != "already here"))
		ctx.fail("the tool changes the file %s", j.blocker.c_str() + 2);
	ctx.cover(o.kind == Outcome::Converted ? "converts" : o.kind == Outcome::Failed ? "fails" : "unclear");
	if (o.kind == Outcome::Failed)
		ctx.nontrivial();
	ctx.state(mc::hashBytes(config.data(), config.size(), mc::hashBytes(j.output.data(), j.output.size())));
	ctx.trace();
}

static const std::vector<Job>& bases()
{
	static const std::vector<Job> b = makeBases();
	return b;
}

static void pairs(mc::Ctx& ctx)
{
	Job j = bases()[ctx.choose(3)];
	unsigned a = ctx.choose(kCorruptions), b = a ? ctx.choose(a + 1) : 0;
	// Each unordered pair in both orders only where they'd touch the same thing: the later one wins.
	if (!corrupt(j, a) || j.streams.empty() || !corrupt(j, b) || j.streams.empty())
		return;
	Scratch scratch;
	scratch.dir("cfg");
	execute(ctx, scratch, j, build(scratch, j));
}

static void indices(mc::Ctx& ctx) // special values anywhere in the index data, two at a time
{
	static const std::uint32_t specials[] = {0, 3, 4, 5, 6, 65534, 65535, 65536, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFEu, 0xFFFFFFFFu};
	Job j = bases()[2];
	Stream& s = j.streams[0];
	static const char* some[] = {"PointList", "LineStrip", "TriangleList", "TriangleStrip", "TriangleFan"};
	j.primitive = some[ctx.choose(5)];
	j.type = ctx.choose(3);
	s.type = ctx.range(1, 2);
	s.indices.file = ctx.flag();
	std::vector<std::uint32_t> v{0, 1, 2, 3, 4, 5};
	unsigned a = ctx.choose(6);
	v[a] = specials[ctx.choose(12)];
	if (ctx.thorough() || (a == 2 && s.indices.file && j.type == s.type && std::string(j.primitive) == "TriangleStrip"))
	{
		unsigned b = ctx.choose(6);
		v[b] = specials[ctx.choose(12)];
	}
	s.indices.bytes = indexBytes(v, s.type == 2);
	s.indices.unit = s.type == 2 ? 4 : 2;
	Scratch scratch;
	scratch.dir("cfg");
	execute(ctx, scratch, j, build(scratch, j));
}

static void truncated(mc::Ctx& ctx)
{
	unsigned which = ctx.choose(3);
	Scratch scratch;
	scratch.dir("cfg");
	Job j = bases()[which];
	std::string config = build(scratch, j);
	std::size_t n = ctx.choose(static_cast<unsigned>(config.size() + 1));
	static const char* tails[] = {"", "}", "\"", "]}", "\xFF"};
	config = config.substr(0, n) + tails[ctx.thorough() ? ctx.choose(5) : 0];
	execute(ctx, scratch, j, config);
}

static void around(mc::Ctx& ctx) // something before, after or within an otherwise complete configuration
{
	static const std::vector<std::string> junk = {"x", "}", "]", "{}", "[]", " 1", "\"\"", ",", ":", "null", "//c", "/*c*/", "#", "\x01", "\v", "\f", "\xA0", "\xFF", "\xC2\x85", ";", "'", "()",
		"{", "[", "\"", "\\", "-", "NaN", std::string(1, '\0'), std::string("\0x", 2), "\n\n{}", "\x1A", "\x04", "\xE2\x80\xA8"};
	Job j = bases()[ctx.choose(3)];
	j.viaStdin = ctx.flag();
	if (j.viaStdin)
		for (auto& s : j.streams)
			s.vertices.file = s.indices.file = false;
	Scratch scratch;
	scratch.dir("cfg");
	std::string config = build(scratch, j);
	std::string what = ctx.pick(junk);
	switch (ctx.choose(5))
	{
		case 0: config += what; break;
		case 1: config += "\n" + what + "\n"; break;
		case 2: config = what + config; break;
		case 3: config.insert(config.size() - 1, what); break;
		case 4: config.insert(1, what); break;
	}
	execute(ctx, scratch, j, config);
}

static void repeats(mc::Ctx& ctx) // several configurations
{
	unsigned a = ctx.choose(3), b = ctx.choose(3);
	static const char* between[] = {"", "\n", " ", ",", "\n\n", ";"};
	std::string sep = between[ctx.choose(6)];
	Job first = bases()[a], second = bases()[b];
	Scratch scratch;
	scratch.dir("cfg");
	std::string config = build(scratch, second);
	config = build(scratch, first) + sep + config;
	first.mustFail = true;
	execute(ctx, scratch, first, config);
}

static void nested(mc::Ctx& ctx)
{
	static const unsigned depths[] = {10, 1000, 20000, 200000, 1000000};
	unsigned depth = depths[ctx.choose(5)], shape = ctx.choose(4);
	Job j = bases()[1];
	j.viaStdin = ctx.flag();
	Scratch scratch;
	scratch.dir("cfg");
	std::string config = build(scratch, j), open, close;
	for (unsigned i = 0; i < depth; ++i)
	{
		open += shape%2 ? "{\"a\":" : "[";
		close += shape%2 ? '}' : ']';
	}
	config.insert(1, "\"deep\":" + open + "0" + (shape < 2 ? close : "") + ",");
	if (shape < 2)
		j.unclear = depth > 1000; // a limit on the depth is fine, a crash isn't
	else
		j.mustFail = true;
	if (shape == 2 && depth > 1000)
		config = open; // nothing but the opening
	execute(ctx, scratch, j, config);
}

static void inputs(mc::Ctx& ctx) // configurations that can't be read
{
	Scratch scratch;
	scratch.dir("cfg");
	std::string path;
	switch (ctx.choose(6))
	{
		case 0: path = "missing.json"; break;
		case 1: path = "cfg"; break;
		case 2: path = "cfg/missing/config.json"; break;
		case 3: path = "."; break;
		case 4: path = "empty.json"; put(scratch.path() + "/empty.json", ""); break;
		case 5: path = std::string(5000, 'x'); break;
	}
	std::vector<std::string> args{"-i", path};
	if (ctx.flag())
	{
		args.push_back("-o");
		args.push_back("out");
	}
	Outcome o;
	o.why = "no configuration";
	Result r = run(ctx, scratch.path(), scratch.path(), args);
	judge(ctx, r, o, scratch.path(), "");
	ctx.state(mc::hashBytes(path.data(), path.size(), args.size()));
	ctx.nontrivial();
	ctx.trace();
}

// Any number of errors in one run: exit statuses have 8 bits.
static void manyErrors(mc::Ctx& ctx)
{
	static const unsigned more[] = {384, 511, 512, 513, 768, 1023, 1024, 1025, 2048, 4096, 65536};
	unsigned c = ctx.choose(271 + 10 + ctx.thorough()), n = c <= 270 ? c : more[c - 271], kind = ctx.choose(4);
	if (n > 4096 && kind != 3)
		return;
	Value out(js::Kind::Array), first(js::Kind::Array), streams(js::Kind::Array), transforms(js::Kind::Array), format = array({element("a", "X8", "UInt")});
	std::string data = "base64:YWJj", indices;
	auto stream = [&](Value f) { return object({{"vertexFormat", f}, {"vertexData", text("base64:" + std::string(f.items.size()*4, 'Y'))}}); };
	first.items.push_back(element("a", "X8", "UInt"));
	if (kind == 0) // elements that no stream has
		for (unsigned i = 0; i < n; ++i)
			first.items.push_back(element("missing" + std::to_string(i), "X8", "UInt"));
	if (kind == 1) // in as many output streams
		for (unsigned i = 0; i < n; ++i)
			out.items.push_back(array({element("missing" + std::to_string(i), "X8", "UInt")}));
	out.items.push_back(first);
	Value s = object({{"vertexFormat", format}, {"vertexData", text(data)}});
	if (kind == 3) // indices out of range
	{
		std::string coded = encode64(std::string(n*2, '\x40') + std::string(2, '\0'));
		s.members.emplace_back("indexType", text("UInt16"));
		s.members.emplace_back("indexData", text("base64:" + coded));
	}
	streams.items.push_back(s);
	if (kind == 2) // streams that supply an element again
		for (unsigned i = 0; i < n; ++i)
			streams.items.push_back(s);
	Scratch scratch;
	std::string config;
	js::write(config, object({{"vertexFormat", out}, {"primitiveType", text("PointList")}, {"vertexStreams", streams}}));
	Outcome o = predict(config, scratch.path());
	if ((o.kind == Outcome::Converted) != (n == 0))
		ctx.fail("harness: %u errors of kind %u but the prediction is different: %s", n, kind, o.why.c_str());
	Result r = run(ctx, scratch.path(), scratch.path(), {}, config);
	judge(ctx, r, o, scratch.path(), "");
	ctx.note("%u errors of kind %u: %s", n, kind, r.ended().c_str());
	ctx.state(mc::mix(n*8 + kind));
	if (n)
		ctx.nontrivial();
	ctx.trace();
}

static void huge(mc::Ctx& ctx) // more vertices than a 32-bit count holds, in a sparse file
{
	Scratch scratch;
	std::string data = scratch.path() + "/data";
	unsigned extra = ctx.choose(2);
	put(data, "");
	if (truncate(data.c_str(), (1LL << 32) + extra) != 0)
		ctx.fail("harness: no sparse file");
	put(scratch.path() + "/config.json", R"({"vertexFormat":[[{"name":"a","layout":"X8","type":"UInt"}]],"primitiveType":"PointList",)"
		R"("vertexStreams":[{"vertexFormat":[{"name":"a","layout":"X8","type":"UInt"}],"vertexData":"data"}]})");
	timeLimit() = 400;
	Result r = run(ctx, scratch.path(), scratch.path(), {"-i", "config.json"});
	timeLimit() = 30;
	unlink(data.c_str());
	if (r.exit == 0 || r.signal || !r.out.empty() || r.err.empty())
		ctx.fail("given 2^32 + %u vertices the tool %s: %s", extra, r.ended().c_str(), r.err.c_str());
	ctx.state(mc::mix(extra));
	ctx.nontrivial();
	ctx.trace();
}

// Results and configurations around the sizes that 31 and 32 bits count.
static void large(mc::Ctx& ctx)
{
	Scratch scratch;
	unsigned kind = ctx.choose(4);
	timeLimit() = 400;
	fileLimit() = 1ULL << 33;
	Result r;
	if (kind < 3)
	{
		// Embedded data of 0.7, 2 and 4 GB from a sparse file.
		static const long long n[] = {16780000, 51000001, 100800001}; // 1 more than a multiple of 3;
		std::string data = scratch.path() + "/data";
		put(data, "");
		if (truncate(data.c_str(), n[kind]) != 0)
			ctx.fail("harness: no sparse file");
		put(scratch.path() + "/config.json", R"({"vertexFormat":[[{"name":"a","layout":"X64Y64Z64W64","type":"Float"}]],"primitiveType":"PointList",)"
			R"("vertexStreams":[{"vertexFormat":[{"name":"a","layout":"X8","type":"UInt"}],"vertexData":"data"}]})");
		r = run(ctx, scratch.path(), scratch.path(), {"-i", "config.json"});
		unlink(data.c_str());
		if (r.exit == 0)
		{
			// Complete: one W of 1.0 after three zeros in every vertex.
			std::size_t at = r.out.find("base64:"), end = at == std::string::npos ? at : r.out.find('"', at);
			std::size_t length = (static_cast<std::size_t>(n[kind])*32 + 2)/3*4;
			if (r.signal || !r.err.empty() || end == std::string::npos || end - at - 7 != length || r.out.compare(end - 8, 8, "AAAA8D8=") != 0)
				ctx.fail("given %lld vertices to embed the tool %s with %zu bytes of output: %s", n[kind], r.ended().c_str(), r.out.size(), r.err.c_str());
		}
		else if (kind < 2)
			ctx.fail("given %lld vertices to embed the tool %s: %s", n[kind], r.ended().c_str(), r.err.c_str());
	}
	else
	{
		std::string config = R"({"vertexFormat":[[{"name":"a","layout":"X8","type":"UInt"}]],"primitiveType":"PointList",)"
			R"("vertexStreams":[{"vertexFormat":[{"name":"a","layout":"X64Y64Z64W64","type":"Float"}],"vertexData":"base64:)";
		config.append(134250000ULL*32, 'A');
		config += "\"}]}";
		r = run(ctx, scratch.path(), scratch.path(), {"-o", "out"}, config);
		if (r.exit == 0 && r.out.find("\"vertexCount\": 100687500") == std::string::npos)
			ctx.fail("given a string of 4 GB the tool %s: %.1000s", r.ended().c_str(), r.out.c_str());
	}
	timeLimit() = 30;
	fileLimit() = 1u << 28;
	if (r.exit != 0 && (r.signal || !r.out.empty() || r.err.empty()))
		ctx.fail("given large data (%u) the tool %s: %s", kind, r.ended().c_str(), r.err.c_str());
	ctx.note("%u: %s", kind, r.ended().c_str());
	ctx.state(mc::mix(kind));
	ctx.nontrivial();
	ctx.trace();
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		s.push_back({"pairs", pairs, 3, false, 90, "3 convertible inputs, every pair of " + std::to_string(kCorruptions - 1) + " corruptions of files, embedded data, indices, formats, options and the output place"});
		s.push_back({"indices", indices, 4, false, 90, thorough ? "12 values at every two positions of the index data, 5 primitive types, every index type" : "12 values at every position of the index data (and a second one for some), 5 primitive types, every index type"});
		s.push_back({"truncated", truncated, 2, false, 90, "every prefix of 3 configurations"});
		s.push_back({"around", around, 3, false, 90, "34 pieces of text before, after or within 3 complete configurations, from a file or standard input"});
		s.push_back({"repeats", repeats, 1, false, 90, "one complete configuration after another"});
		s.push_back({"nested", nested, 2, false, 90, "JSON nested up to a million deep, complete and not"});
		s.push_back({"inputs", inputs, 1, false, 90, "configuration files that are missing, empty, directories or have impossible names"});
		s.push_back({"many", manyErrors, 2, false, 90, "any number of missing elements, missing output streams, repeated elements or indices out of range up to 270, and 10 numbers up to 4096"});
		if (thorough)
		{
			s.push_back({"large", large, 0, true, 900, "embedded results of 0.7, 2 and 4 GB, a configuration of 4 GB"});
			s.push_back({"huge", huge, 0, true, 900, "2^32 and 2^32 + 1 vertices"});
		}
		return s;
	});
}
