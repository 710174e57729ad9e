// The tool's output against the library's result for the same data, in every input and output mode.
#include "tooljob.h"
using namespace tool;
using js::Value;

static std::string floats(unsigned n, unsigned comps, unsigned seed)
{
	std::string s;
	for (unsigned i = 0; i < n*comps; ++i)
	{
		float f = static_cast<float>(static_cast<int>((i*7 + seed*3)%23) - 11)/11.0f;
		s.append(reinterpret_cast<const char*>(&f), 4);
	}
	return s;
}

// One data item, embedded or in a file beside the configuration.
static Value item(const Scratch& scratch, const std::string& dir, const char* name, const std::string& data, unsigned how)
{
	static const char* prefixes[] = {"base64:", "BASE64:", "Base64:"};
	if (how == 0)
		return text("base64:" + encode64(data));
	if (how >= 3)
		return text(prefixes[how - 2] + encode64(data));
	put(scratch.path() + "/" + dir + name, data);
	return text(how == 1 ? name : scratch.path() + "/" + dir + name);
}

static void finish(mc::Ctx& ctx, Scratch& scratch, const Value& doc, const std::string& dir, bool viaStdin, const std::string& output, bool again = true)
{
	std::string config;
	js::write(config, doc);
	std::vector<std::string> args;
	std::string input;
	if (viaStdin)
		input = config;
	else
	{
		put(scratch.path() + "/" + dir + "config.json", config);
		args = {"-i", dir + "config.json"};
	}
	if (!output.empty())
	{
		args.push_back("-o");
		args.push_back(output);
	}
	Outcome o = predict(config, scratch.path() + "/" + dir);
	ctx.note("%s\n%s: %s", config.c_str(), o.kind == Outcome::Converted ? "converts" : "fails", o.why.c_str());
	std::map<std::string, std::string> before, after;
	snapshot(before, scratch.path());
	Result r = run(ctx, scratch.path(), scratch.path(), args, input);
	std::set<std::string> files = judge(ctx, r, o, scratch.path(), output);
	if (o.kind == Outcome::Converted)
	{
		ctx.nontrivial();
		ctx.cover(o.indices.size() > 1 ? "converted, several index buffers" : o.indices.size() == 1 ? "converted, indices" : "converted, no indices");
		snapshot(after, scratch.path());
		for (auto& b : before)
			if (!after.count(b.first) || after[b.first] != b.second)
				ctx.fail("the tool changes %s", b.first.c_str());
		for (auto& a : after)
			if (a.second != "<dir>" && !before.count(a.first) && !files.count(scratch.path() + "/" + a.first))
				ctx.fail("the tool leaves %s, which the result doesn't name", a.first.c_str());
	}
	else
		ctx.cover("fails");
	if (o.kind == Outcome::Converted && !files.empty() && again)
	{
		// Over the files of another run, which were longer.
		for (auto& f : files)
		{
			std::string data;
			get(f, data);
			put(f, data + "left from an earlier run" + data);
		}
		Result second = run(ctx, scratch.path(), scratch.path(), args, input);
		judge(ctx, second, o, scratch.path(), output);
		if (second.out != r.out)
			ctx.fail("a second run prints something else\n%s\n%s", brief(r.out).c_str(), brief(second.out).c_str());
		ctx.cover("output files replaced");
	}
	ctx.state(mc::hashBytes(r.out.data(), r.out.size(), mc::hashBytes(config.data(), config.size())));
	ctx.trace();
}

static const char* primitives[] = {"PointList", "LineList", "LineStrip", "TriangleList", "TriangleStrip", "TriangleFan", "PatchList"};

static void modes(mc::Ctx& ctx)
{
	Scratch scratch;
	bool viaStdin = ctx.flag(), toFiles = ctx.flag();
	unsigned first = ctx.choose(3), second = ctx.choose(3); // how each stream's items are given
	unsigned outType = ctx.choose(3), inTypes = ctx.choose(6);
	unsigned prim = ctx.choose(7), shape = ctx.choose(3), transforms = ctx.thorough() ? ctx.choose(3) : prim%3;
	unsigned in1 = inTypes%3, in2 = shape == 2 ? inTypes/3 + (inTypes/3 == 1) : 0;
	if (shape != 2 && (inTypes >= 3 || second > 0))
		return;
	std::string dir = viaStdin ? "" : "cfg/";
	scratch.dir("cfg");
	auto indexName = [](unsigned t) { return t == 1 ? "UInt16" : "uint32"; };
	Value doc(js::Kind::Object), out(js::Kind::Array), streams(js::Kind::Array);
	out.items.push_back(array({element("position", "X16Y16Z16", "SNorm")}));
	if (shape == 1)
		out.items[0].items.push_back(element("color", "R8G8B8A8", "UNorm"));
	if (shape == 2)
		out.items.push_back(array({element("color", "R8G8B8A8", "UNorm"), element("uv", "X32Y32", "Float")}));
	doc.members.emplace_back("vertexFormat", out);
	if (outType)
		doc.members.emplace_back("indexType", text(indexName(outType)));
	doc.members.emplace_back("primitiveType", text(primitives[prim]));
	doc.members.emplace_back("patchPoints", Value::number("3"));
	const std::vector<std::uint32_t> a{0, 1, 2, 2, 1, 3}, b{3, 3, 1, 0, 2, 2};
	auto stream = [&](Value format, unsigned comps, unsigned type, unsigned how, unsigned n) {
		std::string data = floats(type ? 4 : 6, comps, n);
		Value s = object({{"vertexFormat", format}, {"vertexData", item(scratch, dir, n ? "v1.dat" : "v0.dat", data, how)}});
		if (type)
		{
			s.members.emplace_back("indexType", text(indexName(type)));
			s.members.emplace_back("indexData", item(scratch, dir, n ? "i1.dat" : "i0.dat", indexBytes(n ? b : a, type == 2), how));
		}
		streams.items.push_back(s);
	};
	Value format = array({element("position", "X32Y32Z32", "Float")});
	if (shape == 1)
		format.items.push_back(element("color", "X32Y32Z32W32", "Float"));
	stream(format, shape == 1 ? 7 : 3, in1, first, 0);
	if (shape == 2)
		stream(array({element("uv", "X32Y32", "Float"), element("unused", "X32", "Float"), element("color", "X32Y32Z32", "Float")}), 6, in2, second, 1);
	doc.members.emplace_back("vertexStreams", streams);
	if (transforms)
	{
		Value t = array({object({{"name", text("position")}, {"transform", text(transforms == 1 ? "bounds" : "UNormToSNorm")}})});
		if (shape > 0)
			t.items.push_back(object({{"name", text("color")}, {"transform", text(transforms == 1 ? "SNormToUNorm" : "Bounds")}}));
		doc.members.emplace_back("vertexTransforms", t);
	}
	finish(ctx, scratch, doc, dir, viaStdin, toFiles ? "out" : "");
}

// Data sizes around buffer sizes, bytes of every value, files and base64.
static void sizes(mc::Ctx& ctx)
{
	static const unsigned around[] = {4, 16, 1024, 4096, 8192, 512, 12288, 65536};
	Scratch scratch;
	unsigned n = around[ctx.choose(ctx.thorough() ? 8 : 5)] - 2 + ctx.choose(5), how = ctx.choose(5), fill = ctx.choose(2);
	bool viaStdin = ctx.flag(), toFiles = ctx.flag(), indexed = ctx.flag();
	scratch.dir("cfg");
	std::string dir = viaStdin ? "" : "cfg/", data, idx;
	std::vector<std::uint32_t> indices;
	for (unsigned i = 0; i < n; ++i)
	{
		data += static_cast<char>(fill ? i*151 + (i >> 8) : "\r\n\x1A\x00\xFF\n"[i%6]);
		indices.push_back((i*2654435761u)%n);
	}
	Value s = object({{"vertexFormat", array({element("b", "X8", "UInt")})}, {"vertexData", item(scratch, dir, "v.dat", data, how)}});
	if (indexed)
	{
		s.members.emplace_back("indexType", text("UInt32"));
		s.members.emplace_back("indexData", item(scratch, dir, "i.dat", indexBytes(indices, true), how));
	}
	Value doc = object({{"vertexFormat", array({array({element("b", "X8", "UInt")})})}, {"primitiveType", text("PointList")}, {"vertexStreams", array({s})}});
	if (indexed && fill)
		doc.members.emplace_back("indexType", text("UInt32"));
	finish(ctx, scratch, doc, dir, viaStdin, toFiles ? "out" : "");
}

// Output paths of every length around the small-string size, and several index buffers.
static void large(mc::Ctx& ctx)
{
	Scratch scratch;
	unsigned len = ctx.choose(5), prim = ctx.choose(2), wide = ctx.choose(2), in = ctx.choose(3);
	static const unsigned lengths[] = {0, 1, 2, 12, 40};
	std::vector<std::uint32_t> indices;
	std::string data;
	unsigned n = 3*((wide ? 70000 : 140000)/3);
	for (std::uint32_t i = 0; i < n; ++i)
	{
		std::uint32_t v = i*2654435761u;
		data.append(reinterpret_cast<const char*>(&v), 4);
	}
	Value s = object({{"vertexFormat", array({element("p", "X32", "UInt")})}, {"vertexData", item(scratch, "", "v.dat", data, in ? 1 : ctx.choose(2))}});
	if (in)
	{
		// More indices than 16 bits count, most vertices used again.
		unsigned used = in == 1 ? 60000 : n;
		for (std::uint32_t i = 0; i < n; ++i)
			indices.push_back((i*7)%used);
		s.members.emplace_back("indexType", text(in == 1 ? "UInt16" : "UInt32"));
		s.members.emplace_back("indexData", item(scratch, "", "i.dat", indexBytes(indices, in == 2), len%2));
	}
	Value doc = object({{"vertexFormat", array({array({element("p", "X32", "UInt")})})}, {"indexType", text(wide ? "UInt32" : "UInt16")},
		{"primitiveType", text(prim ? "TriangleList" : "PointList")}, {"vertexStreams", array({s})}});
	finish(ctx, scratch, doc, "", true, std::string(lengths[len], 'o'));
}

// Data of a megabyte or more, and as many bytes of indices.
static void megabytes(mc::Ctx& ctx)
{
	static const std::uint32_t counts[] = {65537, 65535, 65536, 262145, 262143, 262144, 524289, 1048577};
	Scratch scratch;
	std::uint32_t n = counts[ctx.choose(ctx.thorough() ? 8 : 5)];
	bool embedded = ctx.flag(), toFiles = ctx.flag(), indexed = ctx.flag();
	std::string data(n*std::size_t(16), '\0');
	std::vector<std::uint32_t> indices(n);
	for (std::uint32_t i = 0; i < n; ++i)
	{
		std::uint32_t v[4] = {i*2654435761u, i, ~i, i*40503u + 7};
		std::memcpy(&data[i*std::size_t(16)], v, 16);
		indices[i] = n - 1 - i;
	}
	Value s = object({{"vertexFormat", array({element("p", "X32Y32Z32W32", "UInt")})}, {"vertexData", item(scratch, "", "v.dat", data, embedded)}});
	if (indexed)
	{
		s.members.emplace_back("indexType", text("UInt32"));
		s.members.emplace_back("indexData", item(scratch, "", "i.dat", indexBytes(indices, true), embedded));
	}
	Value doc = object({{"vertexFormat", array({array({element("p", "X32Y32Z32W32", "UInt")})})}, {"primitiveType", text("PointList")}, {"vertexStreams", array({s})}});
	if (indexed)
		doc.members.emplace_back("indexType", text("UInt32"));
	finish(ctx, scratch, doc, "", true, toFiles ? "out" : "");
}

static void lengths(mc::Ctx& ctx) // names, paths and data around the small-string size
{
	Scratch scratch;
	unsigned n = ctx.range(1, 40), vertices = ctx.range(1, 16);
	bool toFiles = ctx.flag();
	std::string name(n, 'n'), data;
	for (unsigned i = 0; i < vertices; ++i)
		data += static_cast<char>(i*37);
	std::string file = name + ".d";
	Value s = object({{"vertexFormat", array({element(name, "X8", "UInt")})}, {"vertexData", item(scratch, "", file.c_str(), data, vertices%2)},
		{"indexType", text("UInt16")}, {"indexData", item(scratch, "", (file + "i").c_str(), indexBytes(std::vector<std::uint32_t>(vertices, vertices - 1), false), vertices%2)}});
	Value s2 = object({{"vertexFormat", array({element(name + "2", "X8", "UInt")})}, {"vertexData", item(scratch, "", (file + "2").c_str(), data, vertices%2)}});
	Value doc = object({{"vertexFormat", array({array({element(name, "X16", "UInt")}), array({element(name + "2", "X32", "UInt")})})}, {"indexType", text("UInt16")},
		{"primitiveType", text("PointList")}, {"vertexStreams", array({s, s2})}});
	finish(ctx, scratch, doc, "", true, toFiles ? std::string(n, 'o') : "");
}

// Every output format from one input, so that each layout's and type's name and size come through.
static void formats(mc::Ctx& ctx)
{
	Scratch scratch;
	unsigned l = ctx.choose(static_cast<unsigned>(ref::layouts().size())), t = ctx.choose(5);
	if (!ref::valid(static_cast<vfc::ElementLayout>(l), static_cast<vfc::ElementType>(t)))
		return;
	bool toFiles = ctx.flag();
	unsigned transform = ctx.choose(4);
	static const char* transforms[] = {"Identity", "Bounds", "UNormToSNorm", "SNormToUNorm"};
	Value s = object({{"vertexFormat", array({element("p", "X32Y32Z32W32", "Float")})}, {"vertexData", item(scratch, "", "v", floats(9, 4, 1), 0)}});
	Value doc = object({{"vertexFormat", array({array({element("p", ref::layouts()[l].rgba, ref::typeNames()[t])})})}, {"vertexStreams", array({s})},
		{"vertexTransforms", array({object({{"name", text("p")}, {"transform", text(transforms[transform])}})})}});
	finish(ctx, scratch, doc, "", true, toFiles ? "out" : "");
}

// Output streams and index buffers by the dozen.
static void many(mc::Ctx& ctx)
{
	static const unsigned counts[] = {8, 9, 10, 11, 12, 99, 101, 102};
	Scratch scratch;
	bool buffers = ctx.flag(), toFiles = ctx.flag();
	unsigned n = buffers ? (ctx.thorough() ? 12 : 11) : counts[ctx.choose(8)], in = buffers ? 1 : 1 + ctx.choose(3);
	Value out(js::Kind::Array), streams(js::Kind::Array), transforms(js::Kind::Array);
	if (buffers)
	{
		// Patches that each need all the indices there are.
		std::string data(n*65535, 'p');
		for (unsigned i = 0; i < n; ++i)
			data[i*65535 + i] = static_cast<char>(i);
		out.items.push_back(array({element("p", "X8", "UInt")}));
		streams.items.push_back(object({{"vertexFormat", array({element("p", "X8", "UInt")})}, {"vertexData", item(scratch, "", "v.dat", data, 1)}}));
		finish(ctx, scratch, object({{"vertexFormat", out}, {"indexType", text("UInt16")}, {"primitiveType", text("PatchList")}, {"patchPoints", Value::number("65535")}, {"vertexStreams", streams}}),
			"", true, toFiles ? "out" : "", false);
		return;
	}
	// in: every element from a stream of its own, from one stream, or from streams of four.
	for (unsigned i = 0; i < n; ++i)
	{
		std::string name = "element" + std::to_string(i);
		out.items.push_back(array({element(name, i%2 ? "X16" : "X32", "UInt")}));
		std::string data;
		unsigned per = in == 1 ? 1 : in == 2 ? n : 4;
		if (i%per == 0)
		{
			Value format(js::Kind::Array);
			unsigned size = std::min(per, n - i);
			for (unsigned k = 0; k < size; ++k)
				format.items.push_back(element("element" + std::to_string(i + size - 1 - k), "X8", "UInt"));
			for (unsigned k = 0; k < size*5; ++k)
				data += static_cast<char>(i*29 + k*7);
			Value s = object({{"vertexFormat", format}, {"vertexData", item(scratch, "", ("v" + std::to_string(i)).c_str(), data, i/per%2)}});
			s.members.emplace_back("indexType", text("UInt16"));
			s.members.emplace_back("indexData", item(scratch, "", ("i" + std::to_string(i)).c_str(), indexBytes({i%5, (i + 3)%5, i/5%5}, false), i/per%3%2));
			streams.items.push_back(s);
		}
		if (i%3 == 0)
			transforms.items.push_back(object({{"name", text(name)}, {"transform", text(i%2 ? "Bounds" : "SNormToUNorm")}}));
	}
	finish(ctx, scratch, object({{"vertexFormat", out}, {"indexType", text("UInt16")}, {"primitiveType", text("TriangleList")}, {"vertexStreams", streams}, {"vertexTransforms", transforms}}),
		"", true, toFiles ? "out" : "");
}

// Several items from the same file, by the same path or others.
static void shared(mc::Ctx& ctx)
{
	Scratch scratch;
	bool viaStdin = ctx.flag(), toFiles = ctx.flag();
	std::string dir = viaStdin ? "" : "cfg/";
	scratch.dir("cfg");
	scratch.dir(dir + "sub");
	// Each is valid as vertices and as indices.
	std::string a = indexBytes({3, 1, 4, 0, 5, 9, 2, 6, 11, 8, 10, 7}, true), b = indexBytes({2, 7, 1, 8, 11, 0, 4, 5, 9, 3, 6, 10}, true);
	put(scratch.path() + "/" + dir + "a.dat", a);
	put(scratch.path() + "/" + dir + "b.dat", b);
	unsigned ways = ctx.thorough() ? 6 : 4;
	auto pick = [&](unsigned k) {
		switch (k)
		{
			case 0: return text("a.dat");
			case 1: return text("b.dat");
			case 2: return text("./a.dat");
			case 3: return text("base64:" + encode64(a));
			case 4: return text("sub/../b.dat");
			default: return text(scratch.path() + "/" + dir + "a.dat");
		}
	};
	Value out(js::Kind::Array), streams(js::Kind::Array);
	for (unsigned i = 0; i < 2; ++i)
	{
		std::string name = i ? "q" : "p";
		out.items.push_back(element(name, "X32", "UInt"));
		Value s = object({{"vertexFormat", array({element(name, "X32", "UInt")})}, {"vertexData", pick(ctx.choose(ways))}});
		unsigned k = ctx.choose(ways + 1);
		if (k < ways)
		{
			s.members.emplace_back("indexType", text("UInt32"));
			s.members.emplace_back("indexData", pick(k));
		}
		streams.items.push_back(s);
	}
	finish(ctx, scratch, object({{"vertexFormat", array({out})}, {"indexType", text("UInt16")}, {"primitiveType", text("PointList")}, {"vertexStreams", streams}}), dir, viaStdin, toFiles ? "out" : "", false);
}

// Data that is in the files the same run writes, or replaces.
static void own(mc::Ctx& ctx)
{
	Scratch scratch;
	bool viaStdin = ctx.flag();
	std::string dir = viaStdin ? "" : "cfg/";
	scratch.dir("cfg");
	scratch.dir("out");
	static const char* const places[] = {"out/vertices.0.dat", "out/vertices.1.dat", "out/indices.0.dat", "other.dat"};
	std::string a = indexBytes({3, 1, 4, 0, 5, 9, 2, 6, 11, 8, 10, 7}, true), b = indexBytes({2, 7, 1, 8, 11, 0, 4, 5, 9, 3, 6, 10}, true);
	std::string data[] = {a, b, a + b, b + a};
	unsigned there = ctx.choose(2); // the other files are there too
	Value out(js::Kind::Array), streams(js::Kind::Array);
	std::set<unsigned> used;
	for (unsigned i = 0; i < 2; ++i)
	{
		std::string name = i ? "q" : "p";
		out.items.push_back(array({element(name, "X32", "UInt")}));
		auto pick = [&] {
			unsigned k = ctx.choose(4);
			used.insert(k);
			return text(scratch.path() + "/" + places[k]);
		};
		Value s = object({{"vertexFormat", array({element(name, "X32", "UInt")})}, {"vertexData", pick()}});
		s.members.emplace_back("indexType", text("UInt32"));
		s.members.emplace_back("indexData", pick());
		streams.items.push_back(s);
	}
	for (unsigned k = 0; k < 4; ++k)
		if (there || used.count(k))
			put(scratch.path() + "/" + places[k], data[k < 2 ? k : k%2]);
	std::string config, input;
	js::write(config, object({{"vertexFormat", out}, {"indexType", text("UInt16")}, {"primitiveType", text("PointList")}, {"vertexStreams", streams}}));
	std::vector<std::string> args = {"-o", "out"};
	if (viaStdin)
		input = config;
	else
	{
		put(scratch.path() + "/" + dir + "config.json", config);
		args.insert(args.begin(), {"-i", dir + "config.json"});
	}
	Outcome o = predict(config, scratch.path() + "/" + dir);
	if (o.kind != Outcome::Converted)
		ctx.fail("harness: %s", o.why.c_str());
	Result r = run(ctx, scratch.path(), scratch.path(), args, input);
	judge(ctx, r, o, scratch.path(), "out");
	ctx.note("%s", config.c_str());
	ctx.nontrivial();
	ctx.state(mc::hashBytes(r.out.data(), r.out.size(), mc::hashBytes(config.data(), config.size(), there)));
	ctx.trace();
}

// Names and paths that differ from others in one character.
static void characters(mc::Ctx& ctx)
{
	Scratch scratch;
	unsigned at = ctx.choose(3), c = ctx.range(1, 126), kind = ctx.choose(2);
	if (kind == 1 && c == '/')
		return;
	std::string plain = "pq", variant = plain;
	variant.insert(variant.begin() + at, static_cast<char>(c));
	std::string f1 = kind ? plain : "v1", f2 = kind ? variant : "v2", n2 = kind ? "r" : variant;
	if (kind)
	{
		put(scratch.path() + "/" + f1, "ABCDEF");
		put(scratch.path() + "/" + f2, "uvwxyz");
	}
	else
	{
		put(scratch.path() + "/v1", "ABCDEF");
		put(scratch.path() + "/v2", "uvwxyz");
	}
	bool swap = ctx.flag();
	Value e1 = element(plain, "X8", "UInt"), e2 = element(n2, "X8", "UInt");
	Value s1 = object({{"vertexFormat", array({e1})}, {"vertexData", text(f1)}}), s2 = object({{"vertexFormat", array({e2})}, {"vertexData", text(f2)}});
	Value t = object({{"name", text(swap ? plain : n2)}, {"transform", text("SNormToUNorm")}});
	Value doc = object({{"vertexFormat", array({swap ? array({e2, e1}) : array({e1, e2})})}, {"primitiveType", text("PointList")},
		{"vertexStreams", swap ? array({s2, s1}) : array({s1, s2})}, {"vertexTransforms", array({t})}});
	finish(ctx, scratch, doc, "", true, kind ? variant + "2" : "", false);
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		s.push_back({"modes", modes, 5, false, 90, "configuration from a file or standard input, data embedded, relative or absolute, output embedded or in files, every index type in and out, every primitive type, 1 to 2 streams, 3 sets of transforms (in the quick tier one per primitive type)"});
		s.push_back({"sizes", sizes, 3, false, 90, std::string("data of ") + (thorough ? "40" : "25") + " sizes around buffer sizes, 2 fills, 5 ways to give it, both output modes, indexed and not"});
		s.push_back({"formats", formats, 2, false, 90, "every output layout and type with every transform, both output modes"});
		s.push_back({"lengths", lengths, 2, false, 90, "names and paths of 1 to 40 characters, 1 to 16 vertices, both output modes"});
		s.push_back({"megabytes", megabytes, 2, false, 120, std::string(thorough ? "8" : "5") + " numbers of 16-byte vertices from 65535 to " + (thorough ? "1048577" : "262145") + ", embedded or in files, with and without 32-bit indices"});
		s.push_back({"large", large, 2, false, 120, "70000 and 140000 vertices, unindexed or with as many 16- or 32-bit indices, in one or several index buffers, output paths of 5 lengths"});
		s.push_back({"shared", shared, 4, false, 90, std::string("two streams whose vertices and indices come from any of ") + (thorough ? "6" : "4") + " places, of which most are the same file by any path, both output modes"});
		s.push_back({"own", own, 3, false, 90, "two streams whose vertices and indices come from any of 3 files that the run itself writes or another, read from standard input or a file"});
		s.push_back({"characters", characters, 3, false, 90, "two element names, two data files or data and output files whose names differ in one inserted character, all of ASCII at 3 places, in either order"});
		s.push_back({"many", many, 3, false, 120, "8 to 102 output streams from as many, a quarter as many or one input stream, and a dozen index buffers, both output modes"});
		return s;
	});
}
