// Path functions over all short strings, and runs with every shape of input, data and output path in a scratch tree.
#include "tooljob.h"
#include "Path.h"
using namespace tool;
using js::Value;

struct Denoted // what a path denotes, without looking at the file system
{
	bool absolute;
	std::vector<std::string> parts;
	bool operator==(const Denoted& o) const { return absolute == o.absolute && parts == o.parts; }
};

static Denoted denoted(const std::string& p)
{
	Denoted d{!p.empty() && p[0] == '/', {}};
	std::string part;
	for (char c : p + "/")
		if (c != '/')
			part += c;
		else
		{
			if (!part.empty() && part != ".")
				d.parts.push_back(part);
			part.clear();
		}
	return d;
}

static void split(mc::Ctx& ctx)
{
	static const char alphabet[] = "/.a\\B~";
	unsigned n = ctx.choose(ctx.thorough() ? 9 : 8), letters = ctx.thorough() ? 6 : 4;
	std::string p;
	for (unsigned i = 0; i < n; ++i)
		p += alphabet[ctx.choose(letters)];
	bool absolute = path::isAbsolute(p);
	std::string file = path::getFileName(p), parent = path::getParentDirectory(p), joined = path::join(parent, file);
	ctx.step(4);
	ctx.note("'%s': directory '%s', file name '%s', joined '%s'", p.c_str(), parent.c_str(), file.c_str(), joined.c_str());
	if (absolute != denoted(p).absolute)
		ctx.fail("'%s' is %s", p.c_str(), absolute ? "absolute" : "relative");
	if (file != p.substr(p.rfind('/') == std::string::npos ? 0 : p.rfind('/') + 1))
		ctx.fail("the file name of '%s' is '%s'", p.c_str(), file.c_str());
	Denoted want = denoted(p.substr(0, p.size() - file.size()));
	if (!(denoted(parent) == want))
		ctx.fail("the directory of '%s' is '%s'", p.c_str(), parent.c_str());
	if (!(denoted(joined) == denoted(p)))
		ctx.fail("'%s' splits into '%s' and '%s', which join to '%s'", p.c_str(), parent.c_str(), file.c_str(), joined.c_str());
	// Going up always ends.
	std::string up = p;
	for (unsigned i = 0; i <= n + 1; ++i)
		up = path::getParentDirectory(up);
	if (up != path::getParentDirectory(up))
		ctx.fail("the directories above '%s' never end", p.c_str());
	if (p.find('/') != std::string::npos)
		ctx.nontrivial();
	ctx.state(mc::hashBytes(p.data(), p.size()));
	ctx.trace();
}

static void join(mc::Ctx& ctx)
{
	static const char alphabet[] = "/.aB\\";
	std::string a, b;
	unsigned max = ctx.thorough() ? 5 : 4;
	for (unsigned i = ctx.choose(max + 1); i > 0; --i)
		a += alphabet[ctx.choose(5)];
	for (unsigned i = ctx.choose(max + 1); i > 0; --i)
		b += alphabet[ctx.choose(5)];
	std::string j = path::join(a, b);
	ctx.step();
	Denoted want = denoted(b);
	if (!want.absolute)
	{
		Denoted left = denoted(a);
		want.absolute = left.absolute;
		want.parts.insert(want.parts.begin(), left.parts.begin(), left.parts.end());
	}
	if (!(denoted(j) == want))
		ctx.fail("'%s' and '%s' join to '%s'", a.c_str(), b.c_str(), j.c_str());
	if (!a.empty() && !b.empty())
		ctx.nontrivial();
	ctx.note("'%s' + '%s' = '%s'", a.c_str(), b.c_str(), j.c_str());
	ctx.state(mc::hashBytes(j.data(), j.size(), mc::hashBytes(a.data(), a.size())));
	ctx.trace();
}

// In these, @ stands for the scratch root.
static const char* inputs[] = {"", "config.json", "./config.json", "cfg/config.json", "cfg//config.json", "./cfg/./config.json", "cfg/../cfg/config.json", "../up/config.json",
	"@/up/config.json", "@//work/cfg//config.json", "cfg/deep/config.json", "../work/config.json", "weird dir/config.json"};
static const char* datas[] = {"only.dat", "v.dat", "./v.dat", "sub/v.dat", "sub//v.dat", "../v.dat", "sub/../v.dat", "@/up/v.dat", "@/work//cfg/v.dat"};
static const char* outputs[] = {"", "out", "out/", "./out", "out/a/b/c", "out//x///y/", "../sib/out", "@/abs/out", "@/abs//deep/out/", "exist", "exist/", "exist/sub", ".", "..", "./", "cfg/../out2",
	"new/../out3", "cfg", "weird dir/o ut", "exist/../exist/sub/more", "out.d/..x/.hidden", "a", "a/b", "-o", "out/./in", "out/in/."};

static std::string at(const char* s, const std::string& root)
{
	std::string r = s;
	if (!r.empty() && r[0] == '@')
		r = root + r.substr(1);
	return r;
}

// Only the named files and the directories of the output path may be new or change.
static void changes(mc::Ctx& ctx, const std::map<std::string, std::string>& before, const std::map<std::string, std::string>& after, const std::set<std::string>& files,
	const std::string& root, const std::string& cwd, const std::string& out)
{
	// The directories that may come into being.
	std::set<std::string> dirs;
	if (!out.empty())
		for (std::size_t i = 1; i <= out.size(); ++i)
			if (i == out.size() || out[i] == '/')
			{
				char full[8192];
				normalise(full, sizeof(full), cwd.c_str(), out.substr(0, i).c_str());
				dirs.insert(full);
			}
	for (auto& b : before)
	{
		std::string name = root + "/" + b.first;
		if (!after.count(b.first))
			ctx.fail("%s is gone", b.first.c_str());
		if (after.at(b.first) != b.second && !files.count(name))
			ctx.fail("%s changes", b.first.c_str());
	}
	for (auto& a : after)
	{
		std::string name = root + "/" + a.first;
		if (before.count(a.first))
			continue;
		if (a.second == "<dir>" ? !dirs.count(name) : !files.count(name))
			ctx.fail("%s is new", a.first.c_str());
		struct stat st;
		mode_t need = a.second == "<dir>" ? 0700 : 0600;
		if (stat(name.c_str(), &st) == 0 && (st.st_mode & need) != need)
			ctx.fail("%s has mode %o, so its owner can't use it", a.first.c_str(), st.st_mode & 07777u);
	}
}

static void runs(mc::Ctx& ctx)
{
	std::string in = inputs[ctx.choose(sizeof(inputs)/sizeof(*inputs))];
	std::string out = outputs[ctx.choose(sizeof(outputs)/sizeof(*outputs))];
	std::string vertexPath = datas[ctx.choose(9)], indexPath = datas[ctx.thorough() ? ctx.choose(9) : vertexPath == datas[1] ? out.size()%2 : 1 + (out.size() + vertexPath.size())%8];
	Scratch scratch;
	const std::string& root = scratch.path();
	in = at(in.c_str(), root);
	out = at(out.c_str(), root);
	vertexPath = at(vertexPath.c_str(), root);
	indexPath = at(indexPath.c_str(), root);
	std::string cwd = root + "/work";
	// The same names with other data in every directory: a path resolved against the wrong one gives something else.
	unsigned serial = 0;
	std::string data;
	for (auto d : {"", "/sub", "/up", "/up/sub", "/work", "/work/sub", "/work/cfg", "/work/cfg/sub", "/work/cfg/deep", "/work/cfg/deep/sub", "/work/weird dir", "/work/weird dir/sub", "/work/exist"})
	{
		if (*d)
			scratch.dir(d + 1);
		++serial;
		// Enough values to be both vertices and indices.
		data.clear();
		for (unsigned i = 0; i < 6; ++i)
			data += indexBytes({(i*serial)%6}, false);
		data += indexBytes({(serial*serial + serial)%6, serial%6, (serial/6)%6}, false);
		put(root + d + "/v.dat", data);
	}
	// Only in the working directory and the root: nothing for a configuration elsewhere.
	get(cwd + "/v.dat", data);
	put(cwd + "/only.dat", data);
	put(root + "/only.dat", data);
	put(cwd + "/exist/keep.txt", "keep");
	put(cwd + "/exist/vertices.0.dat", std::string(1000, 'o'));
	put(cwd + "/exist/vertices.9.dat", "other run");
	Value doc = object({{"vertexFormat", array({array({element("a", "X16", "UInt")})})}, {"indexType", text("UInt16")}, {"primitiveType", text("PointList")},
		{"vertexStreams", array({object({{"vertexFormat", array({element("a", "X16", "UInt")})}, {"vertexData", text(vertexPath)}, {"indexType", text("UInt16")}, {"indexData", text(indexPath)}})})}});
	std::string config, base;
	js::write(config, doc);
	std::vector<std::string> args;
	if (in.empty())
		base = cwd;
	else
	{
		std::string file = in[0] == '/' ? in : cwd + "/" + in;
		base = file.substr(0, file.rfind('/'));
		put(file, config);
		args = {"-i", in};
	}
	if (!out.empty())
	{
		args.push_back("-o");
		args.push_back(out);
	}
	Outcome o = predict(config, base);
	std::map<std::string, std::string> before, after;
	snapshot(before, root);
	Result r = run(ctx, root, cwd, args, in.empty() ? config : "");
	ctx.note("-i '%s' -o '%s', data '%s' and '%s' -> %s, predicted %s %s", in.c_str(), out.c_str(), vertexPath.c_str(), indexPath.c_str(), r.ended().c_str(), o.kind == Outcome::Converted ? "converts" : "fails", o.why.c_str());
	std::set<std::string> files = judge(ctx, r, o, cwd, out);
	snapshot(after, root);
	changes(ctx, before, after, files, root, cwd, out);
	if (o.kind == Outcome::Converted)
	{
		ctx.nontrivial();
		ctx.cover(out.empty() ? "embedded output" : "output directory");
	}
	else
		ctx.cover("data path leads nowhere");
	ctx.state(mc::hashBytes(r.out.data(), r.out.size(), mc::hashBytes(out.data(), out.size(), mc::hashBytes(in.data(), in.size()))));
	ctx.trace();
}

// A path to the directory "target" (or, if that's empty, to a deep one) of exactly so many characters.
static std::string padded(std::size_t length, unsigned style, const std::string& target)
{
	static const char* fill[] = {"", "./", "pad/../", "//"};
	std::string s;
	if (style == 0)
		while (s.size() + target.size() < length)
		{
			std::size_t n = std::min<std::size_t>(100, length - target.size() - s.size());
			s += n == 1 ? "/" : std::string(n - 1, static_cast<char>('a' + s.size()/100%26)) + "/";
		}
	else
		while (s.size() + target.size() < length)
		{
			s += s.empty() ? "./" : fill[style];
			if (s.size() + target.size() > length)
				s.resize(length - target.size(), '/');
		}
	return s + target;
}

// Paths of every length around the sizes of buffers, of each kind.
static void longer(mc::Ctx& ctx)
{
	static const unsigned sizes[] = {64, 128, 256, 512, 1024, 2048, 3000};
	unsigned around = ctx.thorough() ? 5 : 2;
	std::size_t length = sizes[ctx.choose(7)] - around + ctx.choose(2*around + 1);
	unsigned style = ctx.choose(4), which = ctx.choose(5);
	Scratch scratch;
	const std::string& root = scratch.path();
	std::string cwd = root + "/work", config, data, base = cwd, out, vertexPath = "v.dat", indexPath = "i.dat";
	scratch.dir("work/pad");
	scratch.dir("work/cfg/pad");
	std::string dir = "cfg/";
	if (which == 0)
		dir = padded(length - strlen("config.json"), style, "cfg/"); // the configuration's
	else if (which == 1)
		vertexPath = padded(length, style, "v.dat");
	else if (which == 2)
		vertexPath = root + "/" + padded(std::max(length, root.size() + 20) - root.size() - 1, style, "v.dat"); // absolute
	else
		out = padded(length, style, which == 3 ? "out" : "out/");
	base = cwd + "/" + dir.substr(0, dir.size() - 1);
	scratch.dir("work/" + dir.substr(0, dir.size() - 1));
	auto place = [&](const std::string& path, const std::string& content) {
		std::string full = path[0] == '/' ? path : base + "/" + path;
		if (style == 0 || path[0] == '/')
			for (std::size_t i = root.size() + 1; i < full.size(); ++i)
				if (full[i] == '/')
					::mkdir(full.substr(0, i).c_str(), 0755);
		if (path[0] == '/')
			::mkdir((root + "/pad").c_str(), 0755);
		put(full, content);
	};
	place(vertexPath, indexBytes({5, 6, 7}, false));
	place(indexPath, indexBytes({2, 0, 1, 2}, false));
	Value doc = object({{"vertexFormat", array({array({element("a", "X16", "UInt")})})}, {"indexType", text("UInt16")}, {"primitiveType", text("PointList")},
		{"vertexStreams", array({object({{"vertexFormat", array({element("a", "X16", "UInt")})}, {"vertexData", text(vertexPath)}, {"indexType", text("UInt16")}, {"indexData", text(indexPath)}})})}});
	js::write(config, doc);
	put(cwd + "/" + dir + "config.json", config);
	std::vector<std::string> args{"-i", dir + "config.json"};
	if (!out.empty())
	{
		args.push_back("-o");
		args.push_back(out);
	}
	Outcome o = predict(config, base);
	if (o.kind != Outcome::Converted)
		ctx.fail("harness: the configuration isn't one that converts: %s", o.why.c_str());
	std::map<std::string, std::string> before, after;
	snapshot(before, root);
	Result r = run(ctx, root, cwd, args);
	ctx.note("%s path of %zu characters, style %u -> %s", which == 0 ? "configuration" : which < 3 ? "data" : "output", length, style, r.ended().c_str());
	std::set<std::string> files = judge(ctx, r, o, cwd, out);
	snapshot(after, root);
	changes(ctx, before, after, files, root, cwd, out);
	ctx.nontrivial();
	ctx.state(mc::hashBytes(r.out.data(), r.out.size(), length*20 + style*5 + which));
	ctx.trace();
}

static Value configuration(const std::string& vertexPath, const std::string& indexPath)
{
	return object({{"vertexFormat", array({array({element("a", "X16", "UInt")})})}, {"indexType", text("UInt16")}, {"primitiveType", text("PointList")},
		{"vertexStreams", array({object({{"vertexFormat", array({element("a", "X16", "UInt")})}, {"vertexData", text(vertexPath)}, {"indexType", text("UInt16")}, {"indexData", text(indexPath)}})})}});
}

// Names that mean something elsewhere: every character, and what shells, URLs and other systems make of some.
static const std::vector<std::string>& strange()
{
	static std::vector<std::string> s;
	if (s.empty())
	{
		for (int c = 1; c < 128; ++c)
			if (c != '/')
				for (const char* shape : {"?", "?x", "x?", "x?y", "??"})
				{
					std::string n = shape;
					std::size_t at;
					while ((at = n.find('?')) != n.npos)
						n[at] = c == '?' ? '\x01' : static_cast<char>(c);
					for (char& k : n)
						if (c == '?' && k == '\x01')
							k = '?';
					if (n != "." && n != "..")
						s.push_back(n);
				}
		for (const char* n : {"~root", "~nobody", "$HOME", "${HOME}", "$(pwd)", "`pwd`", "%HOME%", "%20", "a%2fb", "%2e%2e", "%s%n", "file:", "http:", "C:", "c:x", "nul", "NUL", "con", "aux", "*.dat", "[ab]", "{a,b}",
				"a b", " a", "a ", "...", ".hidden", "..x", "x..", ". .", "--", "-i", "--help", "base64", "Base64", "base64;", "null", "stdin", "@file", "\xC3\xA9", "e\xCC\x81", "\xE6\x97\xA5\xE6\x9C\xAC",
				"\xF0\x9F\x98\x80", "\xC2\xA0", "\xE2\x80\xA8", "\xEF\xBB\xBF", "\xEF\xBC\x8F", "\r\n", "a\\..\\b", "..\\x", "\\\\host\\x", "\\x41", "a:b", "a;b", "a\tb", "&lt;", "\\u0041", "\"q\""})
			s.push_back(n);
	}
	return s;
}

static void characters(mc::Ctx& ctx)
{
	const std::string& name = ctx.pick(strange());
	unsigned which = ctx.choose(8);
	Scratch scratch;
	const std::string& root = scratch.path();
	std::string cwd = root + "/work", home = root + "/home", config, base, out, in = "config.json", vertexPath = "v.dat", indexPath = "i.dat";
	scratch.dir("work");
	scratch.dir("home");
	setenv("HOME", home.c_str(), 1);
	switch (which)
	{
		case 0: in = name; break;
		case 1: in = name + "/config.json"; break;
		case 2: vertexPath = name; in = "cfg/config.json"; break;
		case 3: vertexPath = name + "/v.dat"; break;
		case 4: indexPath = "./" + name; break;
		case 5: indexPath = "d/" + name + "/i.dat"; in = "cfg/config.json"; break;
		case 6: out = name; break;
		default: out = "out/" + name + "/more/"; break;
	}
	base = cwd + "/" + in;
	base.resize(base.rfind('/'));
	auto place = [&](const std::string& path, const std::string& content) {
		for (std::size_t i = root.size() + 1; i < path.size(); ++i)
			if (path[i] == '/')
				::mkdir(path.substr(0, i).c_str(), 0755);
		put(path, content);
	};
	place(base + "/" + vertexPath, indexBytes({5, 6, 7}, false));
	place(base + "/" + indexPath, indexBytes({2, 0, 1, 2}, false));
	for (const char* d : {"/v.dat", "/i.dat", "/x", "/config.json"}) // others
		put(home + d, indexBytes({0, 0, 0, 0, 1}, false));
	js::write(config, configuration(vertexPath, indexPath));
	place(cwd + "/" + in, config);
	std::vector<std::string> args{"-i", in};
	if (!out.empty())
	{
		args.push_back("-o");
		args.push_back(out);
	}
	Outcome o = predict(config, base);
	if (o.kind != Outcome::Converted)
		ctx.fail("harness: the configuration isn't one that converts: %s", o.why.c_str());
	std::map<std::string, std::string> before, after;
	snapshot(before, root);
	Result r = run(ctx, root, cwd, args);
	ctx.note("'%s' as part %u of the paths -> %s", mc::jsonEscape(name).c_str(), which, r.ended().c_str());
	std::set<std::string> files = judge(ctx, r, o, cwd, out);
	snapshot(after, root);
	changes(ctx, before, after, files, root, cwd, out);
	ctx.nontrivial();
	ctx.state(mc::hashBytes(r.out.data(), r.out.size(), mc::hashBytes(name.data(), name.size(), which)));
	ctx.trace();
}

// Paths that lead through symbolic links mean what the system makes of them.
static void links(mc::Ctx& ctx)
{
	static const char* ins[] = {"cfg/config.json", "ldir/config.json", "lconf.json", "llconf.json", "ldir/../config.json", "ldir/./sub/config.json", "lldir/config.json", "cfg/lconf.json", "@/work/ldir/../config.json", "",
		"lup/work/cfg/config.json"};
	static const char* paths[] = {"v.dat", "ldata", "ldir/v.dat", "ldir/../v.dat", "../v.dat", "lldir/ldata", "dangling", "@/work/ldir/../v.dat", "sub/../v.dat", "ldir/sub/../../v.dat"};
	static const char* outs[] = {"", "lout", "lout/", "lout/new/er", "ldir/../new", "ldir/../new/x/", "llout", "new", "lout/../fresh", "@/work/lout", "ldir/sub/../../other", "cfg/lout/z", "lup/sub"};
	std::string in = ctx.pick(std::vector<const char*>(ins, ins + 11)), vertexPath = ctx.pick(std::vector<const char*>(paths, paths + 10)), out = ctx.pick(std::vector<const char*>(outs, outs + 13));
	std::string indexPath = ctx.thorough() ? paths[ctx.choose(10)] : paths[(in.size() + vertexPath.size()*3 + out.size())%6];
	Scratch scratch;
	const std::string& root = scratch.path();
	in = at(in.c_str(), root);
	out = at(out.c_str(), root);
	vertexPath = at(vertexPath.c_str(), root);
	indexPath = at(indexPath.c_str(), root);
	std::string cwd = root + "/work", config;
	js::write(config, configuration(vertexPath, indexPath));
	unsigned serial = 0;
	auto link = [&](const std::string& to, const std::string& name) {
		if (::symlink(to.c_str(), (root + "/" + name).c_str()) != 0)
			ctx.fail("harness: no link");
	};
	for (const char* d : {"", "work", "work/sub", "work/cfg", "work/cfg/sub", "store", "store/sub", "store/deep", "store/deep/sub", "store/outdir"})
	{
		if (*d)
			scratch.dir(d);
		++serial;
		std::string data, prefix = *d ? std::string(d) + "/" : "";
		for (unsigned i = 0; i < 6; ++i)
			data += indexBytes({(i*serial)%6}, false);
		data += indexBytes({(serial*serial + serial)%6, serial%6, (serial/6)%6}, false);
		put(root + "/" + prefix + "v.dat", data);
		put(root + "/" + prefix + "other.dat", data + indexBytes({serial%6}, false));
		put(root + "/" + prefix + "config.json", config);
		// Where they lead depends on where they are.
		std::string up;
		for (char c : prefix)
			if (c == '/')
				up += "../";
		link("other.dat", prefix + "ldata");
		link("nowhere", prefix + "dangling");
		link(up + (serial%2 ? "store/deep" : "store/deep/"), prefix + "ldir");
		link("ldir", prefix + "lldir");
		link(serial%3 ? up + "store/deep/config.json" : root + "/store/sub/config.json", prefix + "lconf.json");
		link("lconf.json", prefix + "llconf.json");
		link(up + "store/outdir", prefix + "lout");
		link("./lout", prefix + "llout");
		link(up.empty() ? "." : up, prefix + "lup");
	}
	std::string base = in.empty() ? cwd : in[0] == '/' ? in : cwd + "/" + in;
	std::vector<std::string> args;
	if (!in.empty())
	{
		args = {"-i", in};
		base.resize(base.rfind('/'));
	}
	if (!out.empty())
	{
		args.push_back("-o");
		args.push_back(out);
	}
	Outcome o = predict(config, base);
	std::map<std::string, std::string> before, after;
	snapshot(before, root);
	Result r = run(ctx, root, cwd, args, in.empty() ? config : "");
	ctx.note("-i '%s' -o '%s', data '%s' and '%s' -> %s, predicted %s %s", in.c_str(), out.c_str(), vertexPath.c_str(), indexPath.c_str(), r.ended().c_str(), o.kind == Outcome::Converted ? "converts" : "fails", o.why.c_str());
	std::set<std::string> named = judge(ctx, r, o, cwd, out), files;
	snapshot(after, root);
	// What may change, by the places the links lead to.
	std::set<std::string> dirs;
	std::string full = out.empty() || out[0] == '/' ? out : cwd + "/" + out;
	char real[PATH_MAX];
	for (std::size_t i = 1; i <= full.size(); ++i)
		if ((i == full.size() || full[i] == '/') && realpath(full.substr(0, i).c_str(), real))
			dirs.insert(real);
	if (!full.empty() && realpath(full.c_str(), real))
		for (auto& n : named)
			files.insert(std::string(real) + n.substr(n.rfind('/')));
	for (auto& b : before)
		if (!after.count(b.first) || after.at(b.first) != b.second)
			ctx.fail("%s changes", b.first.c_str());
	for (auto& a : after)
		if (!before.count(a.first) && !(a.second == "<dir>" ? dirs : files).count(root + "/" + a.first))
			ctx.fail("%s is new", a.first.c_str());
	if (o.kind == Outcome::Converted)
	{
		ctx.nontrivial();
		ctx.cover(out.empty() ? "embedded output" : "output directory");
	}
	else
		ctx.cover("data path leads nowhere");
	ctx.state(mc::hashBytes(r.out.data(), r.out.size(), mc::hashBytes(out.data(), out.size(), mc::hashBytes(in.data(), in.size()))));
	ctx.trace();
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		s.push_back({"split", split, 3, false, 60, thorough ? "all strings up to 8 characters over 6, split and joined again" : "all strings up to 7 characters over 4, split and joined again"});
		s.push_back({"join", join, 3, false, 60, thorough ? "all pairs of strings up to 5 characters over 5" : "all pairs of strings up to 4 characters over 5"});
		s.push_back({"runs", runs, 2, false, 60, "13 input paths, 26 output paths and 9 data paths" + std::string(thorough ? " each for vertices and indices" : "")});
		s.push_back({"longer", longer, 2, false, 60, std::string("configuration, data (relative and absolute) and output paths of ") + (thorough ? "77" : "35") + " lengths up to 3005 characters, made longer in 4 ways"});
		s.push_back({"characters", characters, 2, false, 60, "names with every ASCII character in 5 places and 60 that mean something to shells, URLs or other systems, as 8 parts of the paths"});
		s.push_back({"links", links, 2, false, 60, "11 configuration, 10 data and 13 output paths through symbolic links to files and directories, relative and absolute, with .. behind them"});
		return s;
	});
}
