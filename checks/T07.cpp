// Every short argument sequence against a model of the options.
#include "tooljob.h"
#include <sstream>
using namespace tool;
using js::Value;

static std::string config(unsigned vertices)
{
	Value doc = object({{"vertexFormat", array({array({element("a", "X8", "UInt")})})}, {"primitiveType", text("PointList")},
		{"vertexStreams", array({object({{"vertexFormat", array({element("a", "X8", "UInt")})}, {"vertexData", text("base64:" + encode64(std::string(vertices, 'v')))}})})}});
	std::string s;
	js::write(s, doc);
	return s;
}

struct Model
{
	enum { Running, Help, Error } state = Running;
	std::string input, output;
	bool hasInput = false, hasOutput = false;
};

// What the option that needs a value got; the sequence is interpreted left to right.
static Model interpret(const std::vector<std::string>& args)
{
	Model m;
	for (std::size_t i = 0; i < args.size(); ++i)
	{
		const std::string& a = args[i];
		if (a == "-h" || a == "--help")
		{
			m.state = Model::Help;
			return m;
		}
		bool in = a == "-i" || a == "--input", out = a == "-o" || a == "--output";
		if ((!in && !out) || i + 1 == args.size())
		{
			m.state = Model::Error;
			return m;
		}
		const std::string& v = args[++i];
		(in ? m.input : m.output) = v;
		(in ? m.hasInput : m.hasOutput) = true;
	}
	// An empty path is none.
	m.hasInput = !m.input.empty();
	m.hasOutput = !m.output.empty();
	return m;
}

// The names the help lists, a line each: "- name" with or without an explanation.
static void checkHelp(mc::Ctx& ctx, const std::string& help)
{
	std::set<std::string> names, listed;
	for (auto& l : ref::layouts())
		names.insert(l.xyzw);
	for (unsigned i = 0; i < 5; ++i)
		names.insert(ref::typeNames()[i]);
	for (auto n : {"UInt16", "UInt32", "PointList", "LineList", "LineStrip", "TriangleList", "TriangleStrip", "TriangleFan", "PatchList", "Identity", "Bounds", "UNormToSNorm",
			"SNormToUNorm"})
		names.insert(n);
	std::istringstream lines(help);
	for (std::string line; std::getline(lines, line);)
	{
		std::size_t at = line.find_first_not_of(" ");
		if (at == std::string::npos || line.compare(at, 2, "- ") != 0)
			continue;
		std::string word = line.substr(at + 2, line.find_first_of(": ", at + 2) - at - 2);
		listed.insert(word);
		if (at + 2 + word.size() == line.size() && !names.count(word))
			ctx.fail("the help lists '%s'", word.c_str());
	}
	for (auto& n : names)
		if (!listed.count(n))
			ctx.fail("the help doesn't list %s", n.c_str());
}

static void execute(mc::Ctx& ctx, const std::vector<std::string>& args)
{
	Model m = interpret(args);
	Scratch scratch;
	const std::string& root = scratch.path();
	std::string fromStdin = config(1);
	put(root + "/first.json", config(2));
	put(root + "/second.json", config(3));
	put(root + "/-h", config(4));
	std::map<std::string, std::string> before, after;
	snapshot(before, root);
	Result r = run(ctx, root, root, args, fromStdin);
	snapshot(after, root);
	std::string line;
	for (auto& a : args)
		line += " '" + a + "'";
	ctx.note("%s -> %s\n%s", line.c_str(), r.ended().c_str(), brief(r.err).c_str());
	if (r.signal)
		ctx.fail("with%s the tool %s", line.c_str(), r.ended().c_str());
	if (m.state == Model::Help)
	{
		if (r.exit != 0 || !r.err.empty())
			ctx.fail("with%s the tool %s instead of printing the help\nstderr: %s", line.c_str(), r.ended().c_str(), brief(r.err).c_str());
		for (auto option : {"-i", "--input", "-o", "--output", "-h", "--help"})
			if (r.out.find(option) == std::string::npos)
				ctx.fail("with%s the help doesn't mention %s", line.c_str(), option);
		checkHelp(ctx, r.out);
		if (before != after)
			ctx.fail("with%s the tool prints the help and changes files", line.c_str());
		ctx.cover("help");
	}
	else if (m.state == Model::Error)
	{
		if (r.exit == 0)
			ctx.fail("with%s the tool succeeds", line.c_str());
		if (r.err.empty() || r.err.back() != '\n' || !r.out.empty())
			ctx.fail("with%s the tool %s without a line on standard error, or with output\nstdout: %s\nstderr: %s", line.c_str(), r.ended().c_str(), brief(r.out).c_str(), brief(r.err).c_str());
		if (before != after)
			ctx.fail("with%s the tool fails but changes files", line.c_str());
		ctx.cover("argument error");
	}
	else
	{
		std::string text = fromStdin;
		Outcome o;
		if (m.hasInput && !get(root + "/" + m.input, text))
			o.why = "missing input";
		else
			o = predict(text, root);
		// A file can't be the output directory.
		if (m.hasOutput && before.count(m.output))
		{
			o.kind = Outcome::Failed;
			o.why = "a file is in the way";
		}
		try
		{
			std::set<std::string> files = judge(ctx, r, o, root, m.output);
			for (auto& a : after)
				if (!before.count(a.first) && !files.count(root + "/" + a.first) && a.first != m.output)
					ctx.fail("%s is new", a.first.c_str());
			for (auto& b : before)
				if (!after.count(b.first) || after[b.first] != b.second)
					ctx.fail("%s changes", b.first.c_str());
			if (o.kind == Outcome::Converted && m.hasOutput && files.empty())
				ctx.fail("no files are written");
		}
		catch (const mc::Failure& f)
		{
			ctx.fail("with%s: %s", line.c_str(), f.msg.c_str());
		}
		ctx.cover(o.kind != Outcome::Converted ? "input or output can't be opened" : m.hasOutput ? "converts to files" : "converts to standard output");
	}
	ctx.nontrivial();
	ctx.state(mc::hashBytes(line.data(), line.size()));
	ctx.trace();
}

static const std::vector<std::string> alphabet{"-i", "--input", "first.json", "second.json", "-o", "--output", "out1", "out2", "-h", "--help", "", "bogus", "-x", "--", "-", "-I", "--inpu", "--input=first.json", "-ifirst.json", "--HELP"};

static void sequences(mc::Ctx& ctx)
{
	unsigned n = ctx.choose(ctx.thorough() ? 6 : 5);
	std::vector<std::string> args;
	for (unsigned i = 0; i < n; ++i)
	{
		// Once it's decided the rest must not matter: a few followers are enough.
		Model m = interpret(args);
		bool waiting = m.state == Model::Error && interpret([&] { auto a = args; a.push_back("x"); return a; }()).state == Model::Running;
		bool decided = m.state != Model::Running && !waiting;
		static const std::vector<std::string> followers{"-h", "bogus", "-i", "first.json"};
		// The longest sequences over the options themselves and one representative of each value.
		static const std::vector<std::string> core{"-i", "--input", "first.json", "second.json", "-o", "--output", "out1", "-h", "bogus", ""};
		args.push_back(ctx.pick(decided ? followers : n >= 4 ? core : alphabet));
	}
	execute(ctx, args);
}

static void repeated(mc::Ctx& ctx) // longer: options with their values, the last one wins
{
	static const char* names[] = {"-i", "--input", "-o", "--output"};
	static const char* values[] = {"first.json", "second.json", "", "out1", "out2", ""};
	unsigned n = ctx.range(3, ctx.thorough() ? 4 : 3);
	std::vector<std::string> args;
	for (unsigned i = 0; i < n; ++i)
	{
		unsigned o = ctx.choose(4);
		args.push_back(names[o]);
		args.push_back(values[(o < 2 ? 0 : 3) + ctx.choose(3)]);
	}
	static const char* tails[] = {nullptr, "-h", "-i", "bogus"};
	if (const char* t = tails[ctx.choose(4)])
		args.push_back(t);
	execute(ctx, args);
}

// Arguments that are nearly an option.
static const std::vector<std::string>& spellings()
{
	static const std::vector<std::string> all = [] {
		std::set<std::string> r;
		std::set<std::string> options{"-i", "--input", "-o", "--output", "-h", "--help"};
		for (const std::string& o : options)
		{
			for (std::size_t n = 0; n < o.size(); ++n)
			{
				std::string s = o;
				r.insert(o.substr(0, n));         // prefixes
				r.insert(o.substr(n));            // suffixes
				r.insert(s.erase(n, 1));          // without a character
				s = o;
				s[n] = static_cast<char>(s[n] ^ 0x20);
				r.insert(s);                      // another case
				s = o;
				s.insert(n, 1, s[n]);
				r.insert(s);                      // a character twice
				s = o;
				if (n)
					std::swap(s[n - 1], s[n]);
				r.insert(s);                      // exchanged
			}
			for (auto tail : {"=", "=first.json", "=out1", "first.json", "out1", " ", "\n", "s", "i", "o", "h", ":first.json", "-", "\xC3\xA9"})
				r.insert(o + tail);
			for (auto head : {"-", " ", "/", "+", "\xE2\x80\x93"})
				r.insert(head + o);
			r.insert("/" + o.substr(o.find_first_not_of('-')));
		}
		for (auto s : {"-io", "-oh", "-?", "/?", "-v", "--version", "-V", "-f", "--force", "-q", "--", "---", "-", "help", "@first.json", "first.json", "--in=first.json", "--no-input", "-i -o",
				"--outfile", "--out-dir", "--Input", "--OUTPUT", "--in", "--out", "-1", "0"})
			r.insert(s);
		return std::vector<std::string>(r.begin(), r.end());
	}();
	return all;
}

static void nearly(mc::Ctx& ctx)
{
	std::string s = ctx.pick(spellings());
	static const std::vector<std::vector<std::string>> around = {{"?"}, {"?", "first.json"}, {"?", "out1"}, {"-i", "first.json", "?"}, {"-i", "first.json", "?", "out1"},
		{"?", "first.json", "-o", "out1"}, {"-o", "out1", "?", "second.json"}, {"-h", "?"}, {"?", "-h"}, {"-i", "first.json", "-o", "?"}, {"-i", "?"},
		{"--output", "?", "--input", "first.json"}};
	std::vector<std::string> args = ctx.pick(around);
	bool value = false;
	for (std::size_t i = 0; i < args.size(); ++i)
		if (args[i] == "?")
		{
			value = i && (args[i - 1] == "-o" || args[i - 1] == "--output" || args[i - 1] == "-i");
			args[i] = s;
		}
	// Places that aren't simply below the current directory are T06's.
	if (value && (s.find('/') != std::string::npos || s == "." || s == ".."))
		return;
	execute(ctx, args);
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		s.push_back({"sequences", sequences, 3, false, 60, std::string("every sequence of up to 3 of 20 arguments and of ") + (thorough ? "4 and 5" : "4") + " of 10, with 4 followers once it's decided"});
		s.push_back({"nearly", nearly, 3, false, 60, std::to_string(spellings().size()) + " spellings that are nearly an option's (prefixes, a character less, more, twice, in another case or "
			"exchanged, with a value attached), in 12 places"});
		s.push_back({"repeated", repeated, 3, false, 60, std::string(thorough ? "3 and 4" : "3") + " options with values and 4 endings"});
		return s;
	});
}
