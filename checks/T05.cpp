// Every I/O system call of tool runs failing, transferring less or being interrupted, singly and in pairs.
#include "tooljob.h"
using namespace tool;
using js::Value;

struct Mode
{
	const char* name;
	bool viaStdin, dataFiles, outFiles, stale;
	unsigned vertices;
	unsigned wide; // this many elements of 32 bytes rather than two small ones
};

static const Mode modes[] = {
	{"config file, data files, output files", false, true, true, false, 5},
	{"standard input, embedded data, embedded output", true, false, false, false, 5},
	{"standard input, data files, output over older files", true, true, true, true, 5},
	{"config file, embedded data, embedded output", false, false, false, false, 5},
	{"config file, data files, output files, several buffers", false, true, true, false, 3000},
	{"standard input, embedded data, embedded output, several buffers", true, false, false, false, 3000},
	{"config file, data files, embedded output, several buffers", false, true, false, false, 20000},
	{"config file, embedded data, large output files", false, false, true, false, 150, 60},
	{"standard input, embedded data, large output files over older ones", true, false, true, true, 150, 60},
	{"config file, embedded data, large embedded output", false, false, false, false, 150, 60},
};
constexpr unsigned kModes = sizeof(modes)/sizeof(*modes);

struct Setup
{
	std::string config, input, output;
	std::vector<std::string> args;
};

static Setup prepare(Scratch& scratch, const Mode& m)
{
	Setup s;
	std::string dir = m.viaStdin ? "" : "cfg/", data;
	scratch.dir("cfg");
	std::vector<std::uint32_t> indices;
	for (std::uint32_t i = 0; i < m.vertices; ++i)
	{
		float f = static_cast<float>(i)*0.25f;
		data.append(reinterpret_cast<const char*>(&f), 4);
		indices.push_back((i*7)%m.vertices);
	}
	auto item = [&](const char* name, const std::string& bytes) {
		if (m.dataFiles)
		{
			put(scratch.path() + "/" + dir + name, bytes);
			return text(name);
		}
		return text("base64:" + encode64(bytes));
	};
	Value doc = object({{"vertexFormat", array({array({element("a", "X32", "Float")}), array({element("b", "X16", "Float")})})}, {"indexType", text("UInt16")}, {"primitiveType", text("PointList")},
		{"vertexStreams", array({object({{"vertexFormat", array({element("a", "X32", "Float")})}, {"vertexData", item("a.dat", data)}, {"indexType", text("UInt32")}, {"indexData", item("i.dat", indexBytes(indices, true))}}),
			object({{"vertexFormat", array({element("b", "X32", "Float")})}, {"vertexData", item("b.dat", data)}})})}});
	if (m.wide)
	{
		// Much more output than input.
		std::string bytes;
		Value out = array({}), in = array({});
		for (unsigned e = 0; e < m.wide; ++e)
		{
			std::string name = "e" + std::to_string(e);
			out.items.push_back(element(name.c_str(), "X64Y64Z64W64", "Float"));
			in.items.push_back(element(name.c_str(), "X8", "UInt"));
		}
		for (unsigned i = 0; i < m.vertices*m.wide; ++i)
			bytes += static_cast<char>(i*31 + i/m.wide);
		doc.members[0].second = array({out});
		doc.members[3].second = array({object({{"vertexFormat", in}, {"vertexData", text("base64:" + encode64(bytes))}})});
	}
	js::write(s.config, doc);
	if (m.viaStdin)
		s.input = s.config;
	else
	{
		put(scratch.path() + "/cfg/config.json", s.config);
		s.args = {"-i", "cfg/config.json"};
	}
	if (m.outFiles)
	{
		s.output = "out/deep";
		s.args.push_back("-o");
		s.args.push_back(s.output);
	}
	if (m.stale)
	{
		scratch.dir("out/deep");
		for (auto f : {"vertices.0.dat", "vertices.1.dat", "indices.0.dat", "vertices.2.dat"})
			put(scratch.path() + "/out/deep/" + f, std::string(70000, 's'));
	}
	return s;
}

static std::vector<Fault> faultsFor(unsigned at, const Logged& l, bool thorough)
{
	std::vector<Fault> r;
	auto error = [&](int e, bool persist) {
		Fault f;
		f.at = at;
		f.error = e;
		r.push_back(f);
		if (persist)
		{
			f.once = false;
			r.push_back(f);
		}
	};
	auto partial = [&](long n, bool persist) {
		if (n <= 0 || n >= l.size)
			return;
		Fault f;
		f.at = at;
		f.transfer = n;
		r.push_back(f);
		if (persist && l.size/n < 500)
		{
			f.once = false;
			r.push_back(f);
		}
	};
	switch (l.call)
	{
		case Call::OpenRead:
			for (int e : {ENOENT, EACCES, EMFILE, EIO, EINTR})
				error(e, false);
			break;
		case Call::OpenWrite:
			for (int e : {EACCES, ENOSPC, EROFS, EMFILE, EINTR})
				error(e, false);
			break;
		case Call::Read:
			for (int e : {EIO, EISDIR})
				error(e, true);
			error(EINTR, false);
			partial(1, true);
			partial(l.result > 0 ? l.result/2 : 0, true);
			partial(l.result > 0 ? l.result - 1 : 0, false);
			break;
		case Call::Write:
			for (int e : {ENOSPC, EIO})
				error(e, true);
			if (thorough)
				for (int e : {EDQUOT, EFBIG, EPIPE})
					error(e, true);
			error(EINTR, false);
			error(EBADF, true);
			partial(1, true);
			partial(l.size/2, true);
			partial(l.size - 1, false);
			break;
		case Call::Close:
			for (int e : {EIO, ENOSPC, EINTR})
				error(e, false);
			break;
		case Call::Mkdir:
			for (int e : {EACCES, ENOSPC, EROFS, EIO, ENOENT})
				error(e, false);
			break;
		case Call::Sync:
			for (int e : {EIO, ENOSPC})
				error(e, false);
			break;
		case Call::Other:
			break;
	}
	return r;
}

static std::string describe(const Fault& f, const Logged& l)
{
	char b[256];
	if (f.error)
		snprintf(b, sizeof(b), "call %u (%s, fd %d, %s) fails with %s%s", f.at, name(l.call), l.fd, l.path, strerrorname_np(f.error), f.once ? "" : ", and the later ones on it");
	else
		snprintf(b, sizeof(b), "call %u (%s of %ld bytes, fd %d) moves %ld%s", f.at, name(l.call), l.size, l.fd, f.transfer, f.once ? "" : ", and the later ones on it");
	return b;
}

// One run in a fresh tree, judged unless it is only to learn the calls.
static Result attempt(mc::Ctx& ctx, const Mode& m, const std::vector<Fault>& faults, const std::string& what, unsigned closed = 0)
{
	Scratch scratch;
	Setup s = prepare(scratch, m);
	std::string dir = m.viaStdin ? "" : "cfg/";
	// The same for every run of a mode.
	static std::map<const Mode*, Outcome> known;
	if (!known.count(&m))
		known[&m] = predict(s.config, scratch.path() + "/" + dir);
	const Outcome& o = known[&m];
	if (o.kind != Outcome::Converted)
		ctx.fail("harness: the input doesn't convert: %s", o.why.c_str());
	Result r = run(ctx, scratch.path(), scratch.path(), s.args, s.input, faults, closed);
	ctx.note("%s: %s -> %s\n%s", m.name, what.c_str(), r.ended().c_str(), brief(r.err).c_str());
	std::string context = std::string(m.name) + ": " + what;
	if (r.signal)
		ctx.fail("%s: the tool %s\nstderr: %s", context.c_str(), r.ended().c_str(), brief(r.err).c_str());
	if (r.exit != 0)
	{
		if (r.err.empty() || r.err.back() != '\n')
			ctx.fail("%s: the tool %s without a line on standard error", context.c_str(), r.ended().c_str());
		if (faults.empty() && !closed)
			ctx.fail("%s: the tool %s without a fault: %s", context.c_str(), r.ended().c_str(), brief(r.err).c_str());
	}
	else
	{
		try
		{
			judge(ctx, r, o, scratch.path(), s.output);
		}
		catch (const mc::Failure& f)
		{
			ctx.fail("%s, the tool exits with 0, and %s", context.c_str(), f.msg.c_str());
		}
	}
	return r;
}

static const std::vector<Logged>& calls(mc::Ctx& ctx, unsigned mode)
{
	static std::map<unsigned, std::vector<Logged>> cache;
	auto it = cache.find(mode);
	if (it == cache.end())
		it = cache.emplace(mode, attempt(ctx, modes[mode], {}, "no fault").log).first;
	return it->second;
}

static Fault chooseFault(mc::Ctx& ctx, const std::vector<Logged>& log, unsigned from, std::string& what)
{
	std::vector<std::pair<Fault, unsigned>> all;
	for (unsigned i = from; i < log.size(); ++i)
		for (const Fault& f : faultsFor(i, log[i], ctx.thorough()))
			all.emplace_back(f, i);
	auto& c = all[ctx.choose(static_cast<unsigned>(all.size()))];
	what += (what.empty() ? "" : "; then ") + describe(c.first, log[c.second]);
	return c.first;
}

static void record(mc::Ctx& ctx, unsigned mode, const Result& r, unsigned planned, const std::string& what)
{
	unsigned hit = 0;
	for (auto& l : r.log)
		hit += l.faulted;
	if (hit >= planned)
		ctx.nontrivial(); // the faults were really delivered
	ctx.cover(r.exit == 0 ? "recovered with the complete result" : "failed with a diagnostic");
	ctx.state(mc::hashBytes(what.data(), what.size(), mode));
	ctx.trace();
}

static void single(mc::Ctx& ctx)
{
	unsigned mode = ctx.choose(kModes);
	std::string what;
	Fault f = chooseFault(ctx, calls(ctx, mode), 0, what);
	record(ctx, mode, attempt(ctx, modes[mode], {f}, what), 1, what);
}

static void pairs(mc::Ctx& ctx)
{
	unsigned mode = ctx.choose(ctx.thorough() ? kModes : 5);
	std::string what;
	Fault first = chooseFault(ctx, calls(ctx, mode), 0, what);
	// The calls after the first fault depend on it.
	static std::map<std::string, std::vector<Logged>> cache;
	std::string key = std::to_string(mode) + what;
	auto it = cache.find(key);
	if (it == cache.end())
	{
		if (cache.size() > 64)
			cache.clear();
		it = cache.emplace(key, attempt(ctx, modes[mode], {first}, what).log).first;
	}
	const std::vector<Logged> log = it->second;
	unsigned left = 0;
	for (unsigned i = first.at + 1; i < log.size(); ++i)
		left += static_cast<unsigned>(faultsFor(i, log[i], ctx.thorough()).size());
	if (left == 0)
		return;
	Fault second = chooseFault(ctx, log, first.at + 1, what);
	record(ctx, mode, attempt(ctx, modes[mode], {first, second}, what), 2, what);
}

static void closedStreams(mc::Ctx& ctx) // started without standard input or output
{
	unsigned mode = ctx.choose(kModes), closed = ctx.range(1, 3);
	const Mode& m = modes[mode];
	std::string what = closed == 1 ? "standard input closed" : closed == 2 ? "standard output closed" : "standard input and output closed";
	Result r = attempt(ctx, m, {}, what, closed);
	bool needed = (closed & 2) || m.viaStdin;
	if (needed != (r.exit != 0))
		ctx.fail("%s, %s: the tool %s", m.name, what.c_str(), r.ended().c_str());
	ctx.nontrivial();
	ctx.state(mode*4 + closed);
	ctx.trace();
}

static void help(mc::Ctx& ctx)
{
	static const std::vector<std::vector<std::string>> lines = {{"-h"}, {"--help"}, {"-i", "none.json", "-o", "out", "-h", "-x"}};
	const std::vector<std::string>& args = ctx.pick(lines);
	static std::map<const void*, Result> whole;
	Scratch scratch;
	if (!whole.count(&args))
	{
		Result r = run(ctx, scratch.path(), scratch.path(), args, "");
		if (r.signal || r.exit != 0 || !r.err.empty() || r.out.empty())
			ctx.fail("the tool %s without a fault instead of printing the help\nstderr: %s", r.ended().c_str(), brief(r.err).c_str());
		whole[&args] = r;
	}
	const Result& clean = whole[&args];
	std::vector<std::pair<Fault, unsigned>> all;
	for (unsigned i = 0; i < clean.log.size(); ++i)
		for (const Fault& f : faultsFor(i, clean.log[i], true))
			all.emplace_back(f, i);
	unsigned k = ctx.choose(static_cast<unsigned>(all.size()) + 1);
	std::string what = k ? describe(all[k - 1].first, clean.log[all[k - 1].second]) : "standard output closed";
	Result r = k ? run(ctx, scratch.path(), scratch.path(), args, "", {all[k - 1].first}) : run(ctx, scratch.path(), scratch.path(), args, "", {}, 2);
	ctx.note("help: %s -> %s\n%s", what.c_str(), r.ended().c_str(), brief(r.err).c_str());
	if (r.signal)
		ctx.fail("help, %s: the tool %s", what.c_str(), r.ended().c_str());
	if (r.exit != 0 && (r.err.empty() || r.err.back() != '\n'))
		ctx.fail("help, %s: the tool %s without a line on standard error", what.c_str(), r.ended().c_str());
	if (r.exit == 0 && r.out != clean.out)
		ctx.fail("help, %s: the tool exits with 0 after printing %zu of %zu bytes", what.c_str(), r.out.size(), clean.out.size());
	ctx.nontrivial();
	ctx.cover(r.exit == 0 ? "recovered with the complete help" : "help failed with a diagnostic");
	ctx.state(mc::hashBytes(what.data(), what.size(), args.size() + args[0].size()*100));
	ctx.trace();
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		s.push_back({"single", single, 2, false, 90, "10 runs over every input and output mode, every intercepted call, every fault that applies to it"});
		s.push_back({"pairs", pairs, 2, false, 90, std::string(thorough ? "10" : "5") + " runs, every fault followed by every fault at any later call"});
		s.push_back({"help", help, 2, false, 90, "3 ways to ask for the help, every intercepted call, every fault that applies to it, standard output closed"});
		s.push_back({"closed", closedStreams, 1, false, 90, "10 runs started without standard input, output or both"});
		return s;
	});
}
