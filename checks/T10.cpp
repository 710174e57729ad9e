// A run's result depends on nothing but its arguments, configuration and data: runs after others that were killed,
// failed or had another input, in other surroundings, and at the same time as others.
#include "tooljob.h"
#include <sys/time.h>
using namespace tool;
using js::Value;

// The names of all variables anybody asks for while it's on.
static bool recording = false;
static std::set<std::string>& asked()
{
	static std::set<std::string> s;
	return s;
}
extern char** environ;
static char* look(const char* name)
{
	if (recording)
		asked().insert(name);
	std::size_t n = strlen(name);
	for (char** e = environ; e && *e; ++e)
		if (strncmp(*e, name, n) == 0 && (*e)[n] == '=')
			return *e + n + 1;
	return nullptr;
}
extern "C" char* getenv(const char* name) noexcept { return look(name); }
extern "C" char* secure_getenv(const char* name) noexcept { return look(name); }

// Inputs that differ in every way the output can: number of streams, vertices, index buffers and their types.
struct Job
{
	const char* name;
	unsigned vertices;
	const char* type; // of the indices or null
	bool second, dataFiles, viaStdin, outFiles;
	int breaks;       // 0: converts; 1: bad data, 2: not JSON, 3: missing file
	unsigned seed;
};

static const Job jobs[] = {
	{"two streams, 16-bit indices", 6, "UInt16", true, true, false, true, 0, 1},
	{"one stream, no indices", 3, nullptr, false, true, false, true, 0, 2},
	{"the same size with other data", 6, "UInt16", true, true, false, true, 0, 5},
	{"more vertices, 32-bit indices", 900, "UInt32", false, true, true, true, 0, 3},
	{"an index out of range", 6, "UInt16", true, true, false, true, 1, 1},
	{"not JSON", 4, "UInt16", false, true, true, true, 2, 1},
	{"no such data", 4, "UInt16", false, true, false, true, 3, 1},
	{"embedded, standard streams", 5, "UInt32", true, false, true, false, 0, 4},
	{"several buffers", 40000, "UInt16", true, true, false, true, 0, 6},
	{"output only", 7, "UInt16", true, false, true, true, 0, 7},
	{"config file only", 5, "UInt16", true, true, false, false, 0, 8},
};
constexpr unsigned kJobs = sizeof(jobs)/sizeof(*jobs);

struct Setup
{
	std::string config, input, output;
	std::vector<std::string> args;
};

// The configuration and data are always at the same place and written anew, with the same time stamps.
static Setup prepare(const Scratch& scratch, const Job& j, const std::string& output)
{
	Setup s;
	scratch.dir("cfg");
	std::string dir = scratch.path() + (j.viaStdin ? "/" : "/cfg/"), data, other;
	std::vector<std::uint32_t> indices;
	std::uint32_t state = j.seed*2654435761U;
	for (std::uint32_t i = 0; i < j.vertices; ++i)
	{
		state = state*1664525U + 1013904223U;
		float f = static_cast<float>(j.vertices > 30000 ? i*(1 + j.seed) : (state >> 8)%4096)*0.25f, g = static_cast<float>((state >> 12)%256);
		data.append(reinterpret_cast<const char*>(&f), 4);
		other.append(reinterpret_cast<const char*>(&g), 4);
		indices.push_back(j.vertices > 30000 ? i : (state >> 20)%j.vertices);
	}
	if (j.breaks == 1)
		indices.back() = j.vertices;
	auto item = [&](const char* name, const std::string& bytes) {
		if (!j.dataFiles)
			return text("base64:" + encode64(bytes));
		put(dir + name, bytes);
		timeval t[2] = {{1600000000, 0}, {1600000000, 0}};
		utimes((dir + name).c_str(), t);
		return text(j.breaks == 3 ? "missing.dat" : name);
	};
	Value doc = object({{"vertexFormat", array({array({element("a", "X32", "Float")})})}, {"primitiveType", text("PointList")},
		{"vertexStreams", array({object({{"vertexFormat", array({element("a", "X32", "Float")})}, {"vertexData", item("a.dat", data)}, {"indexType", text("UInt32")}, {"indexData", item("i.dat", indexBytes(indices, true))}})})}});
	if (j.second)
	{
		doc.members[0].second.items.push_back(array({element("b", "X16", "Float")}));
		doc.members[2].second.items.push_back(object({{"vertexFormat", array({element("b", "X32", "Float")})}, {"vertexData", item("b.dat", other)}}));
	}
	if (j.type)
		doc.members.emplace_back("indexType", text(j.type));
	js::write(s.config, doc);
	if (j.breaks == 2)
		s.config.resize(s.config.size() - 2);
	if (j.viaStdin)
		s.input = s.config;
	else
	{
		put(dir + "config.json", s.config);
		timeval t[2] = {{1600000000, 0}, {1600000000, 0}};
		utimes((dir + "config.json").c_str(), t);
		s.args = {"-i", "cfg/config.json"};
	}
	if (j.outFiles)
	{
		s.output = output;
		s.args.push_back("-o");
		s.args.push_back(output);
	}
	return s;
}

static const Outcome& outcome(mc::Ctx& ctx, const Scratch& scratch, const Job& j, const Setup& s)
{
	static std::map<const Job*, Outcome> known;
	auto it = known.find(&j);
	if (it == known.end())
	{
		it = known.emplace(&j, predict(s.config, scratch.path() + (j.viaStdin ? "" : "/cfg"))).first;
		if ((it->second.kind == Outcome::Converted) != (j.breaks == 0))
			ctx.fail("harness: '%s' is predicted wrongly: %s", j.name, it->second.why.c_str());
	}
	return it->second;
}

// What a run alone in a fresh directory prints, says and writes.
struct Alone
{
	Result r;
	std::map<std::string, std::string> files;
};

static void written(std::map<std::string, std::string>& out, const std::set<std::string>& named)
{
	for (const std::string& f : named)
		if (!get(f, out[f.substr(f.rfind('/') + 1)]))
			throw mc::Failure{"harness: can't read " + f};
}

static const Alone& alone(mc::Ctx& ctx, const Job& j)
{
	static std::map<const Job*, Alone> known;
	auto it = known.find(&j);
	if (it != known.end())
		return it->second;
	Scratch scratch;
	Setup s = prepare(scratch, j, "out/deep");
	Alone a;
	a.r = run(ctx, scratch.path(), scratch.path(), s.args, s.input);
	auto named = judge(ctx, a.r, outcome(ctx, scratch, j, s), scratch.path(), s.output);
	written(a.files, named);
	return known.emplace(&j, std::move(a)).first->second;
}

// Judged, and against the run alone. The output directory's name may differ.
static void same(mc::Ctx& ctx, const Scratch& scratch, const Job& j, const Setup& s, const Result& r, const std::string& what)
{
	const Alone& a = alone(ctx, j);
	try
	{
		std::map<std::string, std::string> now;
		written(now, judge(ctx, r, outcome(ctx, scratch, j, s), scratch.path(), s.output));
		if (now != a.files)
			ctx.fail("the files differ from those of a run alone");
		if (r.exit != a.r.exit || r.signal != a.r.signal)
			ctx.fail("the tool %s, alone it %s", r.ended().c_str(), a.r.ended().c_str());
		if ((s.output.empty() || s.output == "out/deep") && (r.out != a.r.out || r.err != a.r.err))
			ctx.fail("the tool prints something else than alone\n%s%s\n%s%s", brief(r.out).c_str(), brief(r.err).c_str(), brief(a.r.out).c_str(), brief(a.r.err).c_str());
	}
	catch (const mc::Failure& f)
	{
		ctx.fail("'%s' %s: %s", j.name, what.c_str(), f.msg.c_str());
	}
}

static void done(mc::Ctx& ctx, const std::string& what)
{
	ctx.note("%s\n", what.c_str());
	ctx.state(mc::hashBytes(what.data(), what.size()));
	ctx.nontrivial();
	ctx.trace();
}

// The runs that are killed, stopped or fail at a call.
static const unsigned small[] = {0, 3, 9, 1};

// Every place and way to be killed: in front of a call, after it, and when a part of the data has been moved.
static std::vector<Fault> kills(const std::vector<Logged>& log, unsigned from = 0)
{
	std::vector<Fault> all;
	for (unsigned i = from; i < log.size(); ++i)
	{
		std::vector<long> parts{0, -1};
		if (log[i].call == Call::Write)
			for (long n : {1L, log[i].size/2, log[i].size - 1})
				if (n > 0 && n < log[i].size && std::find(parts.begin(), parts.end(), n) == parts.end())
					parts.push_back(n);
		for (long n : parts)
		{
			Fault f;
			f.at = i;
			f.kill = true;
			f.transfer = n;
			all.push_back(f);
		}
	}
	return all;
}

static std::string text(const Fault& f) { return "killed at call " + std::to_string(f.at) + (f.transfer == 0 ? " (not made)" : f.transfer < 0 ? " (made)" : " (" + std::to_string(f.transfer) + " bytes)"); }

static void killed(mc::Ctx& ctx, unsigned times)
{
	const Job& first = jobs[small[ctx.choose(times == 1 ? 4 : 2)]];
	const std::vector<Logged>& log = alone(ctx, first).r.log;
	Scratch scratch;
	std::string what = std::string("after '") + first.name + "' was ";
	for (unsigned k = 0; k < times; ++k)
	{
		auto all = kills(log);
		if (k > 0) // the calls of a run over the remains may be others, but not fewer than matter
			all.push_back(Fault());
		Fault f = all[ctx.choose(static_cast<unsigned>(all.size()))];
		Setup s = prepare(scratch, first, "out/deep");
		Result r = run(ctx, scratch.path(), scratch.path(), s.args, s.input, {f});
		if (k == 0 && r.signal != SIGKILL)
			ctx.fail("'%s' %s doesn't repeat its calls: it %s", first.name, text(f).c_str(), r.ended().c_str());
		what += (k ? " and " : "") + (f.kill ? text(f) : "run");
	}
	const Job& then = jobs[times == 1 ? small[ctx.choose(4)] : ctx.flag() ? 1 : small[0]];
	Setup s = prepare(scratch, then, "out/deep");
	Result r = run(ctx, scratch.path(), scratch.path(), s.args, s.input);
	same(ctx, scratch, then, s, r, what);
	done(ctx, what + ", then '" + then.name + "'");
}

// Runs one after another, with the same or another output directory.
static void history(mc::Ctx& ctx, unsigned depth)
{
	Scratch scratch;
	std::string what = "after";
	for (unsigned d = 0; d <= depth; ++d)
	{
		const Job& j = jobs[ctx.choose(kJobs)];
		bool last = d == depth;
		unsigned how = last ? 0 : ctx.choose(j.outFiles ? 3 : 1);
		Setup s = prepare(scratch, j, how == 1 ? "out" : "out/deep");
		std::vector<Fault> faults;
		if (how == 2) // the disk is full
		{
			const auto& log = alone(ctx, j).r.log;
			for (unsigned i = 0; i < log.size() && faults.empty(); ++i)
				if (log[i].call == Call::Write)
				{
					Fault f;
					f.at = i;
					f.error = ENOSPC;
					f.once = false;
					faults.push_back(f);
				}
		}
		Result r = run(ctx, scratch.path(), scratch.path(), s.args, s.input, faults);
		if (faults.empty())
			same(ctx, scratch, j, s, r, what);
		what += std::string(" '") + j.name + (how == 1 ? "' elsewhere" : how == 2 ? "' on a full disk" : "'");
	}
	done(ctx, what);
}

// A run over the files of one with nearly the same data.
static void changed(mc::Ctx& ctx)
{
	static const std::vector<unsigned> sizes = {1, 4, 40, 300, 5000, 70000};
	unsigned n = ctx.pick(sizes);
	bool indices = ctx.flag() && n > 2; // the index data rather than the vertices differs
	if (indices && n > 5000)
		throw mc::SkipPath();
	std::vector<unsigned> places;
	for (unsigned i = 0; i < n; ++i)
		if (n <= 4 || i == 0 || i + 1 == n || (n <= 300 ? i%4 == 3 : (i & (i - 1)) == 0 || (i & (i + 1)) == 0))
			places.push_back(i);
	unsigned at = ctx.pick(places);
	unsigned how = ctx.choose(4); // one bit, another, all from there on, one less
	unsigned stamp = ctx.choose(3); // the earlier files' times: as they are, long ago, far ahead
	Scratch scratch;
	std::string bytes[2];
	std::uint32_t state = 12345;
	for (unsigned i = 0; i < n; ++i)
	{
		state = state*1664525U + 1013904223U;
		bytes[0] += static_cast<char>(state >> 24);
	}
	bytes[1] = bytes[0];
	if (how == 3 && n > 1)
		bytes[1].erase(at, 1);
	for (unsigned i = at; how != 3 && i < n && (i == at || how == 2); ++i)
		bytes[1][i] ^= how == 1 ? 0x80 : 1;
	for (unsigned r = 0; r < 3; ++r)
	{
		const std::string& d = bytes[r == 1];
		// 256 vertices in the order of the data, or the data itself.
		std::string all;
		std::vector<std::uint32_t> idx;
		for (unsigned i = 0; i < 256; ++i)
		{
			all += static_cast<char>(i);
			idx.push_back(i);
		}
		for (char ch : d)
			idx.push_back(static_cast<unsigned char>(ch));
		Value stream = object({{"vertexFormat", array({element("a", "X8", "UInt")})}, {"vertexData", text("base64:" + encode64(indices ? all : d))}});
		if (indices)
		{
			stream.members.emplace_back("indexType", text("UInt16"));
			stream.members.emplace_back("indexData", text("base64:" + encode64(indexBytes(idx, false))));
		}
		Value doc = object({{"vertexFormat", array({array({element("a", "X8", "UInt")})})}, {"primitiveType", text("PointList")}, {"vertexStreams", array({stream})}});
		if (indices)
			doc.members.emplace_back("indexType", text("UInt16"));
		std::string config;
		js::write(config, doc);
		Result res = run(ctx, scratch.path(), scratch.path(), {"-o", "out"}, config);
		std::string got, want = indices ? indexBytes(idx, false) : d;
		if (res.exit != 0 || !get(scratch.path() + (indices ? "/out/indices.0.dat" : "/out/vertices.0.dat"), got))
			ctx.fail("run %u: the tool %s: %s", r + 1, res.ended().c_str(), brief(res.err).c_str());
		if (got != want)
			ctx.fail("%zu bytes of %s that differ from those of the run before at %u: the file %s", want.size(), indices ? "indices" : "vertices", at,
				got.size() != want.size() ? "has another size" : "isn't what it would be alone");
		if (stamp)
		{
			std::time_t when = stamp == 1 ? 1000000000 : 4000000000;
			timeval t[2] = {{when, 0}, {when, 0}};
			for (const char* f : {"/out", "/out/indices.0.dat", "/out/vertices.0.dat"})
				utimes((scratch.path() + f).c_str(), t);
		}
	}
	char what[100];
	snprintf(what, sizeof(what), "%u %s, change %u at %u, times %u", n, indices ? "indices" : "vertices", how, at, stamp);
	done(ctx, what);
}

// What the process finds when it starts.
static const std::vector<std::string>& variables()
{
	static std::vector<std::string> names;
	if (names.empty())
	{
		names = {"HOME", "PWD", "TMPDIR", "LANG", "LC_ALL", "LC_NUMERIC", "TZ", "PATH", "USER", "VFC", "VFC_OUTPUT", "VFC_INPUT", "POSIXLY_CORRECT", "COLUMNS", "TERM", "NO_COLOR", "DEBUG", "VERBOSE", "SOURCE_DATE_EPOCH"};
		// And those the tool asks for, found by running it here (help and an argument that is rejected).
		recording = true;
		int keep = dup(1), err = dup(2), null = open("/dev/null", O_WRONLY);
		dup2(null, 1);
		dup2(null, 2);
		const char* help[] = {"vfc", "--help", nullptr};
		const char* bad[] = {"vfc", "--nothing", nullptr};
		vfc_main(2, help);
		vfc_main(2, bad);
		fflush(stdout);
		dup2(keep, 1);
		dup2(err, 2);
		close(keep);
		close(err);
		close(null);
		recording = false;
		for (auto& n : asked())
			if (std::find(names.begin(), names.end(), n) == names.end())
				names.push_back(n);
	}
	return names;
}

static void surroundings(mc::Ctx& ctx)
{
	static const unsigned which[] = {0, 7, 3, 9, 10, 1, 4};
	const Job& j = jobs[which[ctx.choose(7)]];
	static const Standard ins[] = {Standard::Memory, Standard::MemoryBehind, Standard::Pipe, Standard::Socket, Standard::File};
	static const Standard outs[] = {Standard::Memory, Standard::MemoryBehind, Standard::Pipe, Standard::Socket, Standard::File, Standard::Append};
	static const mode_t masks[] = {0, 022, 077, 0177, 0777};
	static const char* kinds[] = {"a new file", "a file from further on", "a pipe", "a socket", "a file", "a file to append to"};
	Surroundings a;
	std::string what;
	Scratch scratch;
	if (ctx.flag())
	{
		unsigned in = ctx.choose(5), out = ctx.choose(6), mask = ctx.choose(5);
		a.in = ins[in];
		a.out = outs[out];
		a.mask = masks[mask];
		what = std::string("reading ") + kinds[in] + ", printing to " + kinds[out] + ", with mask " + std::to_string(masks[mask]);
	}
	else
	{
		const auto& names = variables();
		static const char* values[] = {"", "0", "1", "/", "@", "C", "de_DE.UTF-8", "nonsense", "-i", "out"};
		const std::string& n = ctx.pick(names);
		std::string v = values[ctx.choose(10)];
		if (v == "@")
			v = scratch.dir("decoy");
		a.env.emplace_back(n, v);
		what = "with " + n + "=" + v;
	}
	Setup s = prepare(scratch, j, "out/deep");
	scratch.dir("decoy");
	for (const char* f : {"a.dat", "b.dat", "i.dat", "config.json"})
		put(scratch.path() + "/decoy/" + f, std::string(8, '\0'));
	std::map<std::string, std::string> before, after;
	snapshot(before, scratch.path() + "/decoy");
	Result r = Process(ctx, scratch.path(), scratch.path(), s.args, s.input, {}, a).finish();
	same(ctx, scratch, j, s, r, what);
	snapshot(after, scratch.path() + "/decoy");
	if (before != after)
		ctx.fail("'%s' %s: other files change", j.name, what.c_str());
	done(ctx, std::string(j.name) + " " + what);
}

// Two runs with output directories of their own, with up to so many switches between them at any system calls.
static void together(mc::Ctx& ctx, unsigned switches)
{
	const Job& a = jobs[small[ctx.choose(3)]];
	const Job& b = jobs[small[ctx.choose(switches == 1 ? 4 : 2)]];
	static const char* dirs[][2] = {{"out/deep", "out/other"}, {"out/deep", "out"}, {"x/y", "out/deep"}};
	unsigned d = ctx.choose(switches == 1 ? 3 : 1);
	Scratch scratch;
	Setup sa = prepare(scratch, a, dirs[d][0]);
	// A second tree for the other's input, so that both can be there at once.
	scratch.dir("b");
	Setup sb;
	{
		// Prepared in place and moved over.
		std::string base = scratch.path() + "/keep";
		::rename((scratch.path() + "/cfg").c_str(), base.c_str());
		std::map<std::string, std::string> top;
		for (const char* f : {"a.dat", "b.dat", "i.dat"})
		{
			std::string data;
			if (get(scratch.path() + "/" + f, data))
				top[f] = data;
		}
		sb = prepare(scratch, b, std::string("../") + dirs[d][1]);
		for (const char* f : {"a.dat", "b.dat", "i.dat"})
			::rename((scratch.path() + "/" + f).c_str(), (scratch.path() + "/b/" + f).c_str());
		::rename((scratch.path() + "/cfg").c_str(), (scratch.path() + "/b/cfg").c_str());
		::rename(base.c_str(), (scratch.path() + "/cfg").c_str());
		for (auto& f : top)
			put(scratch.path() + "/" + f.first, f.second);
	}
	const std::vector<Logged>& log = alone(ctx, a).r.log;
	const std::vector<Logged>& other = alone(ctx, b).r.log;
	Fault stop, stop2;
	stop.stop = stop2.stop = true;
	stop.at = ctx.choose(static_cast<unsigned>(log.size()));
	if (switches == 2)
		stop2.at = ctx.choose(static_cast<unsigned>(other.size()));
	std::string what = std::string("with '") + b.name + "' run in front of call " + std::to_string(stop.at) + (switches == 2 ? ", up to its call " + std::to_string(stop2.at) : "");
	std::string root = scratch.path(), cwd = root + "/b";
	Process pa(ctx, root, root, sa.args, sa.input, {stop});
	if (!pa.wait())
		ctx.fail("'%s' doesn't repeat its calls", a.name);
	Result rb;
	{
		Process pb(ctx, root, cwd, sb.args, sb.input, switches == 2 ? std::vector<Fault>{stop2} : std::vector<Fault>{});
		if (switches == 2)
		{
			pb.wait();
			pa.resume();
			Result ra = pa.finish();
			same(ctx, scratch, a, sa, ra, what);
			pb.resume();
			rb = pb.finish();
		}
		else
		{
			rb = pb.finish();
			pa.resume();
			Result ra = pa.finish();
			same(ctx, scratch, a, sa, ra, what);
		}
	}
	// The other's paths are relative to its own directory.
	const Alone& wb = alone(ctx, b);
	std::map<std::string, std::string> now;
	written(now, judge(ctx, rb, wb.r.exit == 0 ? outcome(ctx, scratch, b, sb) : Outcome(), cwd, sb.output));
	if (now != wb.files || rb.exit != wb.r.exit)
		ctx.fail("'%s', %s: the other's result differs", a.name, what.c_str());
	// And the first's is still there.
	for (auto& f : alone(ctx, a).files)
	{
		std::string data;
		if (!get(root + "/" + sa.output + "/" + f.first, data) || data != f.second)
			ctx.fail("'%s', %s: the other changes its %s", a.name, what.c_str(), f.first.c_str());
	}
	done(ctx, std::string(a.name) + " " + what + std::to_string(d));
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		s.push_back({"killed", [](mc::Ctx& c) { killed(c, 1); }, 2, false, 90, "4 runs killed in front of every system call, behind it and with its data partly moved, followed by each of the 4"});
		s.push_back({"killed-twice", [](mc::Ctx& c) { killed(c, 2); }, 2, false, 90, "2 runs killed at every place, the run after that killed at every place, followed by each of 2"});
		unsigned depth = thorough ? 3 : 2;
		s.push_back({"history", [depth](mc::Ctx& c) { history(c, depth); }, 2, false, 90,
			"every sequence of " + std::to_string(depth + 1) + " runs from 11 (of which 3 fail), to the same or another output directory or on a full disk, each judged"});
		s.push_back({"changed", changed, 2, false, 90, "a run over the files of one whose data or indices differ in one place of 1 to 70000, back and forth, with files of 3 ages"});
		s.push_back({"surroundings", surroundings, 2, false, 90, "7 runs x 5 kinds of standard input x 6 of standard output x 5 file masks; 10 values for each of 19 environment variables and any the tool asks for"});
		s.push_back({"together", [](mc::Ctx& c) { together(c, 1); }, 2, false, 90, "two of 4 runs with different output directories, the second run as a whole in front of every system call of the first"});
		s.push_back({"interleaved", [](mc::Ctx& c) { together(c, 2); }, 2, false, 90, "the same with two switches: the second's run interrupted at every system call to complete the first"});
		return s;
	});
}
