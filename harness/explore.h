// Stateless bounded-exhaustive explorer.
//
// A "space" is a deterministic body that asks for every bit of nondeterminism through Ctx::choose().
// The explorer enumerates all choice sequences depth first: it re-runs the body for every leaf of
// the choice tree, so every execution of the body within the bounds hard-coded in it is visited
// exactly once. The tree is split over forked workers by hashed prefix ordinal. A body that fails,
// crashes, aborts, trips AddressSanitizer, or hangs is re-run alone from its choice sequence before
// it is reported; a failure that needs the preceding executions of the same worker is re-run as that
// worker's whole sequence.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc
{

struct SkipPath {};
struct Failure { std::string msg; };

constexpr unsigned kMaxPath = 1024;
constexpr unsigned kMaxCover = 64;
constexpr unsigned kMaxKnown = 16;

struct WorkerShm
{
	volatile std::uint64_t evals, transitions, traces, nontrivial, heartbeat, skipped;
	volatile std::uint32_t pathLen;
	std::uint32_t path[kMaxPath];
	volatile std::int32_t status; // 0 running, 1 done, 2 failed, 3 deadline
	char msg[8192];
	char coverName[kMaxCover][48];
	std::uint64_t coverCount[kMaxCover];
	char knownKey[kMaxKnown][64];
	char knownMsg[kMaxKnown][1024];
	std::uint64_t knownCount[kMaxKnown];
	char sample[3][1024];
	std::uint32_t samples;
};

struct Shm
{
	std::uint64_t tableSize;
	std::atomic<std::uint64_t> stateCount;
	std::atomic<std::uint32_t> tableFull;
	std::atomic<std::uint32_t> stop;
};

inline std::uint64_t mix(std::uint64_t x)
{
	x += 0x9e3779b97f4a7c15ULL;
	x = (x ^ (x >> 30))*0xbf58476d1ce4e5b9ULL;
	x = (x ^ (x >> 27))*0x94d049bb133111ebULL;
	return x ^ (x >> 31);
}

inline std::uint64_t hashBytes(const void* data, std::size_t size, std::uint64_t seed = 1)
{
	std::uint64_t h = mix(seed ^ size);
	const unsigned char* p = static_cast<const unsigned char*>(data);
	while (size >= 8)
	{
		std::uint64_t v;
		std::memcpy(&v, p, 8);
		h = mix(h ^ v);
		p += 8;
		size -= 8;
	}
	std::uint64_t v = 0;
	if (size)
		std::memcpy(&v, p, size);
	return mix(h ^ v);
}

class Ctx
{
public:
	// A choice among n alternatives. Every source of nondeterminism goes through this.
	unsigned choose(unsigned n)
	{
		if (n == 0)
			fail("harness: choose(0)");
		if (m_settled)
			fail("harness: choice after all were made");
		unsigned v;
		if (m_pos < m_path.size())
		{
			if (m_limits[m_pos] == 0)
				m_limits[m_pos] = n; // replay: limits unknown
			if (m_limits[m_pos] != n || m_path[m_pos] >= n)
				fail("nondeterminism: choice %zu had %u alternatives before and %u now", m_pos,
					m_limits[m_pos], n);
			v = m_path[m_pos];
		}
		else
		{
			m_path.push_back(0);
			m_limits.push_back(n);
			v = 0;
		}
		if (m_shm && m_pos < kMaxPath)
		{
			m_shm->path[m_pos] = v;
			m_shm->pathLen = static_cast<std::uint32_t>(m_pos + 1);
		}
		++m_pos;
		if (m_pos == m_depth)
			claimPrefix();
		return v;
	}
	// All choices are made: what's expensive follows, which only one worker needs to do.
	void settled()
	{
		m_settled = true;
		if (m_pos < m_depth)
			claimPrefix();
	}
	bool flag() { return choose(2) != 0; }
	unsigned range(unsigned lo, unsigned hi) { return lo + choose(hi - lo + 1); }
	template <typename T> const T& pick(const std::vector<T>& v)
	{
		return v[choose(static_cast<unsigned>(v.size()))];
	}

	[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
	{
		char buf[6000];
		va_list a;
		va_start(a, fmt);
		vsnprintf(buf, sizeof(buf), fmt, a);
		va_end(a);
		throw Failure{buf};
	}
	// Records one model state (hash of its canonical form) for the distinct-state count.
	void state(std::uint64_t h);
	void step(std::uint64_t n = 1) { m_transitions += n; }
	void trace() { ++m_traces; }
	void nontrivial() { m_nontrivial = true; }
	void beat() { if (m_shm) m_shm->heartbeat = m_shm->heartbeat + 1; }
	// Counts that an interesting situation occurred.
	void cover(const char* label);
	// A violation that matches a listed finding. Returns false when the finding isn't listed.
	void known(const char* key, const std::function<std::string()>& detail);
	void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
	{
		if (!m_verbose)
			return;
		char buf[4000];
		va_list a;
		va_start(a, fmt);
		vsnprintf(buf, sizeof(buf), fmt, a);
		va_end(a);
		m_notes += buf;
		m_notes += "\n";
	}
	bool verbose() const { return m_verbose; }
	bool thorough() const { return m_thorough; }

	// Internal.
	void claimPrefix()
	{
		if (!m_newPrefix)
			return;
		m_newPrefix = false;
		++m_ordinal;
		m_mine = mix(m_ordinal) % m_workers == m_worker;
		if (!m_mine)
			throw SkipPath();
	}
	std::vector<std::uint32_t> m_path, m_limits;
	std::size_t m_pos = 0;
	std::size_t m_depth = 0;
	std::uint64_t m_ordinal = 0;
	unsigned m_workers = 1, m_worker = 0;
	bool m_newPrefix = true, m_mine = true;
	bool m_settled = false, m_nontrivial = false, m_verbose = false, m_thorough = false;
	std::uint64_t m_transitions = 0, m_traces = 0;
	std::string m_notes;
	WorkerShm* m_shm = nullptr;
};

using Body = std::function<void(Ctx&)>;

struct Space
{
	std::string name;
	Body body;
	unsigned depth;      // prefix length used to split the tree over the workers
	bool single = false; // run in one worker
	unsigned hangSeconds = 40;
	std::string bounds;  // description of what is enumerated
};

struct Globals
{
	Shm* shm = nullptr;
	std::atomic<std::uint64_t>* table = nullptr;
	WorkerShm* workers = nullptr;
	std::set<std::string> knownKeys;
};
inline Globals& g()
{
	static Globals globals;
	return globals;
}

inline void Ctx::state(std::uint64_t h)
{
	Globals& gl = g();
	if (!gl.table || gl.shm->tableFull.load(std::memory_order_relaxed))
		return;
	if (h == 0)
		h = 1;
	std::uint64_t maskv = gl.shm->tableSize - 1;
	for (std::uint64_t i = mix(h) & maskv, n = 0; n < 4096; i = (i + 1) & maskv, ++n)
	{
		std::uint64_t cur = gl.table[i].load(std::memory_order_relaxed);
		if (cur == h)
			return;
		if (cur == 0)
		{
			if (gl.table[i].compare_exchange_strong(cur, h, std::memory_order_relaxed))
			{
				if (gl.shm->stateCount.fetch_add(1, std::memory_order_relaxed) >
					gl.shm->tableSize/4*3)
				{
					gl.shm->tableFull = 1;
				}
				return;
			}
			if (cur == h)
				return;
		}
	}
	gl.shm->tableFull = 1;
}

inline void Ctx::cover(const char* label)
{
	if (!m_shm)
		return;
	for (unsigned i = 0; i < kMaxCover; ++i)
	{
		if (!m_shm->coverName[i][0])
			snprintf(m_shm->coverName[i], sizeof(m_shm->coverName[i]), "%s", label);
		if (std::strncmp(m_shm->coverName[i], label, sizeof(m_shm->coverName[i]) - 1) == 0)
		{
			++m_shm->coverCount[i];
			return;
		}
	}
}

inline void Ctx::known(const char* key, const std::function<std::string()>& detail)
{
	if (!g().knownKeys.count(key))
		fail("%s (finding '%s' isn't listed)", detail().c_str(), key);
	if (!m_shm)
		return;
	for (unsigned i = 0; i < kMaxKnown; ++i)
	{
		if (!m_shm->knownKey[i][0])
		{
			snprintf(m_shm->knownKey[i], sizeof(m_shm->knownKey[i]), "%s", key);
			snprintf(m_shm->knownMsg[i], sizeof(m_shm->knownMsg[i]), "%s", detail().c_str());
		}
		if (std::strcmp(m_shm->knownKey[i], key) == 0)
		{
			++m_shm->knownCount[i];
			return;
		}
	}
}

// Runs the body once for the path in ctx. Returns 0 ok, 1 skipped, 2 failed (msg set).
inline int runOnce(const Body& body, Ctx& ctx, std::string& msg)
{
	ctx.m_pos = 0;
	ctx.m_settled = false;
	ctx.m_nontrivial = false;
	if (ctx.m_shm)
		ctx.m_shm->pathLen = 0;
	try
	{
		body(ctx);
		if (ctx.m_pos < ctx.m_depth)
			ctx.claimPrefix();
		return 0;
	}
	catch (const SkipPath&)
	{
		return 1;
	}
	catch (const Failure& f)
	{
		msg = f.msg;
		return 2;
	}
	catch (const std::exception& e)
	{
		msg = std::string("uncaught exception: ") + e.what();
		return 2;
	}
	catch (...)
	{
		msg = "uncaught exception";
		return 2;
	}
}

inline double now()
{
	timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec)*1e-9;
}

inline bool backtrack(Ctx& ctx)
{
	ctx.m_path.resize(ctx.m_pos);
	ctx.m_limits.resize(ctx.m_pos);
	while (!ctx.m_path.empty())
	{
		if (++ctx.m_path.back() < ctx.m_limits.back())
		{
			if (ctx.m_path.size() <= ctx.m_depth)
				ctx.m_newPrefix = true;
			return true;
		}
		ctx.m_path.pop_back();
		ctx.m_limits.pop_back();
	}
	return false;
}

[[noreturn]] inline void workerMain(const Space& space, unsigned worker, unsigned workers,
	double deadline, bool thorough)
{
	WorkerShm& w = g().workers[worker];
	Ctx ctx;
	ctx.m_shm = &w;
	ctx.m_depth = space.depth;
	ctx.m_worker = worker;
	ctx.m_workers = workers;
	ctx.m_thorough = thorough;
	std::string msg;
	auto coarse = [] {
		timespec t;
		clock_gettime(CLOCK_MONOTONIC_COARSE, &t); // cheap enough for every execution
		return t.tv_sec;
	};
	time_t checked = coarse();
	for (;;)
	{
		int r = runOnce(space.body, ctx, msg);
		if (r == 2)
		{
			snprintf(w.msg, sizeof(w.msg), "%s", msg.c_str());
			w.transitions = ctx.m_transitions;
			w.traces = ctx.m_traces;
			w.status = 2;
			_exit(0);
		}
		if (r == 0 && ctx.m_mine)
		{
			w.evals = w.evals + 1;
			if (ctx.m_nontrivial)
				w.nontrivial = w.nontrivial + 1;
		}
		else
			w.skipped = w.skipped + 1;
		w.heartbeat = w.heartbeat + 1;
		if (!backtrack(ctx))
			break;
		if ((w.heartbeat & 63) == 0 || coarse() != checked)
		{
			checked = coarse();
			if (g().shm->stop.load(std::memory_order_relaxed))
				_exit(0);
			if (now() > deadline)
			{
				w.transitions = ctx.m_transitions;
				w.traces = ctx.m_traces;
				w.status = 3;
				_exit(0);
			}
		}
	}
	w.transitions = ctx.m_transitions;
	w.traces = ctx.m_traces;
	w.status = 1;
	_exit(0);
}

inline std::string readFileText(const std::string& p, std::size_t limit = 6000)
{
	std::string s;
	FILE* f = fopen(p.c_str(), "rb");
	if (!f)
		return s;
	char buf[4096];
	std::size_t n;
	while ((n = fread(buf, 1, sizeof(buf), f)) > 0 && s.size() < limit)
		s.append(buf, n);
	fclose(f);
	if (s.size() > limit)
		s.resize(limit);
	return s;
}

inline std::string jsonEscape(const std::string& s)
{
	std::string o;
	for (unsigned char c : s)
	{
		char b[8];
		if (c == '"' || c == '\\')
		{
			o += '\\';
			o += static_cast<char>(c);
		}
		else if (c < 32 || c > 126)
		{
			snprintf(b, sizeof(b), "\\u%04x", c);
			o += b;
		}
		else
			o += static_cast<char>(c);
	}
	return o;
}

struct AloneResult
{
	bool failed = false;
	bool hung = false;
	std::string msg, notes;
};

// Re-runs one choice sequence alone in a fresh process.
inline AloneResult runAlone(const Space& space, const std::vector<std::uint32_t>& path,
	const std::string& scratch, bool thorough, double limit)
{
	AloneResult res;
	std::string out = scratch + "/alone.out", err = scratch + "/alone.err";
	unlink(out.c_str());
	unlink(err.c_str());
	fflush(nullptr);
	pid_t pid = fork();
	if (pid == 0)
	{
		setpgid(0, 0);
		int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
		dup2(fd, 2);
		dup2(fd, 1);
		Ctx ctx;
		ctx.m_path = path;
		ctx.m_limits.assign(path.size(), 0);
		ctx.m_verbose = true;
		ctx.m_thorough = thorough;
		std::string msg;
		auto writeOut = [&](int r) {
			FILE* f = fopen(out.c_str(), "wb");
			if (!f)
				return;
			fprintf(f, "%d\n%s\n\x01\n%s", r, msg.c_str(), ctx.m_notes.c_str());
			fclose(f);
		};
		// Two runs in the same process: the second must observe the same thing.
		int r = runOnce(space.body, ctx, msg);
		writeOut(r);
		_exit(0);
	}
	double end = now() + limit;
	int status = 0;
	for (;;)
	{
		pid_t p = waitpid(pid, &status, WNOHANG);
		if (p == pid)
			break;
		if (now() > end)
		{
			kill(-pid, SIGKILL);
			kill(pid, SIGKILL);
			waitpid(pid, &status, 0);
			res.failed = res.hung = true;
			res.msg = "execution doesn't terminate";
			return res;
		}
		usleep(2000);
	}
	std::string text = readFileText(out, 60000);
	if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && !text.empty())
	{
		std::size_t nl = text.find('\n');
		int r = atoi(text.substr(0, nl).c_str());
		std::size_t sep = text.find("\n\x01\n");
		res.failed = r == 2;
		res.msg = text.substr(nl + 1, sep - nl - 1);
		res.notes = text.substr(sep + 3);
		return res;
	}
	res.failed = true;
	char b[128];
	if (WIFSIGNALED(status))
		snprintf(b, sizeof(b), "process killed by signal %d", WTERMSIG(status));
	else
		snprintf(b, sizeof(b), "process exited with status %d", WEXITSTATUS(status));
	res.msg = b;
	res.notes = readFileText(err);
	return res;
}

struct Args
{
	std::string property, tier = "quick", result, replayDir = ".", scratch = ".", replay, only;
	unsigned workers = 8;
	double deadline = 800;
	bool thorough() const { return tier == "thorough"; }
};

inline Args& args()
{
	static Args a;
	return a;
}

inline int explorerMain(int argc, char** argv, std::function<std::vector<Space>(bool thorough)> make)
{
	Args& a = args();
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--property") a.property = v;
		else if (k == "--tier") a.tier = v;
		else if (k == "--result") a.result = v;
		else if (k == "--replay-dir") a.replayDir = v;
		else if (k == "--scratch") a.scratch = v;
		else if (k == "--replay") a.replay = v;
		else if (k == "--only") a.only = v;
		else if (k == "--workers") a.workers = static_cast<unsigned>(atoi(v.c_str()));
		else if (k == "--deadline") a.deadline = atof(v.c_str());
		else if (k == "--known") g().knownKeys.insert(v);
	}
	double start = now();
	std::vector<Space> spaces = make(a.thorough());

	if (!a.replay.empty())
	{
		// Replay file: "<space>\n<tier>\n<choices...>\n..."
		std::string text = readFileText(a.replay, 1 << 20);
		std::size_t n1 = text.find('\n'), n2 = text.find('\n', n1 + 1), n3 = text.find('\n', n2 + 1);
		std::string name = text.substr(0, n1), tier = text.substr(n1 + 1, n2 - n1 - 1);
		std::string nums = text.substr(n2 + 1, n3 - n2 - 1);
		std::vector<std::uint32_t> path;
		for (char* p = &nums[0]; *p;)
		{
			char* e;
			unsigned long v = strtoul(p, &e, 10);
			if (e == p)
				break;
			path.push_back(static_cast<std::uint32_t>(v));
			p = e;
		}
		spaces = make(tier == "thorough");
		for (const Space& s : spaces)
		{
			if (s.name != name)
				continue;
			AloneResult r = runAlone(s, path, a.scratch, tier == "thorough", 120);
			printf("%s: %s\n%s\n", r.failed ? "FAILED" : "passed", r.msg.c_str(), r.notes.c_str());
			return r.failed ? 1 : 0;
		}
		printf("unknown space '%s'\n", name.c_str());
		return 2;
	}

	Globals& gl = g();
	std::uint64_t tableSize = a.thorough() ? (1ULL << 27) : (1ULL << 25);
	auto anon = [](std::size_t n) {
		void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED)
		{
			perror("mmap");
			exit(2);
		}
		return p;
	};
	gl.shm = new (anon(sizeof(Shm))) Shm();
	gl.shm->tableSize = tableSize;
	gl.table = static_cast<std::atomic<std::uint64_t>*>(anon(tableSize*8));
	gl.workers = static_cast<WorkerShm*>(anon(sizeof(WorkerShm)*a.workers));

	struct Totals
	{
		std::uint64_t evals = 0, transitions = 0, traces = 0, nontrivial = 0;
	} total;
	std::map<std::string, std::uint64_t> cover;
	std::map<std::string, std::pair<std::uint64_t, std::string>> known;
	std::string spacesJson;
	std::vector<std::string> samples;
	bool exhaustive = true, violation = false, suspect = false;
	std::string vMsg, vNotes, vSpace, vReplay;
	std::vector<std::uint32_t> vPath;

	for (const Space& space : spaces)
	{
		if (!a.only.empty() && space.name.find(a.only) == std::string::npos)
			continue;
		double spaceStart = now();
		unsigned workers = space.single ? 1 : a.workers;
		memset(static_cast<void*>(gl.workers), 0, sizeof(WorkerShm)*a.workers);
		gl.shm->stop = 0;
		std::vector<pid_t> pids(workers, -1);
		std::vector<std::string> errFiles(workers);
		auto launch = [&](unsigned i) {
			errFiles[i] = a.scratch + "/worker." + std::to_string(i) + ".err";
			fflush(nullptr);
			pid_t pid = fork();
			if (pid == 0)
			{
				setpgid(0, 0);
				int fd = open(errFiles[i].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
				dup2(fd, 2);
				dup2(fd, 1);
				close(fd);
				workerMain(space, i, workers, start + a.deadline, a.thorough());
			}
			pids[i] = pid;
		};
		for (unsigned i = 0; i < workers; ++i)
			launch(i);
		std::vector<std::uint64_t> lastBeat(workers, 0);
		std::vector<double> lastTime(workers, now());
		unsigned running = workers;
		struct Candidate
		{
			unsigned worker;
			std::vector<std::uint32_t> path;
			std::string msg;
			bool hang;
		};
		std::vector<Candidate> candidates;
		auto stopAll = [&]() {
			gl.shm->stop = 1;
			for (unsigned i = 0; i < workers; ++i)
			{
				if (pids[i] <= 0)
					continue;
				kill(-pids[i], SIGKILL);
				kill(pids[i], SIGKILL);
				int st;
				waitpid(pids[i], &st, 0);
				pids[i] = -1;
			}
			running = 0;
		};
		auto candidate = [&](unsigned i, std::string msg, bool hang) {
			WorkerShm& w = gl.workers[i];
			std::vector<std::uint32_t> path(w.path, w.path + std::min<unsigned>(static_cast<unsigned>(w.pathLen), kMaxPath));
			candidates.push_back(Candidate{i, std::move(path), std::move(msg), hang});
		};
		while (running > 0)
		{
			bool progress = false;
			for (unsigned i = 0; i < workers; ++i)
			{
				if (pids[i] <= 0)
					continue;
				WorkerShm& w = gl.workers[i];
				int st;
				pid_t p = waitpid(pids[i], &st, WNOHANG);
				if (p == pids[i])
				{
					progress = true;
					kill(-pids[i], SIGKILL); // stray descendants of the worker
					pids[i] = -1;
					--running;
					if (w.status == 2)
						candidate(i, w.msg, false);
					else if (w.status == 3)
						exhaustive = false;
					else if (w.status != 1 && !gl.shm->stop)
					{
						char b[96];
						if (WIFSIGNALED(st))
							snprintf(b, sizeof(b), "worker killed by signal %d", WTERMSIG(st));
						else
							snprintf(b, sizeof(b), "worker exited with status %d", WEXITSTATUS(st));
						candidate(i, std::string(b) + "\n" + readFileText(errFiles[i]), false);
					}
					continue;
				}
				if (w.heartbeat != lastBeat[i])
				{
					lastBeat[i] = w.heartbeat;
					lastTime[i] = now();
				}
				else if (now() - lastTime[i] > space.hangSeconds)
				{
					candidate(i, "execution doesn't terminate", true);
					kill(-pids[i], SIGKILL);
					kill(pids[i], SIGKILL);
					waitpid(pids[i], &st, 0);
					pids[i] = -1;
					--running;
				}
			}
			if (!candidates.empty())
				break;
			if (!progress)
				usleep(3000);
		}
		if (!candidates.empty())
		{
			stopAll();
			for (Candidate& c : candidates)
			{
				AloneResult r = runAlone(space, c.path, a.scratch, a.thorough(), 3*space.hangSeconds);
				std::string kind = "path";
				bool confirmed = r.failed;
				if (!confirmed)
				{
					// Perhaps it needs the executions before it: repeat this worker's sequence.
					memset(static_cast<void*>(gl.workers), 0, sizeof(WorkerShm)*a.workers);
					gl.shm->stop = 0;
					launch(c.worker);
					double end = now() + 300;
					int st = 0;
					double lt = now();
					std::uint64_t lb = 0;
					WorkerShm& w = gl.workers[c.worker];
					bool hung = false;
					while (waitpid(pids[c.worker], &st, WNOHANG) == 0)
					{
						if (w.heartbeat != lb)
						{
							lb = w.heartbeat;
							lt = now();
						}
						if (now() > end || now() - lt > 2*space.hangSeconds)
						{
							hung = now() - lt > 2*space.hangSeconds;
							kill(-pids[c.worker], SIGKILL);
							kill(pids[c.worker], SIGKILL);
							waitpid(pids[c.worker], &st, 0);
							break;
						}
						usleep(3000);
					}
					pids[c.worker] = -1;
					std::vector<std::uint32_t> path(w.path,
						w.path + std::min<unsigned>(static_cast<unsigned>(w.pathLen), kMaxPath));
					if ((w.status == 2 || (w.status == 0 && (hung || WIFSIGNALED(st) ||
						WEXITSTATUS(st) != 0))) && path == c.path)
					{
						confirmed = true;
						kind = "worker-sequence";
						r.msg = c.msg + " (only after the executions before it in the same process)";
						r.notes = readFileText(errFiles[c.worker]);
					}
				}
				if (confirmed)
				{
					violation = true;
					vMsg = r.msg.empty() ? c.msg : r.msg;
					vNotes = r.notes;
					if (r.notes.empty())
						vNotes = c.msg;
					vSpace = space.name;
					vPath = c.path;
					vReplay = a.replayDir + "/" + a.property + "." + space.name + ".replay";
					FILE* f = fopen(vReplay.c_str(), "wb");
					if (f)
					{
						fprintf(f, "%s\n%s\n", space.name.c_str(), a.tier.c_str());
						for (std::uint32_t v : c.path)
							fprintf(f, "%u ", v);
						fprintf(f, "\nkind=%s worker=%u of %u\n%s\n%s\n", kind.c_str(), c.worker,
							workers, vMsg.c_str(), vNotes.c_str());
						fclose(f);
					}
					break;
				}
				suspect = true;
				fprintf(stderr, "unconfirmed: space %s worker %u: %s\n", space.name.c_str(), c.worker,
					c.msg.c_str());
			}
			if (!violation)
				exhaustive = false; // unconfirmed candidate; the space was cut short
		}
		Totals t;
		for (unsigned i = 0; i < workers; ++i)
		{
			WorkerShm& w = gl.workers[i];
			t.evals += w.evals;
			t.transitions += w.transitions;
			t.traces += w.traces;
			t.nontrivial += w.nontrivial;
			for (unsigned k = 0; k < kMaxCover && w.coverName[k][0]; ++k)
				cover[w.coverName[k]] += w.coverCount[k];
			for (unsigned k = 0; k < kMaxKnown && w.knownKey[k][0]; ++k)
			{
				auto& e = known[w.knownKey[k]];
				e.first += w.knownCount[k];
				if (e.second.empty())
					e.second = w.knownMsg[k];
			}
		}
		total.evals += t.evals;
		total.transitions += t.transitions;
		total.traces += t.traces;
		total.nontrivial += t.nontrivial;
		char b[512];
		snprintf(b, sizeof(b), "%s{\"name\":\"%s\",\"executions\":%llu,\"seconds\":%.2f,\"bounds\":\"",
			spacesJson.empty() ? "" : ",", space.name.c_str(),
			static_cast<unsigned long long>(t.evals), now() - spaceStart);
		spacesJson += b;
		spacesJson += jsonEscape(space.bounds) + "\"}";
		if (violation)
			break;
		if (t.evals > 0 && samples.size() < 3)
		{
			// A sample: the middle-ish path 0..0 run verbosely.
			AloneResult r = runAlone(space, {}, a.scratch, a.thorough(), 60);
			samples.push_back(space.name + ": " + r.notes.substr(0, 700));
		}
		if (now() - start > a.deadline)
		{
			exhaustive = false;
			break;
		}
	}

	if (!a.result.empty())
	{
		FILE* f = fopen(a.result.c_str(), "wb");
		if (!f)
			return 2;
		fprintf(f, "{\"property\":\"%s\",\"executions\":%llu,\"transitions\":%llu,\"traces\":%llu,"
			"\"nontrivial\":%llu,\"states\":%llu,\"state_table_full\":%s,\"exhaustive\":%s,"
			"\"unconfirmed\":%s,\"wall_s\":%.3f,\n", a.property.c_str(),
			(unsigned long long)total.evals, (unsigned long long)total.transitions,
			(unsigned long long)total.traces, (unsigned long long)total.nontrivial,
			(unsigned long long)gl.shm->stateCount.load(), gl.shm->tableFull ? "true" : "false",
			exhaustive && !suspect ? "true" : "false", suspect ? "true" : "false", now() - start);
		fprintf(f, "\"spaces\":[%s],\n\"samples\":[", spacesJson.c_str());
		for (std::size_t i = 0; i < samples.size(); ++i)
			fprintf(f, "%s\"%s\"", i ? "," : "", jsonEscape(samples[i]).c_str());
		fprintf(f, "],\n\"cover\":{");
		bool first = true;
		for (auto& c : cover)
		{
			fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jsonEscape(c.first).c_str(), (unsigned long long)c.second);
			first = false;
		}
		fprintf(f, "},\n\"known\":[");
		first = true;
		for (auto& k : known)
		{
			fprintf(f, "%s{\"key\":\"%s\",\"count\":%llu,\"detail\":\"%s\"}", first ? "" : ",",
				jsonEscape(k.first).c_str(), (unsigned long long)k.second.first,
				jsonEscape(k.second.second).c_str());
			first = false;
		}
		fprintf(f, "],\n\"violation\":%s,\"message\":\"%s\",\"notes\":\"%s\",\"space\":\"%s\",\"replay\":\"%s\"}\n",
			violation ? "true" : "false", jsonEscape(vMsg).c_str(), jsonEscape(vNotes).c_str(),
			jsonEscape(vSpace).c_str(), jsonEscape(vReplay).c_str());
		fclose(f);
	}
	return violation ? 1 : 0;
}

} // namespace mc
