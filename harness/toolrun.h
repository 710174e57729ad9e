// Runs the tool's main() in a forked child inside a scratch directory, with its system calls intercepted.
//
// A seccomp filter traps the calls that open, read, write, close, create or change files into a SIGSYS
// handler in the child, which logs each one, may replace it by a fault, and refuses anything that
// would change the file system outside the scratch directory or start a process. The handler's own
// system calls come from one instruction the filter lets through.
#pragma once
#include "explore.h"
#include <cstddef>
#include <dirent.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>

int vfc_main(int argc, const char** argv);

asm(".text\n.globl vfc_gate\n.globl vfc_gate_end\n.type vfc_gate,@function\n"
	"vfc_gate:\n"
	"mov %rdi, %rax\nmov %rsi, %rdi\nmov %rdx, %rsi\nmov %rcx, %rdx\nmov %r8, %r10\nmov %r9, %r8\nmov 8(%rsp), %r9\n"
	"syscall\n"
	"vfc_gate_end:\nret\n");
extern "C" long vfc_gate(long nr, long a, long b, long c, long d, long e, long f);
extern "C" char vfc_gate_end[];

namespace tool
{

enum class Call : std::uint8_t { OpenRead, OpenWrite, Read, Write, Close, Mkdir, Sync, Other };

inline const char* name(Call c)
{
	static const char* n[] = {"open for reading", "open for writing", "read", "write", "close", "mkdir", "sync", "other"};
	return n[static_cast<int>(c)];
}

struct Logged
{
	Call call;
	bool faulted;
	int fd;
	long size, result;
	char path[96];
};

// A fault at one intercepted call (numbered over all calls but those on standard error).
struct Fault
{
	unsigned at = ~0u;
	int error = 0;      // fails with this errno
	long transfer = -1; // or moves at most this many bytes
	bool once = true;   // or every matching call from there on (the condition persists)
	bool kill = false;  // the tool is killed instead, once the call has moved that many bytes (-1: all; 0: it isn't made)
	bool stop = false;  // the tool stops in front of the call, until it's continued
};

constexpr unsigned kMaxLog = 2048;

struct Shared
{
	unsigned calls;
	unsigned escapes;
	char escape[256];
	int ready;
	Logged log[kMaxLog];
};

struct State
{
	Shared* shm = nullptr;
	std::vector<Fault> faults;
	char root[512];
	std::size_t rootLen = 0;
	char cwd[512];
};
inline State& st()
{
	static State s;
	return s;
}

// Lexically absolute path, without "." and "..".
inline bool normalise(char* out, std::size_t size, const char* base, const char* path)
{
	char tmp[8192];
	int n = path[0] == '/' ? snprintf(tmp, sizeof(tmp), "%s", path) : snprintf(tmp, sizeof(tmp), "%s/%s", base, path);
	if (n < 0 || static_cast<std::size_t>(n) >= sizeof(tmp))
		return false;
	std::size_t len = 0;
	for (char* p = tmp; *p;)
	{
		while (*p == '/')
			++p;
		char* e = p;
		while (*e && *e != '/')
			++e;
		std::size_t k = static_cast<std::size_t>(e - p);
		if (k == 2 && p[0] == '.' && p[1] == '.')
		{
			while (len > 0 && out[--len] != '/')
				;
		}
		else if (k > 0 && !(k == 1 && p[0] == '.'))
		{
			if (len + k + 2 > size)
				return false;
			out[len++] = '/';
			memcpy(out + len, p, k);
			len += k;
		}
		p = e;
	}
	out[len] = 0;
	return true;
}

inline bool inside(const char* path)
{
	State& s = st();
	char full[8192];
	return normalise(full, sizeof(full), s.cwd, path) && strncmp(full, s.root, s.rootLen) == 0 && (full[s.rootLen] == '/' || full[s.rootLen] == 0);
}

inline void escaped(const char* what, const char* path)
{
	Shared& m = *st().shm;
	if (m.escapes++ == 0)
		snprintf(m.escape, sizeof(m.escape), "%s %s", what, path ? path : "");
}

inline void onTrap(int, siginfo_t* info, void* context)
{
	ucontext_t& u = *static_cast<ucontext_t*>(context);
	greg_t* r = u.uc_mcontext.gregs;
	int saved = errno;
	State& s = st();
	long nr = info->si_syscall;
	long a[6] = {r[REG_RDI], r[REG_RSI], r[REG_RDX], r[REG_R10], r[REG_R8], r[REG_R9]};
	Call call = Call::Other;
	int fd = -1;
	long size = 0;
	const char* path = nullptr;
	const char* path2 = nullptr;
	bool change = false, refuse = false;
	switch (nr)
	{
		case SYS_read: case SYS_pread64: call = Call::Read; fd = static_cast<int>(a[0]); size = a[2]; break;
		case SYS_write: case SYS_pwrite64: call = Call::Write; fd = static_cast<int>(a[0]); size = a[2]; break;
		case SYS_readv: case SYS_writev:
			call = nr == SYS_readv ? Call::Read : Call::Write;
			fd = static_cast<int>(a[0]);
			for (long i = 0; i < a[2]; ++i)
				size += static_cast<long>(reinterpret_cast<iovec*>(a[1])[i].iov_len);
			break;
		case SYS_close: call = Call::Close; fd = static_cast<int>(a[0]); break;
		case SYS_fsync: case SYS_fdatasync: call = Call::Sync; fd = static_cast<int>(a[0]); break;
		case SYS_open: case SYS_openat: case SYS_creat:
		{
			path = reinterpret_cast<const char*>(nr == SYS_openat ? a[1] : a[0]);
			long flags = nr == SYS_open ? a[1] : nr == SYS_openat ? a[2] : O_CREAT | O_WRONLY | O_TRUNC;
			change = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
			call = change ? Call::OpenWrite : Call::OpenRead;
			break;
		}
		case SYS_mkdir: call = Call::Mkdir; path = reinterpret_cast<const char*>(a[0]); change = true; break;
		case SYS_mkdirat: call = Call::Mkdir; path = reinterpret_cast<const char*>(a[1]); change = true; break;
		case SYS_rename: case SYS_link: case SYS_symlink:
			path = reinterpret_cast<const char*>(a[0]); path2 = reinterpret_cast<const char*>(a[1]); change = true; break;
		case SYS_renameat: case SYS_renameat2: case SYS_linkat:
			path = reinterpret_cast<const char*>(a[1]); path2 = reinterpret_cast<const char*>(a[3]); change = true; break;
		case SYS_symlinkat: path = reinterpret_cast<const char*>(a[2]); change = true; break;
		case SYS_unlink: case SYS_rmdir: case SYS_truncate: case SYS_chmod: case SYS_chown: case SYS_lchown: case SYS_mknod:
			path = reinterpret_cast<const char*>(a[0]); change = true; break;
		case SYS_unlinkat: case SYS_fchmodat: case SYS_fchownat: case SYS_mknodat:
			path = reinterpret_cast<const char*>(a[1]); change = true; break;
		default: refuse = true; break; // starting processes and signalling others
	}
	Logged* log = nullptr;
	unsigned index = ~0u;
	if (fd != 2)
	{
		index = s.shm->calls++;
		if (index < kMaxLog)
		{
			log = &s.shm->log[index];
			log->call = call;
			log->fd = fd;
			log->size = size;
			log->faulted = false;
			if (path)
				snprintf(log->path, sizeof(log->path), "%s", path);
			else
				log->path[0] = 0;
		}
	}
	long result = 0;
	bool done = false;
	if (call == Call::Mkdir && !inside(path) && vfc_gate(SYS_access, reinterpret_cast<long>(path), F_OK, 0, 0, 0, 0) == 0)
	{
		result = -EEXIST; // what the kernel says too, and harmless
		done = true;
	}
	else if (refuse || (change && (!inside(path) || (path2 && !inside(path2)))))
	{
		escaped(refuse ? "system call" : name(call), path);
		result = -EACCES;
		done = true;
	}
	iovec clipped[8];
	bool kill = false;
	for (const Fault& f : s.faults)
	{
		if (f.stop && f.at == index)
			vfc_gate(SYS_kill, vfc_gate(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGSTOP, 0, 0, 0, 0);
		if (f.kill && f.at == index)
		{
			kill = true;
			done |= f.transfer == 0;
		}
		bool hit = f.at == index;
		// A persistent condition: all later calls of the kind on the same thing.
		if (!hit && !f.once && f.at < index && f.at < kMaxLog && log)
		{
			const Logged& first = s.shm->log[f.at];
			hit = first.call == call && first.fd == fd;
		}
		if (done || !hit || index == ~0u)
			continue;
		if (f.error)
		{
			if (call == Call::Close) // the descriptor is gone either way
				vfc_gate(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
			result = -f.error;
			done = true;
			if (log)
				log->faulted = true;
		}
		else if (f.transfer >= 0 && size > f.transfer)
		{
			if (nr == SYS_readv || nr == SYS_writev)
			{
				long left = f.transfer, n = 0;
				iovec* v = reinterpret_cast<iovec*>(a[1]);
				for (; n < a[2] && n < 8 && left > 0; ++n)
				{
					clipped[n] = v[n];
					if (static_cast<long>(clipped[n].iov_len) > left)
						clipped[n].iov_len = static_cast<std::size_t>(left);
					left -= static_cast<long>(clipped[n].iov_len);
				}
				a[1] = reinterpret_cast<long>(clipped);
				a[2] = n;
			}
			else
				a[2] = f.transfer;
			if (log)
				log->faulted = true;
		}
	}
	if (!done)
		result = vfc_gate(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
	if (kill)
		vfc_gate(SYS_kill, vfc_gate(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGKILL, 0, 0, 0, 0);
	if (log)
		log->result = result;
	r[REG_RAX] = result;
	errno = saved;
}

inline bool install()
{
	struct sigaction sa;
	memset(&sa, 0, sizeof(sa));
	sa.sa_sigaction = onTrap;
	sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	if (sigaction(SIGSYS, &sa, nullptr) != 0)
		return false;
	static const long trapped[] = {SYS_read, SYS_write, SYS_open, SYS_close, SYS_pread64, SYS_pwrite64, SYS_readv, SYS_writev, SYS_openat, SYS_creat, SYS_mkdir, SYS_mkdirat,
		SYS_fsync, SYS_fdatasync, SYS_rename, SYS_renameat, SYS_renameat2, SYS_unlink, SYS_unlinkat, SYS_rmdir, SYS_link, SYS_linkat, SYS_symlink, SYS_symlinkat, SYS_truncate,
		SYS_chmod, SYS_fchmodat, SYS_chown, SYS_lchown, SYS_fchownat, SYS_mknod, SYS_mknodat, SYS_fork, SYS_vfork, SYS_execve, SYS_execveat, SYS_kill};
	std::vector<sock_filter> f;
	auto stmt = [&](unsigned short code, std::uint32_t k) { f.push_back(sock_filter{code, 0, 0, k}); };
	auto jump = [&](unsigned short code, std::uint32_t k, std::uint8_t t, std::uint8_t e) { f.push_back(sock_filter{code, t, e, k}); };
	std::uint64_t end = reinterpret_cast<std::uint64_t>(vfc_gate_end); // the address after the syscall instruction
	stmt(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer));
	jump(BPF_JMP | BPF_JEQ | BPF_K, static_cast<std::uint32_t>(end), 0, 3);
	stmt(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer) + 4);
	jump(BPF_JMP | BPF_JEQ | BPF_K, static_cast<std::uint32_t>(end >> 32), 0, 1);
	stmt(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	stmt(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr));
	for (long n : trapped)
	{
		jump(BPF_JMP | BPF_JEQ | BPF_K, static_cast<std::uint32_t>(n), 0, 1);
		stmt(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
	}
	stmt(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	sock_fprog prog{static_cast<unsigned short>(f.size()), f.data()};
	return prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog) == 0;
}

struct Result
{
	int exit = -1;     // exit status, or -1
	int signal = 0;
	std::string out, err, escape;
	unsigned escapes = 0;
	std::vector<Logged> log;
	std::string ended() const
	{
		char b[64];
		if (signal)
			snprintf(b, sizeof(b), signal == SIGALRM ? "doesn't terminate" : "is killed by signal %d", signal);
		else
			snprintf(b, sizeof(b), "exits with %d", exit);
		return b;
	}
};

inline std::string readAll(int fd)
{
	std::string s;
	char buf[65536];
	lseek(fd, 0, SEEK_SET);
	ssize_t n;
	while ((n = ::read(fd, buf, sizeof(buf))) > 0)
		s.append(buf, static_cast<std::size_t>(n));
	return s;
}

inline rlim_t& fileLimit() // bytes in a file
{
	static rlim_t bytes = 1u << 28;
	return bytes;
}

inline unsigned& timeLimit() // seconds for one run
{
	static unsigned t = 30;
	return t;
}

// What the standard streams are, and what else surrounds a run.
enum class Standard : std::uint8_t { Memory, MemoryBehind, Pipe, Socket, File, Append };

struct Surroundings
{
	Standard in = Standard::Memory, out = Standard::Memory;
	mode_t mask = 022;
	std::vector<std::pair<std::string, std::string>> env;
	unsigned closed = 0; // standard descriptors closed before it starts
};

// A run in progress. root: the only place that may change; cwd: where the tool runs (within root).
class Process
{
public:
	Process(mc::Ctx& c, const std::string& root, const std::string& cwd, const std::vector<std::string>& args, const std::string& input = "",
		const std::vector<Fault>& faults = {}, const Surroundings& around = {}) : ctx(c), m_around(around)
	{
		if (spare().empty())
			m_shm = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
		else
		{
			m_shm = spare().back();
			spare().pop_back();
		}
		m_shm->calls = m_shm->escapes = 0;
		m_shm->ready = 0;
		int in = open(around.in, true, input), out = open(around.out, false, ""), err = memfd_create("err", MFD_CLOEXEC);
		m_out = m_far >= 0 ? m_far : out;
		m_err = err;
		std::vector<const char*> argv{"vfc"};
		for (auto& a : args)
			argv.push_back(a.c_str());
		argv.push_back(nullptr);
		State& s = st();
		s.shm = m_shm;
		s.faults = faults;
		snprintf(s.root, sizeof(s.root), "%s", root.c_str());
		s.rootLen = strlen(s.root);
		snprintf(s.cwd, sizeof(s.cwd), "%s", cwd.c_str());
		m_pid = fork();
		if (m_pid < 0)
			ctx.fail("harness: fork fails");
		if (m_pid == 0)
		{
			dup2(in, 0);
			dup2(out, 1);
			dup2(err, 2);
			for (int fd : {in, out, err, m_far})
				if (fd > 2)
					close(fd);
			for (int fd = 0; fd < 3; ++fd)
				if (around.closed >> fd & 1)
					close(fd);
			rlimit core{0, 0}, file{fileLimit(), fileLimit()};
			setrlimit(RLIMIT_CORE, &core);
			setrlimit(RLIMIT_FSIZE, &file);
			signal(SIGPIPE, SIG_DFL);
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			alarm(timeLimit());
			if (chdir(cwd.c_str()) != 0)
				_exit(99);
			umask(around.mask);
			for (auto& e : around.env)
				setenv(e.first.c_str(), e.second.c_str(), 1);
			if (!install())
				_exit(98);
			m_shm->ready = 1;
			exit(vfc_main(static_cast<int>(argv.size()) - 1, argv.data()));
		}
		close(in);
		if (out != m_out)
			close(out);
	}
	Process(const Process&) = delete;
	~Process()
	{
		if (!m_ended)
		{
			::kill(m_pid, SIGKILL);
			while (waitpid(m_pid, nullptr, 0) < 0 && errno == EINTR)
				;
		}
		if (m_out >= 0)
			close(m_out);
		close(m_err);
		spare().push_back(m_shm);
	}

	// Whether it stopped rather than ended.
	bool wait()
	{
		int status = 0;
		while (waitpid(m_pid, &status, WUNTRACED) < 0 && errno == EINTR)
			;
		if (WIFSTOPPED(status))
			return true;
		m_ended = true;
		if (WIFEXITED(status))
			m_result.exit = WEXITSTATUS(status);
		else
			m_result.signal = WTERMSIG(status);
		return false;
	}
	void resume() { ::kill(m_pid, SIGCONT); }

	Result finish()
	{
		while (!m_ended)
			if (wait())
				resume();
		Result& r = m_result;
		if (m_far >= 0)
		{
			char buf[65536];
			ssize_t n;
			while ((n = ::read(m_out, buf, sizeof(buf))) > 0)
				r.out.append(buf, static_cast<std::size_t>(n));
		}
		else
			r.out = readAll(m_out);
		if (m_around.out == Standard::MemoryBehind || m_around.out == Standard::Append)
		{
			std::size_t n = strlen(kBefore);
			if (r.out.compare(0, n, kBefore) != 0)
				ctx.fail("the tool destroys what was on standard output before it");
			r.out.erase(0, n);
		}
		r.err = readAll(m_err);
		if (!m_shm->ready)
			ctx.fail("harness: the child can't start (%d)", r.exit);
		r.escapes = m_shm->escapes;
		if (r.escapes)
			r.escape = m_shm->escape;
		r.log.assign(m_shm->log, m_shm->log + std::min(m_shm->calls, kMaxLog));
		ctx.beat();
		ctx.step();
		if (r.escapes)
			ctx.fail("the tool tries to change something outside its scratch directory: %s", r.escape.c_str());
		return r;
	}

private:
	static constexpr const char* kBefore = "{\"printed\": \"before the run\"}\n";
	mc::Ctx& ctx;
	Surroundings m_around;
	Shared* m_shm;
	int m_out = -1, m_err = -1, m_far = -1;
	pid_t m_pid = -1;
	bool m_ended = false;
	Result m_result;

	static std::vector<Shared*>& spare()
	{
		static std::vector<Shared*> s;
		return s;
	}
	int open(Standard kind, bool input, const std::string& content)
	{
		int fd[2] = {-1, -1};
		auto fill = [&](int f, const std::string& data) {
			for (std::size_t done = 0; f >= 0 && done < data.size();)
			{
				ssize_t n = ::write(f, data.data() + done, data.size() - done); // not more than 2 GB at once
				if (n <= 0)
					f = -1;
				else
					done += static_cast<std::size_t>(n);
			}
			if (f < 0)
				ctx.fail("harness: no stream");
		};
		switch (kind)
		{
			case Standard::Pipe:
			case Standard::Socket:
				if (kind == Standard::Pipe ? pipe2(fd, O_CLOEXEC) != 0 : socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, fd) != 0)
					ctx.fail("harness: no pipe");
				if (input) // the content fits in the buffer
				{
					fill(fd[1], content);
					close(fd[1]);
					return fd[0];
				}
				m_far = fd[0];
				return fd[1];
			case Standard::File:
			{
				std::string name = mc::args().scratch + "/stream." + std::to_string(getpid());
				fd[0] = ::open(name.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_CLOEXEC, 0600);
				unlink(name.c_str());
				fill(fd[0], content);
				break;
			}
			default:
				fd[0] = memfd_create("stream", MFD_CLOEXEC);
				if (kind != Standard::Memory)
					fill(fd[0], kBefore);
				fill(fd[0], content);
				if (kind == Standard::Append)
					fcntl(fd[0], F_SETFL, O_APPEND);
				break;
		}
		if (input)
			lseek(fd[0], kind == Standard::Memory || kind == Standard::File ? 0 : static_cast<off_t>(strlen(kBefore)), SEEK_SET);
		return fd[0];
	}
};

inline Result run(mc::Ctx& ctx, const std::string& root, const std::string& cwd, const std::vector<std::string>& args, const std::string& input = "",
	const std::vector<Fault>& faults = {}, unsigned closed = 0)
{
	Surroundings around;
	around.closed = closed;
	return Process(ctx, root, cwd, args, input, faults, around).finish();
}

// Scratch trees. Only ever touches paths made from mc::args().scratch.
inline void removeTree(const std::string& dir)
{
	if (DIR* d = opendir(dir.c_str()))
	{
		while (dirent* e = readdir(d))
		{
			std::string n = e->d_name;
			if (n == "." || n == "..")
				continue;
			std::string p = dir + "/" + n;
			struct stat s;
			if (lstat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode))
				removeTree(p);
			else
				unlink(p.c_str());
		}
		closedir(d);
		rmdir(dir.c_str());
	}
}

inline void put(const std::string& path, const std::string& data)
{
	int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
	if (fd < 0)
		throw mc::Failure{"harness: can't write " + path};
	std::size_t n = 0;
	while (n < data.size())
	{
		ssize_t k = ::write(fd, data.data() + n, data.size() - n);
		if (k <= 0)
			throw mc::Failure{"harness: can't write " + path};
		n += static_cast<std::size_t>(k);
	}
	close(fd);
}

inline bool get(const std::string& path, std::string& data)
{
	struct stat s;
	int fd = open(path.c_str(), O_RDONLY);
	if (fd < 0 || fstat(fd, &s) != 0 || !S_ISREG(s.st_mode))
	{
		if (fd >= 0)
			close(fd);
		return false;
	}
	data = readAll(fd);
	close(fd);
	return true;
}

// Everything below a directory: contents of files, and "<dir>" for directories.
inline void snapshot(std::map<std::string, std::string>& out, const std::string& dir, const std::string& prefix = "")
{
	DIR* d = opendir(dir.c_str());
	if (!d)
		return;
	while (dirent* e = readdir(d))
	{
		std::string n = e->d_name;
		if (n == "." || n == "..")
			continue;
		struct stat s;
		std::string p = dir + "/" + n, data;
		if (lstat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode))
		{
			out[prefix + n] = "<dir>";
			snapshot(out, p, prefix + n + "/");
		}
		else if (get(p, data))
			out[prefix + n] = "=" + data;
		else
			out[prefix + n] = "<other>";
	}
	closedir(d);
}

// A fresh directory per execution, removed with it.
class Scratch
{
public:
	Scratch()
	{
		m_path = mc::args().scratch + "/w" + std::to_string(getpid());
		if (depth()++ > 0)
			m_path += "." + std::to_string(depth());
		removeTree(m_path);
		if (::mkdir(m_path.c_str(), 0755) != 0)
			throw mc::Failure{"harness: can't make " + m_path};
	}
	~Scratch()
	{
		removeTree(m_path);
		--depth();
	}
	Scratch(const Scratch&) = delete;
	const std::string& path() const { return m_path; }
	std::string dir(const std::string& name) const
	{
		std::string p = m_path;
		std::size_t at = 0;
		while (at < name.size())
		{
			std::size_t e = name.find('/', at);
			if (e == std::string::npos)
				e = name.size();
			p = m_path + "/" + name.substr(0, e);
			::mkdir(p.c_str(), 0755);
			at = e + 1;
		}
		return m_path + "/" + name;
	}

private:
	std::string m_path;
	static unsigned& depth()
	{
		static unsigned n = 0;
		return n;
	}
};

// Standard base64, for what goes in and comes out.
inline std::string encode64(const std::string& d)
{
	static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string s;
	for (std::size_t bit = 0; bit < d.size()*8; bit += 6)
	{
		unsigned v = 0;
		for (std::size_t b = bit; b < bit + 6; ++b)
			v = v << 1 | (b < d.size()*8 ? static_cast<unsigned char>(d[b/8]) >> (7 - b%8) & 1u : 0u);
		s += t[v];
	}
	while (s.size()%4)
		s += '=';
	return s;
}

inline bool decode64(std::string& out, const std::string& s)
{
	static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	if (s.size()%4)
		return false;
	std::size_t n = s.size();
	for (int i = 0; i < 2 && n > 0 && s[n - 1] == '='; ++i)
		--n;
	unsigned acc = 0, bits = 0;
	for (std::size_t i = 0; i < n; ++i)
	{
		const char* at = static_cast<const char*>(memchr(t, static_cast<unsigned char>(s[i]), 64));
		if (!at)
			return false;
		acc = (acc << 6 | static_cast<unsigned>(at - t)) & 0xFFFF;
		bits += 6;
		if (bits >= 8)
		{
			bits -= 8;
			out += static_cast<char>(acc >> bits);
		}
	}
	return true;
}

} // namespace tool
