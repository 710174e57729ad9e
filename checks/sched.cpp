#include "threadsched.h"
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <new>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

// This file and the harness are not instrumented.
namespace sched
{
namespace
{

constexpr std::size_t kArena = 64u << 20;
constexpr std::size_t kStack = 1u << 20;
constexpr std::size_t kTable = 1u << 20; // granules

struct Shared // results, visible to the parent
{
	volatile int done, deadlock;
	volatile std::uint64_t accesses, points, conflictCount;
	std::uint64_t conflicts[kMaxConflicts];
	std::uint32_t outSize[kMaxThreads];
	char out[kMaxThreads][kResultSize];
};

struct Granule
{
	std::uint64_t key;
	std::uint8_t readers, writers, sync, race, final; // final: initialised, only read from now on
	std::uint32_t r[kMaxThreads], w[kMaxThreads]; // clock of the last plain access per thread
};
struct Clock { std::uint32_t c[kMaxThreads]; };
struct Sync { const void* p; Clock c; };

Shared* shm;
char* arena[kMaxThreads];
std::size_t arenaUsed[kMaxThreads];
char* stacks[kMaxThreads];
Granule* table;
std::uint32_t* used; // occupied slots of the table
std::uint32_t usedCount;
Clock clocks[kMaxThreads];
Sync syncs[4096];

bool active;                     // in the child, threads running
__thread int tid = -1;           // scheduled thread, or -1
unsigned threadCount;
sem_t sems[kMaxThreads];
sem_t allDone;
bool finished[kMaxThreads];
const void* blockedOn[kMaxThreads];
std::uint64_t points, accesses;
const Preemption* preempt;
std::size_t preemptCount, preemptNext;
const std::uint64_t* sharedSet;
std::size_t sharedSize;

void switchTo(int to)
{
	int me = tid;
	if (to == me)
		return;
	sem_post(&sems[to]);
	while (sem_wait(&sems[me]) != 0) {}
}

bool runnable(unsigned t) { return t < threadCount && !finished[t] && !blockedOn[t]; }

int pickOther(int me)
{
	for (unsigned k = 1; k <= threadCount; ++k)
	{
		unsigned t = (static_cast<unsigned>(me) + k)%threadCount;
		if (static_cast<int>(t) != me && runnable(t))
			return static_cast<int>(t);
	}
	return -1;
}

void blockOn(const void* what)
{
	blockedOn[tid] = what;
	int o = pickOther(tid);
	if (o < 0)
	{
		shm->deadlock = 1;
		_exit(3);
	}
	switchTo(o);
}

void wake(const void* what)
{
	for (unsigned t = 0; t < threadCount; ++t)
		if (blockedOn[t] == what)
			blockedOn[t] = nullptr;
}

void point()
{
	std::uint64_t ordinal = points++;
	if (preemptNext < preemptCount && preempt[preemptNext].at == ordinal)
	{
		unsigned to = preempt[preemptNext++].to;
		if (runnable(to))
			switchTo(static_cast<int>(to));
	}
}

Clock* syncClock(const void* p)
{
	std::size_t i = (reinterpret_cast<std::uintptr_t>(p)*0x9e3779b97f4a7c15ULL >> 40) & 4095;
	for (unsigned n = 0; n < 4096; ++n, i = (i + 1) & 4095)
	{
		if (!syncs[i].p)
			syncs[i].p = p;
		if (syncs[i].p == p)
			return &syncs[i].c;
	}
	_exit(8);
}

void acquire(const void* p)
{
	if (!active || tid < 0)
		return;
	const Clock* s = syncClock(p);
	for (unsigned t = 0; t < threadCount; ++t)
		if (s->c[t] > clocks[tid].c[t])
			clocks[tid].c[t] = s->c[t];
}

void release(const void* p)
{
	if (!active || tid < 0)
		return;
	Clock* s = syncClock(p);
	for (unsigned t = 0; t < threadCount; ++t)
		if (clocks[tid].c[t] > s->c[t])
			s->c[t] = clocks[tid].c[t];
	++clocks[tid].c[tid];
}

std::size_t slotOf(std::uint64_t g)
{
	std::size_t i = (g*0x9e3779b97f4a7c15ULL >> 20) & (kTable - 1);
	while (table[i].key && table[i].key != g)
		i = (i + 1) & (kTable - 1);
	return i;
}

// A location is shared when two threads race on it (happens-before by vector clocks), or when it
// is synchronised on by two threads; only those need scheduling points.
void access(const void* p, std::size_t n, bool write, bool sync = false)
{
	if (!active || tid < 0)
		return;
	++accesses;
	std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p);
	const char* c = static_cast<const char*>(p);
	if (c >= stacks[tid] && c < stacks[tid] + kStack)
		return;
	bool scheduled = false;
	for (std::uint64_t g = a >> 3; g <= (a + (n ? n - 1 : 0)) >> 3; ++g)
	{
		std::size_t i = slotOf(g);
		Granule& e = table[i];
		if (!e.key)
		{
			e.key = g;
			used[usedCount++] = static_cast<std::uint32_t>(i);
			if (usedCount > kTable/2)
				_exit(7);
		}
		if (!scheduled && sharedSize && !(table[i].final && !write))
		{
			std::size_t lo = 0, hi = sharedSize;
			while (lo < hi)
			{
				std::size_t mid = (lo + hi)/2;
				if (sharedSet[mid] < g) lo = mid + 1; else hi = mid;
			}
			if (lo < sharedSize && sharedSet[lo] == g)
			{
				point();
				scheduled = true;
			}
		}
		(write ? e.writers : e.readers) |= static_cast<std::uint8_t>(1 << tid);
		if (sync)
		{
			e.sync = 1;
			continue;
		}
		const Clock& me = clocks[tid];
		for (unsigned t = 0; t < threadCount; ++t)
			if (static_cast<int>(t) != tid && (e.w[t] > me.c[t] || (write && e.r[t] > me.c[t])))
				e.race = 1;
		(write ? e.w : e.r)[tid] = me.c[tid];
	}
}

struct Start { unsigned id; const Body* body; };

void* threadMain(void* arg)
{
	Start* s = static_cast<Start*>(arg);
	while (sem_wait(&sems[s->id]) != 0) {}
	tid = static_cast<int>(s->id);
	std::string out;
	try
	{
		out = (*s->body)();
	}
	catch (const std::exception& e)
	{
		out = std::string("exception ") + e.what();
	}
	std::size_t n = out.size() < kResultSize ? out.size() : kResultSize;
	std::memcpy(shm->out[s->id], out.data(), n);
	shm->outSize[s->id] = static_cast<std::uint32_t>(n);
	finished[s->id] = true;
	int o = pickOther(tid);
	tid = -1;
	if (o >= 0)
		sem_post(&sems[o]);
	else
	{
		for (unsigned t = 0; t < threadCount; ++t)
			if (!finished[t])
			{
				shm->deadlock = 1;
				_exit(3);
			}
		sem_post(&allDone);
	}
	return nullptr;
}

} // namespace

void init()
{
	auto map = [](std::size_t n, bool share) {
		void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, (share ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED)
			abort();
		return static_cast<char*>(p);
	};
	shm = reinterpret_cast<Shared*>(map(sizeof(Shared), true));
	for (unsigned t = 0; t < kMaxThreads; ++t)
	{
		arena[t] = map(kArena, false);
		stacks[t] = map(kStack, false);
	}
	table = reinterpret_cast<Granule*>(map(sizeof(Granule)*kTable, false));
	used = reinterpret_cast<std::uint32_t*>(map(sizeof(std::uint32_t)*kTable, false));
}

RunResult run(const std::vector<Body>& bodies, unsigned first, const std::vector<Preemption>& preemptions,
	const std::vector<std::uint64_t>& sharedLocations)
{
	static bool ready = false;
	static pid_t owner = 0;
	if (!ready || owner != getpid())
	{
		// Once per process, so that parallel workers don't share result memory.
		init();
		ready = true;
		owner = getpid();
	}
	std::memset(static_cast<void*>(shm), 0, offsetof(Shared, out));
	fflush(nullptr);
	pid_t pid = fork();
	if (pid == 0)
	{
		threadCount = static_cast<unsigned>(bodies.size());
		preempt = preemptions.data();
		preemptCount = preemptions.size();
		sharedSet = sharedLocations.data();
		sharedSize = sharedLocations.size();
		sem_init(&allDone, 0, 0);
		Start starts[kMaxThreads];
		pthread_t threads[kMaxThreads];
		for (unsigned t = 0; t < threadCount; ++t)
		{
			sem_init(&sems[t], 0, 0);
			clocks[t].c[t] = 1;
			starts[t] = Start{t, &bodies[t]};
			pthread_attr_t attr;
			pthread_attr_init(&attr);
			pthread_attr_setstack(&attr, stacks[t], kStack);
			if (pthread_create(&threads[t], &attr, threadMain, &starts[t]) != 0)
				_exit(9);
		}
		active = true;
		sem_post(&sems[first]);
		while (sem_wait(&allDone) != 0) {}
		active = false;
		std::uint64_t n = 0;
		for (std::uint32_t i = 0; i < usedCount && n < kMaxConflicts; ++i)
		{
			const Granule& g = table[used[i]];
			unsigned all = g.readers | g.writers;
			if (g.writers && (all & (all - 1)) && (g.race || g.sync))
				shm->conflicts[n++] = g.key;
		}
		shm->conflictCount = n;
		shm->accesses = accesses;
		shm->points = points;
		shm->done = 1;
		_exit(0);
	}
	RunResult r;
	int st = 0;
	timespec start, t;
	clock_gettime(CLOCK_MONOTONIC, &start);
	unsigned spins = 0;
	for (;;)
	{
		pid_t p = waitpid(pid, &st, WNOHANG);
		if (p == pid)
			break;
		clock_gettime(CLOCK_MONOTONIC, &t);
		if (t.tv_sec - start.tv_sec > 20)
		{
			kill(pid, SIGKILL);
			waitpid(pid, &st, 0);
			r.hung = true;
			break;
		}
		if (++spins > 50)
			usleep(spins > 500 ? 500 : 50);
		else
			sched_yield();
	}
	r.status = st;
	r.deadlock = shm->deadlock != 0;
	r.completed = WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm->done;
	r.accesses = shm->accesses;
	r.points = shm->points;
	for (std::uint64_t i = 0; i < shm->conflictCount; ++i)
		r.conflicts.push_back(shm->conflicts[i]);
	for (std::size_t i = 1; i < r.conflicts.size(); ++i) // insertion sort: no instrumented templates
	{
		std::uint64_t v = r.conflicts[i];
		std::size_t j = i;
		for (; j > 0 && r.conflicts[j - 1] > v; --j)
			r.conflicts[j] = r.conflicts[j - 1];
		r.conflicts[j] = v;
	}
	for (std::size_t i = 0; i < bodies.size(); ++i)
		r.output.emplace_back(shm->out[i], shm->outSize[i]);
	return r;
}

} // namespace sched

using namespace sched;

// Each scheduled thread allocates from an arena of its own and never reuses memory, so addresses
// are deterministic and only genuinely shared objects are seen by two threads.
static void* allocate(std::size_t n)
{
	if (active && tid >= 0)
	{
		std::size_t at = (arenaUsed[tid] + 15) & ~std::size_t(15);
		if (at + n <= kArena)
		{
			arenaUsed[tid] = at + n + 16;
			return arena[tid] + at;
		}
		abort();
	}
	void* p = malloc(n ? n : 1);
	if (!p)
		throw std::bad_alloc();
	return p;
}
static void freeMemory(void* p)
{
	for (unsigned t = 0; t < kMaxThreads; ++t)
		if (static_cast<char*>(p) >= arena[t] && static_cast<char*>(p) < arena[t] + kArena)
			return;
	free(p);
}
void* operator new(std::size_t n) { return allocate(n); }
void* operator new[](std::size_t n) { return allocate(n); }
void operator delete(void* p) noexcept { freeMemory(p); }
void operator delete[](void* p) noexcept { freeMemory(p); }
void operator delete(void* p, std::size_t) noexcept { freeMemory(p); }
void operator delete[](void* p, std::size_t) noexcept { freeMemory(p); }

extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
	void __tsan_read##n(void* p) { access(p, n, false); } \
	void __tsan_write##n(void* p) { access(p, n, true); } \
	void __tsan_read_write##n(void* p) { access(p, n, true); } \
	void __tsan_unaligned_read##n(void* p) { access(p, n, false); } \
	void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
	void __tsan_unaligned_read_write##n(void* p) { access(p, n, true); } \
	void __tsan_volatile_read##n(void* p) { access(p, n, false); } \
	void __tsan_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, std::size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, std::size_t n) { access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, std::size_t n)
{
	access(s, n, false);
	access(d, n, true);
	return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, std::size_t n)
{
	access(s, n, false);
	access(d, n, true);
	return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, std::size_t n)
{
	access(d, n, true);
	return memset(d, c, n);
}
int __real_memcmp(const void*, const void*, std::size_t);
int __wrap_memcmp(const void* a, const void* b, std::size_t n)
{
	access(a, n, false);
	access(b, n, false);
	return __real_memcmp(a, b, n);
}
int __wrap_bcmp(const void* a, const void* b, std::size_t n) { return __wrap_memcmp(a, b, n); }

#define ATOMIC(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T* q, int) \
	{ T* p = const_cast<T*>(q); access(p, sizeof(T), false, true); acquire(p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##bits##_store(volatile T* q, T v, int) \
	{ T* p = const_cast<T*>(q); access(p, sizeof(T), true, true); sched::release(p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	RMW(bits, T, exchange, __atomic_exchange_n) RMW(bits, T, fetch_add, __atomic_fetch_add) \
	RMW(bits, T, fetch_sub, __atomic_fetch_sub) RMW(bits, T, fetch_and, __atomic_fetch_and) \
	RMW(bits, T, fetch_or, __atomic_fetch_or) RMW(bits, T, fetch_xor, __atomic_fetch_xor) \
	RMW(bits, T, fetch_nand, __atomic_fetch_nand) \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T* q, T* e, T v, int, int) \
	{ T* p = const_cast<T*>(q); both(p, sizeof(T)); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T* q, T* e, T v, int, int) \
	{ T* p = const_cast<T*>(q); both(p, sizeof(T)); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T* q, T e, T v, int, int) \
	{ T* p = const_cast<T*>(q); both(p, sizeof(T)); __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
#define RMW(bits, T, name, op) \
	T __tsan_atomic##bits##_##name(volatile T* q, T v, int) \
	{ T* p = const_cast<T*>(q); both(p, sizeof(T)); return op(p, v, __ATOMIC_SEQ_CST); }
static void both(const void* p, std::size_t n)
{
	access(p, n, true, true);
	acquire(p);
	sched::release(p);
}
ATOMIC(8, std::uint8_t)
ATOMIC(16, std::uint16_t)
ATOMIC(32, std::uint32_t)
ATOMIC(64, std::uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// Initialisation of function-local statics.
int __cxa_guard_acquire(std::uint64_t* g)
{
	volatile std::uint8_t* b = reinterpret_cast<volatile std::uint8_t*>(g);
	access(g, 1, true, true);
	while (true)
	{
		if (b[0])
		{
			acquire(g);
			return 0;
		}
		if (!b[1])
			break;
		if (!active || tid < 0)
			abort();
		blockOn(g);
	}
	b[1] = 1;
	return 1;
}
void __cxa_guard_release(std::uint64_t* g)
{
	volatile std::uint8_t* b = reinterpret_cast<volatile std::uint8_t*>(g);
	b[0] = 1;
	b[1] = 0;
	sched::release(g);
	if (active && tid >= 0)
		wake(g);
	access(g, 1, true, true);
	if (active && tid >= 0)
		table[slotOf(reinterpret_cast<std::uintptr_t>(g) >> 3)].final = 1;
}
void __cxa_guard_abort(std::uint64_t* g)
{
	reinterpret_cast<volatile std::uint8_t*>(g)[1] = 0;
	if (active && tid >= 0)
		wake(g);
}

// Mutexes, modelled for the scheduled threads.
struct Mutex { const void* m; int owner; unsigned depth; };
static Mutex mutexes[256];
static unsigned mutexCount;
static Mutex& mutexOf(const void* m)
{
	for (unsigned i = 0; i < mutexCount; ++i)
		if (mutexes[i].m == m)
			return mutexes[i];
	if (mutexCount == 256)
		abort();
	mutexes[mutexCount] = Mutex{m, -1, 0};
	return mutexes[mutexCount++];
}
static int& mutexOwner(const void* m) { return mutexOf(m).owner; }
static unsigned& mutexDepth(const void* m) { return mutexOf(m).depth; }
#define REAL(name, type) reinterpret_cast<type>(dlsym(RTLD_NEXT, #name))
int pthread_mutex_lock(pthread_mutex_t* m)
{
	if (active && tid >= 0)
	{
		access(m, 1, true, true);
		// Recursive mutexes count; for others locking again is a deadlock.
		while (mutexOwner(m) >= 0 && !(mutexOwner(m) == tid && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE))
			blockOn(m);
		mutexOwner(m) = tid;
		++mutexDepth(m);
		acquire(m);
		return 0;
	}
	static auto real = REAL(pthread_mutex_lock, int (*)(pthread_mutex_t*));
	return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
	if (active && tid >= 0)
	{
		access(m, 1, true, true);
		if (mutexOwner(m) >= 0 && !(mutexOwner(m) == tid && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE))
			return EBUSY;
		mutexOwner(m) = tid;
		++mutexDepth(m);
		acquire(m);
		return 0;
	}
	static auto real = REAL(pthread_mutex_trylock, int (*)(pthread_mutex_t*));
	return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
	if (active && tid >= 0)
	{
		if (mutexDepth(m) > 0 && --mutexDepth(m) > 0)
			return 0;
		mutexOwner(m) = -1;
		sched::release(m);
		wake(m);
		access(m, 1, true, true);
		return 0;
	}
	static auto real = REAL(pthread_mutex_unlock, int (*)(pthread_mutex_t*));
	return real(m);
}

// Readers and writers. The owner is the writer, the depth counts readers.
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
	if (active && tid >= 0)
	{
		access(m, 1, true, true);
		while (mutexOwner(m) >= 0)
			blockOn(m);
		++mutexDepth(m);
		acquire(m);
		return 0;
	}
	static auto real = REAL(pthread_rwlock_rdlock, int (*)(pthread_rwlock_t*));
	return real(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
	if (active && tid >= 0)
	{
		access(m, 1, true, true);
		while (mutexOwner(m) >= 0 || mutexDepth(m) > 0)
			blockOn(m);
		mutexOwner(m) = tid;
		acquire(m);
		return 0;
	}
	static auto real = REAL(pthread_rwlock_wrlock, int (*)(pthread_rwlock_t*));
	return real(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
	if (active && tid >= 0)
	{
		if (mutexOwner(m) == tid)
			mutexOwner(m) = -1;
		else if (mutexDepth(m) > 0)
			--mutexDepth(m);
		sched::release(m);
		wake(m);
		access(m, 1, true, true);
		return 0;
	}
	static auto real = REAL(pthread_rwlock_unlock, int (*)(pthread_rwlock_t*));
	return real(m);
}

int pthread_once(pthread_once_t* o, void (*f)())
{
	if (active && tid >= 0)
	{
		access(o, 1, true, true);
		for (;;)
		{
			if (*o == 2)
			{
				acquire(o);
				return 0;
			}
			if (*o != 1)
				break;
			blockOn(o);
		}
		*o = 1;
		try
		{
			f();
		}
		catch (...)
		{
			*o = 0;
			wake(o);
			throw;
		}
		*o = 2;
		sched::release(o);
		wake(o);
		return 0;
	}
	static auto real = REAL(pthread_once, int (*)(pthread_once_t*, void (*)()));
	return real(o, f);
}
}
