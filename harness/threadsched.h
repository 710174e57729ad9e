// Controlled scheduler for the library compiled with -fsanitize=thread instrumentation but without
// its runtime: every instrumented access, atomic, mutex and static-initialisation guard calls in
// here. One thread runs at a time. A schedule is the starting thread plus the ordinals of the
// accesses to shared locations before which the running thread is preempted.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched
{

constexpr unsigned kMaxThreads = 3;
constexpr unsigned kMaxConflicts = 4096;
constexpr std::size_t kResultSize = 1 << 16;

struct Preemption
{
	std::uint32_t at;      // ordinal of the shared access
	std::uint32_t to;      // thread that continues
};

struct RunResult
{
	bool completed = false;      // the child exited normally
	bool deadlock = false;
	int status = 0;
	bool hung = false;
	std::uint64_t accesses = 0;  // all instrumented accesses
	std::uint64_t points = 0;    // accesses to shared locations
	std::vector<std::uint64_t> conflicts; // locations accessed by two threads with a write
	std::vector<std::string> output;      // per thread
};

// A thread body returns everything it observed.
using Body = std::function<std::string()>;

void init();
// Runs the bodies in a forked child under the schedule. shared: locations that are scheduling points.
RunResult run(const std::vector<Body>& bodies, unsigned first, const std::vector<Preemption>& preemptions,
	const std::vector<std::uint64_t>& shared);

} // namespace sched
