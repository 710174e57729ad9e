// Positive control, compiled with the same instrumentation as the library: code that does share
// state between calls, which the explorer has to notice.
#include <cstdint>
#include <mutex>
#include <vector>

static unsigned scratch[4];
unsigned controlRacy(unsigned seed)
{
	for (unsigned i = 0; i < 4; ++i)
		scratch[i] = seed + i;
	unsigned sum = 0;
	for (unsigned i = 0; i < 4; ++i)
		sum += scratch[i];
	return sum;
}

static std::mutex lock;
unsigned controlLocked(unsigned seed)
{
	std::lock_guard<std::mutex> guard(lock);
	return controlRacy(seed);
}

static std::vector<unsigned> makeTable()
{
	std::vector<unsigned> t;
	for (unsigned i = 0; i < 4; ++i)
		t.push_back(i*i);
	return t;
}
unsigned controlLazy(unsigned i)
{
	static const std::vector<unsigned> t = makeTable();
	return t[i%4];
}
