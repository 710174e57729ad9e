// Memory of any size that is zero and takes up no room until it's written to.
#pragma once
#include <cstdint>
#include <memory>
#include <sys/mman.h>

namespace mc
{
inline std::shared_ptr<std::uint8_t> farMemory(std::size_t size)
{
	void* p = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED)
		return nullptr;
	madvise(p, size, MADV_NOHUGEPAGE); // a page per write rather than 2 MB
	return std::shared_ptr<std::uint8_t>(static_cast<std::uint8_t*>(p), [size](std::uint8_t* q) { munmap(q, size); });
}
} // namespace mc
