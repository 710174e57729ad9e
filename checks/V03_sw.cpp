// Access to the copy of the library whose processor check reports no half float support.
#define vfc vfcsw
#include <VFC/VertexFormat.h>
#include <VFC/VertexValue.h>
#include <cstdint>
#include <sys/mman.h>

namespace vfcsw
{
extern const bool hasHardwareHalfFloat __attribute__((weak));
}

// Also when the selector is computed in another way.
bool softwareForced()
{
	const bool* p = &vfcsw::hasHardwareHalfFloat;
	if (!p)
		return false;
	if (*p)
	{
		std::uintptr_t page = reinterpret_cast<std::uintptr_t>(p) & ~std::uintptr_t(4095);
		mprotect(reinterpret_cast<void*>(page), 4096, PROT_READ | PROT_WRITE);
		*const_cast<volatile bool*>(p) = false;
	}
	return true;
}

bool softwareDecode(const void* data, unsigned comps, double out[4])
{
	vfcsw::VertexValue v(7, 7, 7, 7);
	bool ok = v.fromData(data, static_cast<vfcsw::ElementLayout>(static_cast<int>(vfcsw::ElementLayout::X16) + comps - 1), vfcsw::ElementType::Float);
	for (unsigned i = 0; i < 4; ++i)
		out[i] = v[i];
	return ok;
}

bool softwareEncode(const double in[4], unsigned comps, void* data)
{
	vfcsw::VertexValue v(in[0], in[1], in[2], in[3]);
	return v.toData(data, static_cast<vfcsw::ElementLayout>(static_cast<int>(vfcsw::ElementLayout::X16) + comps - 1), vfcsw::ElementType::Float);
}
