// Independent reference for element layouts: written from the documentation of the layouts, sharing
// only the public enums with the code under test.
#pragma once
#include <VFC/VertexFormat.h>
#include <VFC/IndexData.h>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <string>
#include <vector>

namespace ref
{
using vfc::ElementLayout;
using vfc::ElementType;
using vfc::PrimitiveType;
using vfc::IndexType;

// 2^n for n in the normal range.
inline double p2(int n)
{
	std::uint64_t b = static_cast<std::uint64_t>(n + 1023) << 52;
	double d;
	std::memcpy(&d, &b, 8);
	return d;
}

struct LayoutInfo
{
	const char* xyzw;
	const char* rgba;
	unsigned comps;
	unsigned bits;  // per component; 0 for packed
	unsigned size;  // bytes
};

inline const std::vector<LayoutInfo>& layouts()
{
	static const std::vector<LayoutInfo> t = {
		{"X8", "R8", 1, 8, 1}, {"X8Y8", "R8G8", 2, 8, 2}, {"X8Y8Z8", "R8G8B8", 3, 8, 3},
		{"X8Y8Z8W8", "R8G8B8A8", 4, 8, 4},
		{"W2X10Y10Z10", "A2R10G10B10", 4, 0, 4}, {"W2Z10Y10X10", "A2B10G10R10", 4, 0, 4},
		{"X16", "R16", 1, 16, 2}, {"X16Y16", "R16G16", 2, 16, 4}, {"X16Y16Z16", "R16G16B16", 3, 16, 6},
		{"X16Y16Z16W16", "R16G16B16A16", 4, 16, 8},
		{"X32", "R32", 1, 32, 4}, {"X32Y32", "R32G32", 2, 32, 8}, {"X32Y32Z32", "R32G32B32", 3, 32, 12},
		{"X32Y32Z32W32", "R32G32B32A32", 4, 32, 16},
		{"X64", "R64", 1, 64, 8}, {"X64Y64", "R64G64", 2, 64, 16}, {"X64Y64Z64", "R64G64B64", 3, 64, 24},
		{"X64Y64Z64W64", "R64G64B64A64", 4, 64, 32},
		{"Z10Y11X11_UFloat", "B10G11R11_UFloat", 3, 0, 4},
		{"E5Z9Y9X9_UFloat", "E5B9G9R9_UFloat", 3, 0, 4}};
	return t;
}
inline const std::vector<const char*>& typeNames()
{
	static const std::vector<const char*> t = {"UNorm", "SNorm", "UInt", "SInt", "Float"};
	return t;
}
inline const std::vector<const char*>& primNames()
{
	static const std::vector<const char*> t = {"PointList", "LineList", "LineStrip", "TriangleList",
		"TriangleStrip", "TriangleFan", "PatchList"};
	return t;
}
inline const LayoutInfo& info(ElementLayout l) { return layouts()[static_cast<int>(l)]; }
inline const char* name(ElementLayout l) { return info(l).xyzw; }
inline const char* name(ElementType t) { return typeNames()[static_cast<int>(t)]; }
inline const char* name(PrimitiveType t) { return primNames()[static_cast<int>(t)]; }

inline bool valid(ElementLayout l, ElementType t)
{
	int li = static_cast<int>(l), ti = static_cast<int>(t);
	if (li < 0 || li >= static_cast<int>(layouts().size()) || ti < 0 || ti > 4)
		return false;
	if (li >= 18)
		return t == ElementType::Float;
	unsigned bits = layouts()[li].bits;
	if (bits == 8 || bits == 0)
		return t != ElementType::Float;
	if (bits == 16)
		return true;
	return t == ElementType::UInt || t == ElementType::SInt || t == ElementType::Float;
}

inline bool is2101010(ElementLayout l) { return l == ElementLayout::W2X10Y10Z10 || l == ElementLayout::W2Z10Y10X10; }
inline bool isUFloat(ElementLayout l) { return l == ElementLayout::Z10Y11X11_UFloat; }
inline bool isShared(ElementLayout l) { return l == ElementLayout::E5Z9Y9X9_UFloat; }

struct Field { unsigned byte, shift, bits; };
// Where component c lives. For packed layouts byte is 0 and shift applies to the 32-bit word.
inline Field field(ElementLayout l, unsigned c)
{
	const LayoutInfo& i = info(l);
	if (i.bits)
		return Field{c*i.bits/8, 0, i.bits};
	switch (l)
	{
		case ElementLayout::W2X10Y10Z10:
		{
			static const unsigned s[] = {20, 10, 0, 30};
			return Field{0, s[c], c == 3 ? 2U : 10U};
		}
		case ElementLayout::W2Z10Y10X10:
		{
			static const unsigned s[] = {0, 10, 20, 30};
			return Field{0, s[c], c == 3 ? 2U : 10U};
		}
		case ElementLayout::Z10Y11X11_UFloat:
		{
			static const unsigned s[] = {0, 11, 22};
			return Field{0, s[c], c == 2 ? 10U : 11U};
		}
		default:
			return Field{0, c*9, 9};
	}
}

inline std::uint64_t getRaw(const void* data, ElementLayout l, unsigned c)
{
	Field f = field(l, c);
	const std::uint8_t* p = static_cast<const std::uint8_t*>(data);
	if (info(l).bits)
	{
		std::uint64_t v = 0;
		std::memcpy(&v, p + f.byte, f.bits/8);
		return v;
	}
	std::uint32_t w;
	std::memcpy(&w, p, 4);
	return (w >> f.shift) & ((1U << f.bits) - 1);
}
inline void setRaw(void* data, ElementLayout l, unsigned c, std::uint64_t raw)
{
	Field f = field(l, c);
	std::uint8_t* p = static_cast<std::uint8_t*>(data);
	if (info(l).bits)
	{
		std::memcpy(p + f.byte, &raw, f.bits/8);
		return;
	}
	std::uint32_t w;
	std::memcpy(&w, p, 4);
	std::uint32_t m = ((1U << f.bits) - 1) << f.shift;
	w = (w & ~m) | ((static_cast<std::uint32_t>(raw) << f.shift) & m);
	std::memcpy(p, &w, 4);
}

inline double decodeSmallFloat(std::uint32_t raw, unsigned mbits, bool sign)
{
	std::uint32_t m = raw & ((1U << mbits) - 1);
	int e = static_cast<int>((raw >> mbits) & 31);
	double s = sign && ((raw >> (mbits + 5)) & 1) ? -1.0 : 1.0;
	if (e == 31)
		return m ? std::numeric_limits<double>::quiet_NaN() : s*std::numeric_limits<double>::infinity();
	if (e == 0)
		return s*m*p2(-14 - static_cast<int>(mbits));
	return s*(1.0 + m/static_cast<double>(1U << mbits))*p2(e - 15);
}
inline double decodeHalf(std::uint16_t h) { return decodeSmallFloat(h, 10, true); }

// Value of component c of an element with the given raw field (sharedExp for the shared layout).
inline double decodeRaw(ElementLayout l, ElementType t, unsigned c, std::uint64_t raw,
	unsigned sharedExp = 0)
{
	if (isShared(l))
		return static_cast<double>(raw)*p2(static_cast<int>(sharedExp) - 24);
	unsigned bits = field(l, c).bits;
	if (isUFloat(l))
		return decodeSmallFloat(static_cast<std::uint32_t>(raw), bits - 5, false);
	long double full = static_cast<long double>(p2(static_cast<int>(bits))) - 1;
	std::int64_t sraw = static_cast<std::int64_t>(raw << (64 - bits)) >> (64 - bits);
	switch (t)
	{
		case ElementType::UInt:
			return static_cast<double>(raw);
		case ElementType::SInt:
			return static_cast<double>(sraw);
		case ElementType::UNorm:
			return static_cast<double>(static_cast<long double>(raw)/full);
		case ElementType::SNorm:
			return static_cast<double>((static_cast<long double>(sraw)*2 + 1)/full);
		default:
			if (bits == 16)
				return decodeHalf(static_cast<std::uint16_t>(raw));
			if (bits == 32)
			{
				std::uint32_t r = static_cast<std::uint32_t>(raw);
				float f;
				std::memcpy(&f, &r, 4);
				return f;
			}
			else
			{
				double d;
				std::memcpy(&d, &raw, 8);
				return d;
			}
	}
}

inline void decode(const void* data, ElementLayout l, ElementType t, double out[4])
{
	out[0] = out[1] = out[2] = 0;
	out[3] = 1;
	unsigned e = 0;
	if (isShared(l))
	{
		std::uint32_t w;
		std::memcpy(&w, data, 4);
		e = w >> 27;
	}
	for (unsigned c = 0; c < info(l).comps; ++c)
		out[c] = decodeRaw(l, t, c, getRaw(data, l, c), e);
}

// Smallest and largest finite representable values of a component.
inline void limits(ElementLayout l, ElementType t, unsigned c, double& lo, double& hi)
{
	if (isShared(l)) { lo = 0; hi = 65408; return; }
	if (isUFloat(l)) { lo = 0; hi = c == 2 ? 64512 : 65024; return; }
	unsigned bits = field(l, c).bits;
	switch (t)
	{
		case ElementType::UInt: lo = 0; hi = static_cast<double>((long double)p2((int)bits) - 1); break;
		case ElementType::SInt: lo = -p2((int)bits - 1); hi = static_cast<double>((long double)p2((int)bits - 1) - 1); break;
		case ElementType::UNorm: lo = 0; hi = 1; break;
		case ElementType::SNorm: lo = -1; hi = 1; break;
		default:
			hi = bits == 16 ? 65504.0 : bits == 32 ? (double)std::numeric_limits<float>::max() : std::numeric_limits<double>::max();
			lo = -hi;
	}
}

inline std::uint16_t halfNeighbour(std::uint16_t h, bool up)
{
	// Next representable half; h must be finite.
	int v = (h & 0x8000) ? -(int)(h & 0x7fff) : (int)(h & 0x7fff);
	v += up ? 1 : -1;
	return static_cast<std::uint16_t>(v < 0 ? 0x8000 | (-v) : v);
}

// Is raw an acceptable encoding of v for component c? Nearest representable value (either neighbour
// on ties), saturating; explanation in why on failure. For the shared-exponent layout sharedExp is
// the stored exponent.
// eps is by how much v itself may be off (rounding of an earlier normalized decode or transform).
inline bool encodedOk(ElementLayout l, ElementType t, unsigned c, double v, std::uint64_t raw,
	unsigned sharedExp = 0, double eps = 0)
{
	double d = decodeRaw(l, t, c, raw, sharedExp);
	double lo, hi;
	limits(l, t, c, lo, hi);
	if (isShared(l))
	{
		double target = std::min(std::max(v, lo), hi);
		double step = p2((int)sharedExp - 24);
		return std::fabs(d - target) <= step*0.5*(1 + 1e-6);
	}
	if (isUFloat(l))
	{
		if (std::isnan(d))
			return false;
		if (v >= hi)
			return d >= hi;
		double target = std::max(v, 0.0);
		unsigned mbits = field(l, c).bits - 5;
		// Within one step: between the neighbours of the nearest.
		double mag = std::max(target, p2(-14));
		int e;
		std::frexp(mag, &e);
		double step = p2(e - 1 - (int)mbits);
		return std::fabs(d - target) <= step;
	}
	unsigned bits = field(l, c).bits;
	switch (t)
	{
		case ElementType::UInt:
		case ElementType::SInt:
		{
			if (bits == 64)
			{
				// Doubles at or above the limit saturate; below it the nearest integer.
				if (t == ElementType::UInt)
				{
					if (v >= 18446744073709551615.0) return raw == ~0ULL;
					if (v <= 0) return raw == 0;
				}
				else
				{
					if (v >= 9223372036854775807.0) return raw == 0x7fffffffffffffffULL;
					if (v <= -9223372036854775808.0) return raw == 0x8000000000000000ULL;
				}
				long double ld = t == ElementType::UInt ? (long double)raw : (long double)(std::int64_t)raw;
				return std::fabs((double)(ld - (long double)v)) <= 0.5 + eps;
			}
			double target = std::min(std::max(v, lo), hi);
			return std::fabs(d - target) <= 0.5 + eps;
		}
		case ElementType::UNorm:
		case ElementType::SNorm:
		{
			double target = std::min(std::max(v, lo), hi);
			double step = (hi - lo)/(p2((int)bits) - 1);
			return std::fabs(d - target) <= step*0.5*(1 + 1e-9) + eps;
		}
		default:
			break;
	}
	if (std::isnan(v))
		return std::isnan(d);
	if (std::isnan(d))
		return false;
	if (v > hi)
		return d >= hi;
	if (v < lo)
		return d <= lo;
	if (bits == 64)
		return eps > 0 ? std::fabs(d - v) <= eps : d == v && std::signbit(d) == std::signbit(v);
	if (bits == 32)
	{
		if (std::isinf(d))
			return false;
		float f = static_cast<float>(d);
		double up = std::nextafter(f, std::numeric_limits<float>::infinity());
		double dn = std::nextafter(f, -std::numeric_limits<float>::infinity());
		double err = std::fabs(d - v);
		return err <= std::fabs(up - v) + 2*eps && err <= std::fabs(dn - v) + 2*eps;
	}
	// Half: conversion goes through float, so compare against the float value.
	double fv = static_cast<float>(v);
	if (std::isinf(d))
		return false;
	std::uint16_t h = static_cast<std::uint16_t>(raw);
	double up = decodeHalf(halfNeighbour(h, true)), dn = decodeHalf(halfNeighbour(h, false));
	if (std::isinf(up)) up = 65536;
	if (std::isinf(dn)) dn = -65536;
	double err = std::fabs(d - fv);
	// Through float, v may have moved by half a unit in the last place of a float.
	eps += eps > 0 ? std::fabs(v)*1.2e-7 : 0;
	return err <= std::fabs(up - fv) + 2*eps && err <= std::fabs(dn - fv) + 2*eps;
}

// Half a quantization step around value v.
inline unsigned minIndexCount(PrimitiveType p, unsigned patch)
{
	switch (p)
	{
		case PrimitiveType::PointList: return 1;
		case PrimitiveType::LineList: case PrimitiveType::LineStrip: return 2;
		case PrimitiveType::PatchList: return patch;
		default: return 3;
	}
}
inline bool isStrip(PrimitiveType p)
{
	return p == PrimitiveType::LineStrip || p == PrimitiveType::TriangleStrip || p == PrimitiveType::TriangleFan;
}
inline unsigned listStride(PrimitiveType p, unsigned patch)
{
	switch (p)
	{
		case PrimitiveType::LineList: return 2;
		case PrimitiveType::TriangleList: return 3;
		case PrimitiveType::PatchList: return patch;
		default: return 1;
	}
}
inline bool countValid(PrimitiveType p, std::uint64_t n, unsigned patch)
{
	switch (p)
	{
		case PrimitiveType::PointList: return true;
		case PrimitiveType::LineList: return n%2 == 0;
		case PrimitiveType::LineStrip: return n == 0 || n >= 2;
		case PrimitiveType::TriangleList: return n%3 == 0;
		case PrimitiveType::TriangleStrip: case PrimitiveType::TriangleFan: return n == 0 || n >= 3;
		case PrimitiveType::PatchList: return patch > 0 && n%patch == 0;
		default: return false;
	}
}
inline std::uint32_t restartValue(IndexType t) { return t == IndexType::UInt16 ? 0xFFFFu : 0xFFFFFFFFu; }
} // namespace ref
