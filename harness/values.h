// Shared pieces of the value checks: formats, code alphabets, comparisons.
#pragma once
#include "explore.h"
#include "vfcref.h"
#include <VFC/VertexValue.h>
#include <cmath>

namespace val
{
using vfc::ElementLayout;
using vfc::ElementType;
using vfc::VertexValue;

struct Format { ElementLayout l; ElementType t; };

inline const std::vector<Format>& formats()
{
	static const std::vector<Format> f = [] {
		std::vector<Format> r;
		for (int l = 0; l < 20; ++l)
			for (int t = 0; t < 5; ++t)
				if (ref::valid(static_cast<ElementLayout>(l), static_cast<ElementType>(t)))
					r.push_back(Format{static_cast<ElementLayout>(l), static_cast<ElementType>(t)});
		return r;
	}();
	return f;
}

inline std::string text(const Format& f) { return std::string(ref::name(f.l)) + " " + ref::name(f.t); }

inline std::string hex(const std::uint8_t* p, unsigned n)
{
	std::string s;
	char b[4];
	for (unsigned i = 0; i < n; ++i)
	{
		snprintf(b, sizeof(b), "%02x", p[i]);
		s += b;
	}
	return s;
}

inline std::uint64_t ones(unsigned bits) { return bits == 64 ? ~0ULL : (1ULL << bits) - 1; }

// Every code of narrow fields; for wide ones every run of ones, its complement and neighbours.
inline std::vector<std::uint64_t> codes(unsigned bits)
{
	std::vector<std::uint64_t> r;
	if (bits <= 16)
	{
		for (std::uint64_t i = 0; i <= ones(bits); ++i)
			r.push_back(i);
		return r;
	}
	for (unsigned from = 0; from < bits; ++from)
		for (unsigned n = 1; from + n <= bits; ++n)
		{
			std::uint64_t run = (n == 64 ? ~0ULL : ((1ULL << n) - 1)) << from;
			for (int d = -1; d <= 1; ++d)
			{
				r.push_back((run + static_cast<std::uint64_t>(d)) & ones(bits));
				r.push_back((~run + static_cast<std::uint64_t>(d)) & ones(bits));
			}
		}
	for (unsigned hi = 0; hi < 1u << 12; ++hi) // sign, exponent and leading mantissa of the floats
		for (std::uint64_t lo : {std::uint64_t(0), std::uint64_t(1), ones(bits - 12)})
			r.push_back((static_cast<std::uint64_t>(hi) << (bits - 12)) | lo);
	std::sort(r.begin(), r.end());
	r.erase(std::unique(r.begin(), r.end()), r.end());
	return r;
}

// Fills for the fields that aren't being walked.
inline std::uint64_t otherCode(unsigned which, unsigned bits)
{
	switch (which)
	{
		case 0: return 0;
		case 1: return ones(bits);
		case 2: return 0x5555555555555555ULL & ones(bits);
		default: return 1ULL << (bits - 1);
	}
}

inline bool isNan(double d) { return d != d; }

// Same value; NaNs are alike. Normalised values may be off by rounding.
inline bool same(double a, double b, bool norm)
{
	if (isNan(a) || isNan(b))
		return isNan(a) && isNan(b);
	if (norm)
		return std::fabs(a - b) <= 1e-15;
	return a == b && std::signbit(a) == std::signbit(b);
}
inline bool isNorm(const Format& f) { return f.t == ElementType::UNorm || f.t == ElementType::SNorm; }

} // namespace val
