#include "explore.h"
#include "vfcref.h"
#include <VFC/VertexFormat.h>
#include <set>
using namespace vfc;

// The documented names, and the values they stand for.
enum Kind { Layout, Type, Prim };
struct Named { Kind kind; int value; std::string name; };

static const std::vector<Named>& names()
{
	static const std::vector<Named> n = [] {
		std::vector<Named> r;
		for (int i = 0; i < 20; ++i)
		{
			r.push_back({Layout, i, ref::layouts()[static_cast<unsigned>(i)].xyzw});
			r.push_back({Layout, i, ref::layouts()[static_cast<unsigned>(i)].rgba});
		}
		for (int i = 0; i < 5; ++i)
			r.push_back({Type, i, ref::typeNames()[static_cast<unsigned>(i)]});
		for (int i = 0; i < 7; ++i)
			r.push_back({Prim, i, ref::primNames()[static_cast<unsigned>(i)]});
		return r;
	}();
	return n;
}

static std::string lower(const std::string& s)
{
	std::string r = s;
	for (char& c : r)
		if (c >= 'A' && c <= 'Z')
			c = static_cast<char>(c - 'A' + 'a');
	return r;
}

static int lookup(Kind k, const char* s)
{
	switch (k)
	{
		case Layout: return static_cast<int>(elementLayoutFromName(s));
		case Type: return static_cast<int>(elementTypeFromName(s));
		default: return static_cast<int>(primitiveTypeFromName(s));
	}
}

static const char* kindName(Kind k) { return k == Layout ? "layout" : k == Type ? "type" : "primitive type"; }

// All three lookups of a string against the documented names.
static void check(mc::Ctx& ctx, const std::string& s)
{
	static const std::map<std::string, int>* want = [] {
		auto* m = new std::map<std::string, int>[3];
		for (const Named& n : names())
			m[n.kind][lower(n.name)] = n.value;
		return m;
	}();
	std::string key = lower(s);
	for (Kind k : {Layout, Type, Prim})
	{
		auto it = want[k].find(key);
		int expect = it == want[k].end() ? -1 : it->second;
		int got = lookup(k, s.c_str());
		if (got != expect)
			ctx.fail("'%s' names %s %d, expected %d", s.c_str(), kindName(k), got, expect);
		ctx.step();
	}
}

static void cases(mc::Ctx& ctx)
{
	const Named& n = ctx.pick(names());
	std::vector<unsigned> letters;
	for (unsigned i = 0; i < n.name.size(); ++i)
		if (isalpha(static_cast<unsigned char>(n.name[i])))
			letters.push_back(i);
	for (std::uint32_t mask = 0; mask < 1u << letters.size(); ++mask)
	{
		std::string s = lower(n.name);
		for (unsigned i = 0; i < letters.size(); ++i)
			if (mask >> i & 1)
				s[letters[i]] = static_cast<char>(s[letters[i]] - 'a' + 'A');
		if (lookup(n.kind, s.c_str()) != n.value)
			ctx.fail("'%s' isn't %s %d", s.c_str(), kindName(n.kind), n.value);
		check(ctx, s);
		ctx.state(mc::hashBytes(s.data(), s.size()));
	}
	ctx.nontrivial();
	ctx.trace();
	ctx.note("%s: %u case patterns", n.name.c_str(), 1u << letters.size());
}

static void edits(mc::Ctx& ctx)
{
	const Named& n = ctx.pick(names());
	unsigned at = ctx.choose(static_cast<unsigned>(n.name.size()) + 1);
	std::set<std::string> all;
	for (unsigned c = 1; c < 256; ++c)
	{
		std::string s = n.name;
		s.insert(s.begin() + at, static_cast<char>(c));
		all.insert(s);
		if (at < n.name.size())
		{
			s = n.name;
			s[at] = static_cast<char>(c);
			all.insert(s);
		}
	}
	all.insert(n.name.substr(0, at));
	all.insert(n.name.substr(at));
	for (unsigned to = at; to <= n.name.size(); ++to)
	{
		std::string s = n.name;
		s.erase(at, to - at);
		all.insert(s);
		all.insert(n.name.substr(at, to - at));
	}
	if (at + 1 < n.name.size())
	{
		std::string s = n.name;
		std::swap(s[at], s[at + 1]);
		all.insert(s);
	}
	for (const Named& m : names())
		all.insert(n.name.substr(0, at) + m.name);
	for (const std::string& s : all)
	{
		check(ctx, s);
		ctx.state(mc::hashBytes(s.data(), s.size()));
	}
	ctx.nontrivial();
	ctx.trace();
	ctx.note("%s edited at %u: %zu strings", n.name.c_str(), at, all.size());
}

// Two characters replaced: what hashes or sums the same isn't the same name.
static void pairs(mc::Ctx& ctx, unsigned gap, unsigned lo, unsigned hi)
{
	const Named& n = ctx.pick(names());
	unsigned at = ctx.choose(static_cast<unsigned>(n.name.size()));
	unsigned g = ctx.range(1, gap);
	if (at + g >= n.name.size())
		throw mc::SkipPath();
	std::string s = n.name;
	std::uint64_t h = 0;
	for (unsigned a = lo; a < hi; ++a)
	{
		s[at] = static_cast<char>(a);
		for (unsigned b = lo; b < hi; ++b)
		{
			s[at + g] = static_cast<char>(b);
			check(ctx, s);
		}
		h = mc::hashBytes(s.data(), s.size(), h);
	}
	ctx.state(h);
	ctx.nontrivial();
	ctx.trace();
	ctx.note("%s with the characters at %u and %u replaced", n.name.c_str(), at, at + g);
}

// Every combination of component letters and widths that a layout name could be built from.
static void composed(mc::Ctx& ctx)
{
	static const char* parts[] = {"", "X8", "Y8", "Z8", "W8", "X10", "Y10", "Z10", "W2", "X16", "Y16", "Z16", "W16", "X32", "Y32", "Z32", "W32", "X64", "Y64", "Z64", "W64",
		"R8", "G8", "B8", "A8", "A2", "R10", "G10", "B10", "R16", "G16", "B16", "A16", "R32", "G32", "B32", "A32", "R64", "G64", "B64", "A64", "E5", "X9", "Y9", "Z9", "X11", "Y11",
		"B9", "G9", "R9", "G11", "R11", "_UFloat", "UNorm", "SNorm", "UInt", "SInt", "Float", "Point", "Line", "Triangle", "Patch", "List", "Strip", "Fan", " "};
	constexpr unsigned n = sizeof(parts)/sizeof(*parts);
	std::string a = parts[ctx.choose(n)], b = parts[ctx.choose(n)];
	for (const char* c : parts)
		for (const char* d : parts)
			check(ctx, a + b + c + d);
	ctx.state(mc::hashBytes((a + "/" + b).data(), (a + "/" + b).size()));
	ctx.nontrivial();
	ctx.trace();
}

static void shortStrings(mc::Ctx& ctx)
{
	unsigned a = ctx.choose(256), b = ctx.choose(256);
	if (a == 0 && b != 0)
		return;
	for (unsigned c = 0; c < 128; ++c)
	{
		char s[4] = {static_cast<char>(a), static_cast<char>(b), static_cast<char>(c), 0};
		check(ctx, s);
	}
	ctx.state(mc::mix(a*256 + b));
	ctx.trace();
}

static void values(mc::Ctx& ctx)
{
	int v = static_cast<int>(ctx.choose(256)) - 128;
	for (int color = 0; color < 2; ++color)
	{
		const char* n = elementLayoutName(static_cast<ElementLayout>(v), color != 0);
		const char* want = v >= 0 && v < 20 ? (color ? ref::layouts()[static_cast<unsigned>(v)].rgba : ref::layouts()[static_cast<unsigned>(v)].xyzw) : nullptr;
		if (!n != !want || (n && std::string(n) != want))
			ctx.fail("layout %d is named '%s'", v, n ? n : "(null)");
		if (n && static_cast<int>(elementLayoutFromName(n)) != v)
			ctx.fail("the name of layout %d doesn't lead back to it", v);
	}
	const char* n = elementTypeName(static_cast<ElementType>(v));
	const char* want = v >= 0 && v < 5 ? ref::typeNames()[static_cast<unsigned>(v)] : nullptr;
	if (!n != !want || (n && std::string(n) != want))
		ctx.fail("type %d is named '%s'", v, n ? n : "(null)");
	n = primitiveTypeName(static_cast<PrimitiveType>(v));
	want = v >= 0 && v < 7 ? ref::primNames()[static_cast<unsigned>(v)] : nullptr;
	if (!n != !want || (n && std::string(n) != want))
		ctx.fail("primitive type %d is named '%s'", v, n ? n : "(null)");
	if (elementLayoutFromName(nullptr) != ElementLayout::Invalid || elementTypeFromName(nullptr) != ElementType::Invalid ||
		primitiveTypeFromName(nullptr) != PrimitiveType::Invalid)
		ctx.fail("a null name has a value");
	ctx.step(7);
	ctx.state(mc::mix(static_cast<std::uint64_t>(v + 1000)));
	ctx.nontrivial();
	ctx.trace();
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		s.push_back({"values", values, 1, false, 60, "all 256 values of each enum, null names"});
		s.push_back({"cases", cases, 1, false, 60, "every case pattern of all 52 names, in all three lookups"});
		s.push_back({"edits", edits, 2, false, 60, "every insertion and substitution of any byte, range deletion, substring, transposition and splice of every name"});
		s.push_back({"composed", composed, 2, false, 60, "every concatenation of up to 4 of 66 name parts"});
		s.push_back({"pairs", [thorough](mc::Ctx& c) { pairs(c, thorough ? 3 : 1, thorough ? 1 : 32, thorough ? 256 : 127); }, 2, false, 60,
			std::string("every replacement of two characters of every name, ") + (thorough ? "up to three apart by any bytes" : "next to each other by any printable ones")});
		if (thorough)
			s.push_back({"short", shortStrings, 2, false, 60, "every string of up to 2 bytes, and with a third ASCII byte"});
		return s;
	});
}
