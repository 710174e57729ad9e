#include "explore.h"
#include <map>
#include "vfcref.h"
#include <VFC/VertexFormat.h>
using namespace vfc;
static constexpr ElementLayout X8 = ElementLayout::X8, X16 = ElementLayout::X16;

struct E { std::string name; ElementLayout l; ElementType t; std::uint32_t offset; };
struct Model
{
	std::vector<E> e;
	std::uint32_t stride() const
	{
		std::uint32_t s = 0;
		for (auto& x : e)
			s += ref::info(x.l).size;
		return s;
	}
};

static const char* kNames[] = {"a", "A", "aa", "", "a longer name that needs the heap"};
struct Fmt { ElementLayout l; ElementType t; };
static const Fmt kFormats[] = {{ElementLayout::X8, ElementType::UInt}, {ElementLayout::X16Y16Z16, ElementType::Float}, {ElementLayout::X64Y64Z64W64, ElementType::SInt},
	{ElementLayout::Z10Y11X11_UFloat, ElementType::Float}, {ElementLayout::X8, ElementType::Float}, {ElementLayout::Invalid, ElementType::UInt}};

static void agree(mc::Ctx& ctx, const VertexFormat& f, const Model& m, const std::string& history)
{
	auto bad = [&](const char* what) { ctx.fail("after %s: %s", history.c_str(), what); };
	if (f.size() != m.e.size() || f.empty() != m.e.empty())
		bad("wrong number of elements");
	if (f.stride() != m.stride())
		bad("wrong stride");
	std::uint32_t offset = 0;
	auto it = f.begin();
	for (std::size_t i = 0; i < m.e.size(); ++i, ++it)
	{
		const VertexElement& x = f[i];
		if (&f.at(i) != &x || &*it != &x)
			bad("access by index and iteration disagree");
		if (x.name != m.e[i].name || x.layout != m.e[i].l || x.type != m.e[i].t)
			bad("wrong element");
		if (x.offset != offset)
			bad("wrong offset");
		offset += ref::info(m.e[i].l).size;
	}
	if (it != f.end() || f.cend() - f.cbegin() != static_cast<std::ptrdiff_t>(m.e.size()))
		bad("iteration doesn't end after the last element");
	auto r = f.rbegin();
	for (std::size_t i = m.e.size(); i-- > 0; ++r)
		if (&*r != &f[i])
			bad("reverse iteration");
	if (r != f.rend())
		bad("reverse iteration doesn't end");
	if (!m.e.empty() && (&f.front() != &f[0] || &f.back() != &f[m.e.size() - 1]))
		bad("front or back");
	char buffer[64];
	for (const char* n : {"a", "A", "aa", "", "a longer name that needs the heap", "b", "a longer name that needs the hea"})
	{
		std::size_t i = 0;
		while (i < m.e.size() && m.e[i].name != n)
			++i;
		strcpy(buffer, n); // the same address for every name
		if (f.find(n) - f.begin() != static_cast<std::ptrdiff_t>(i) || f.find(std::string(n)) != f.find(n) || f.find(buffer) != f.find(n))
			bad("lookup by name");
	}
	bool threw = false;
	try
	{
		f.at(m.e.size());
	}
	catch (const std::exception&)
	{
		threw = true;
	}
	if (!threw)
		bad("access beyond the end isn't rejected");
}

static bool equal(const Model& a, const Model& b)
{
	if (a.e.size() != b.e.size())
		return false;
	for (std::size_t i = 0; i < a.e.size(); ++i)
		if (a.e[i].name != b.e[i].name || a.e[i].l != b.e[i].l || a.e[i].t != b.e[i].t)
			return false;
	return true;
}

static bool contains(const Model& a, const Model& b)
{
	for (auto& x : b.e)
	{
		bool found = false;
		for (auto& y : a.e)
			found |= x.name == y.name;
		if (!found)
			return false;
	}
	return true;
}

// The same definition twice, spelled differently: elements from scratch.
static VertexFormat rebuild(const Model& m)
{
	VertexFormat f;
	for (auto& x : m.e)
		f.appendElement(x.name, x.l, x.t);
	return f;
}

static void history(mc::Ctx& ctx, unsigned depth)
{
	VertexFormat f[2];
	Model m[2];
	std::string text;
	// What is asked between the operations: nothing, everything, or one name of the first format.
	unsigned asked = ctx.choose(3);
	// The second format is reached by copies and moves; its own appends follow those.
	constexpr unsigned appends = 5*6;
	for (unsigned d = 0; d < depth; ++d)
	{
		unsigned op = ctx.choose(1 + 2*appends + 7);
		if (op == 0)
			break;
		--op;
		if (op < 2*appends)
		{
			unsigned w = op/appends, n = op%appends/6, k = op%6;
			const Fmt& x = kFormats[k];
			bool valid = ref::valid(x.l, x.t), unique = true;
			for (auto& e : m[w].e)
				unique &= e.name != kNames[n];
			VertexFormat::AddResult r = f[w].appendElement(kNames[n], x.l, x.t);
			text += std::string(w ? " B" : " A") + "+'" + kNames[n] + "'/" + std::to_string(k);
			if ((r == VertexFormat::AddResult::Succeeded) != (valid && unique))
				ctx.fail("after%s: append %s", text.c_str(), r == VertexFormat::AddResult::Succeeded ? "succeeds" : "fails");
			if ((valid && !unique && r != VertexFormat::AddResult::NameNotUnique) || (!valid && unique && r != VertexFormat::AddResult::ElementInvalid))
				ctx.fail("after%s: append fails for the wrong reason", text.c_str());
			if (valid && unique)
				m[w].e.push_back(E{kNames[n], x.l, x.t, 0});
			else
				ctx.cover(valid ? "duplicate rejected" : "invalid rejected");
		}
		else
		{
			unsigned k = op - 2*appends;
			unsigned w = k & 1;
			switch (k)
			{
				case 0: case 1:
					f[w].clear();
					m[w].e.clear();
					text += w ? " clear B" : " clear A";
					break;
				case 2: case 3:
					f[!w] = f[w];
					m[!w] = m[w];
					text += w ? " A=B" : " B=A";
					break;
				case 4: case 5:
					f[!w] = std::move(f[w]);
					m[!w] = m[w];
					// What it holds isn't specified, but whatever it is has to be consistent from here on.
					m[w].e.clear();
					for (const VertexElement& x : f[w])
						m[w].e.push_back(E{x.name, x.layout, x.type, 0});
					agree(ctx, f[w], m[w], text + (w ? " A=move(B)" : " B=move(A)"));
					text += w ? " A=move(B)" : " B=move(A)";
					ctx.cover("moved");
					break;
				default:
				{
					VertexFormat copy(f[0]);
					VertexFormat moved(std::move(copy));
					f[0] = f[1];
					f[1] = moved;
					std::swap(m[0], m[1]);
					text += " swap";
				}
			}
		}
		if (asked == 1)
			for (unsigned w = 0; w < 2; ++w)
			{
				agree(ctx, f[w], m[w], text);
				if (f[w].containsElements(f[!w]) != contains(m[w], m[!w]) || (f[w] == f[!w]) != equal(m[0], m[1]))
					ctx.fail("after%s: containment or equality is wrong", text.c_str());
			}
		else if (asked == 2)
		{
			std::size_t i = 0;
			while (i < m[0].e.size() && m[0].e[i].name != "a")
				++i;
			if (f[0].find(std::string("a")) - f[0].begin() != static_cast<std::ptrdiff_t>(i))
				ctx.fail("after%s: lookup by name", text.c_str());
		}
		ctx.step();
	}
	std::uint64_t h = 0;
	for (unsigned w = 0; w < 2; ++w)
	{
		h = mc::mix(h);
		agree(ctx, f[w], m[w], text);
		for (auto& e : m[w].e)
			h = mc::hashBytes(e.name.data(), e.name.size(), h*31 + static_cast<unsigned>(e.l)*8 + static_cast<unsigned>(e.t));
		VertexFormat again = rebuild(m[w]);
		if (!(again == f[w]) || again != f[w])
			ctx.fail("after%s: the format differs from one with the same elements", text.c_str());
	}
	{
		bool eq = equal(m[0], m[1]);
		if ((f[0] == f[1]) != eq || (f[0] != f[1]) == eq)
			ctx.fail("after%s: equality is wrong", text.c_str());
		for (unsigned w = 0; w < 2; ++w)
			if (f[w].containsElements(f[!w]) != contains(m[w], m[!w]) || !f[w].containsElements(f[w]))
				ctx.fail("after%s: containment is wrong", text.c_str());
		if (contains(m[0], m[1]) != contains(m[1], m[0]))
			ctx.cover("one contains the other");
		if (eq && !m[0].e.empty())
			ctx.cover("equal formats");
	}
	ctx.state(h);
	if (!m[0].e.empty() || !m[1].e.empty())
		ctx.nontrivial();
	ctx.trace();
	ctx.note("after%s: formats agree with the model", text.c_str());
}

// Looks up each name, and names close to it.
static void everyName(mc::Ctx& ctx, const VertexFormat& f, const Model& m)
{
	std::map<std::string, std::size_t> where;
	for (std::size_t i = 0; i < m.e.size(); ++i)
		where.emplace(m.e[i].name, i);
	auto look = [&](const std::string& n) {
		auto it = where.find(n);
		std::size_t i = it == where.end() ? m.e.size() : it->second;
		if (f.find(n) - f.begin() != static_cast<std::ptrdiff_t>(i))
			ctx.fail("'%s' is found at %td instead of %zu of %zu elements", n.c_str(), f.find(n) - f.begin(), i, m.e.size());
	};
	std::size_t step = m.e.size() > 1000 ? 97 : m.e.size() > 20 ? 11 : 1;
	for (std::size_t i = 0; i < m.e.size(); ++i)
	{
		const std::string& n = m.e[i].name;
		look(n);
		if (i%step && i + 3 < m.e.size())
			continue;
		look("x" + n.substr(1));
		look("x" + n);
		look(n.substr(1));
		look(n.substr(0, n.size() - 1));
		look(n + "0");
		look("0" + n);
		look(n.substr(7));
		look("element0" + n.substr(7));
		look("Element" + n.substr(7));
		look("other" + n.substr(7));
	}
}

// Long formats: every layout in every order of a few, with growth beyond any small capacity.
static void longFormats(mc::Ctx& ctx)
{
	static const unsigned counts[] = {128, 129, 255, 256, 257, 700, 2100, 4200, 7000};
	unsigned c = ctx.choose(109), count = c < 100 ? c + 1 : counts[c - 100];
	unsigned from = ctx.choose(c < 100 ? 20 : 2), step = ctx.choose(c < 100 ? 20 : 2);
	if (c >= 100) // the widest only, and others
		from = from ? 17 : static_cast<unsigned>(ElementLayout::X64Y64Z64W64);
	VertexFormat f;
	Model m;
	for (unsigned i = 0; i < count; ++i)
	{
		ElementLayout l = static_cast<ElementLayout>((from + i*step)%20);
		ElementType t = ElementType::UNorm;
		for (int k = 4; k >= 0; --k)
			if (ref::valid(l, static_cast<ElementType>(k)))
				t = static_cast<ElementType>(k);
		std::string n = "element" + std::to_string(i);
		if (f.appendElement(n, l, t) != VertexFormat::AddResult::Succeeded)
			ctx.fail("element %u can't be appended", i);
		if (f.appendElement(n, l, t) != VertexFormat::AddResult::NameNotUnique)
			ctx.fail("element %u can be appended twice", i);
		m.e.push_back(E{n, l, t, 0});
		ctx.step(2);
	}
	agree(ctx, f, m, "appending " + std::to_string(count));
	everyName(ctx, f, m);
	VertexFormat copy = f;
	f.clear();
	agree(ctx, copy, m, "clearing the original");
	everyName(ctx, copy, m);
	agree(ctx, f, Model(), "clear");
	ctx.state(mc::mix(count*1000u + from*20 + step));
	ctx.nontrivial();
	ctx.trace();
}

// Names that are nearly the same: every length up to a bound, one byte different anywhere, or one byte longer.
static void nearNames(mc::Ctx& ctx, const std::vector<unsigned>& lengths)
{
	unsigned n = ctx.pick(lengths);
	unsigned at = ctx.choose(n + 1); // n: one is longer
	static const char with[] = {'b', 'A', '\0', ' ', '\x80', '\xe1', '_'};
	char other = ctx.pick(std::vector<char>(with, with + sizeof(with)));
	std::string a(n, 'a'), b = a;
	if (at < n)
		b[at] = other;
	else
		b += other;
	bool first = ctx.flag();
	if (first)
		std::swap(a, b);
	VertexFormat f, g;
	Model m;
	m.e.push_back(E{a, X8, ElementType::UInt, 0});
	if (f.appendElement(a, X8, ElementType::UInt) != VertexFormat::AddResult::Succeeded)
		ctx.fail("a name of %zu bytes can't be appended", a.size());
	if (f.find(a) != f.begin() || f.find(b) != f.end())
		ctx.fail("names of %zu and %zu bytes that differ at %u are taken for each other", a.size(), b.size(), at);
	g.appendElement(b, X8, ElementType::UInt);
	if (f.containsElements(g) || g.containsElements(f) || f == g)
		ctx.fail("formats with names of %zu and %zu bytes that differ at %u are taken for each other", a.size(), b.size(), at);
	if (f.appendElement(b, X8, ElementType::UInt) != VertexFormat::AddResult::Succeeded)
		ctx.fail("a name of %zu bytes can't be appended after one of %zu that differs at %u", b.size(), a.size(), at);
	for (const std::string& x : {a, b})
		if (f.appendElement(x, X16, ElementType::UInt) != VertexFormat::AddResult::NameNotUnique || f.size() != 2 || f.stride() != 2)
			ctx.fail("a name of %zu bytes can be appended twice", x.size());
	if (f.find(a) != f.begin() || f.find(b) != f.begin() + 1 || f[0].name != a || f[1].name != b || f[1].offset != 1)
		ctx.fail("names of %zu and %zu bytes that differ at %u aren't found", a.size(), b.size(), at);
	if (!f.containsElements(g))
		ctx.fail("containment is wrong for a name of %zu bytes", b.size());
	if (a.find('\0') == std::string::npos && b.find('\0') == std::string::npos && (f.find(a.c_str()) != f.begin() || f.find(b.c_str()) != f.begin() + 1))
		ctx.fail("names of %zu and %zu bytes that differ at %u aren't found", a.size(), b.size(), at);
	ctx.step(8);
	ctx.state(mc::hashBytes(b.data(), b.size(), first));
	ctx.nontrivial();
	ctx.trace();
}

// Every value of the two enumerations, after 0 to 2 others.
static void pairsOfAll(mc::Ctx& ctx)
{
	unsigned before = ctx.choose(3), l = ctx.choose(21), t = ctx.choose(6);
	ElementLayout layout = l == 20 ? ElementLayout::Invalid : static_cast<ElementLayout>(l);
	ElementType type = t == 5 ? ElementType::Invalid : static_cast<ElementType>(t);
	VertexFormat f;
	for (unsigned i = 0; i < before; ++i)
		f.appendElement(std::string(1, static_cast<char>('a' + i)), ElementLayout::X8Y8Z8, ElementType::UInt);
	VertexFormat old = f;
	bool valid = ref::valid(layout, type);
	VertexFormat::AddResult r = f.appendElement("x", layout, type);
	if (r != (valid ? VertexFormat::AddResult::Succeeded : VertexFormat::AddResult::ElementInvalid))
		ctx.fail("layout %u with type %u %s be appended", l, t, valid ? "can't" : "can");
	if (isElementValid(layout, type) != valid)
		ctx.fail("layout %u with type %u is %s", l, t, valid ? "invalid" : "valid");
	if (valid ? f.size() != before + 1 || f.stride() != before*3 + ref::info(layout).size || elementLayoutSize(layout) != ref::info(layout).size ||
			f.back().layout != layout || f.back().type != type || f.back().offset != before*3 || f == old : f != old)
		ctx.fail("appending layout %u with type %u gives the wrong format", l, t);
	ctx.step();
	ctx.state(mc::mix(before*1000 + l*10 + t));
	ctx.nontrivial();
	ctx.trace();
}

// Formats of up to two elements that may differ in any one thing.
static void equality(mc::Ctx& ctx)
{
	std::vector<std::pair<ElementLayout, ElementType>> valid;
	for (unsigned l = 0; l < 20; ++l)
		for (unsigned t = 0; t < 5; ++t)
			if (ref::valid(static_cast<ElementLayout>(l), static_cast<ElementType>(t)))
				valid.emplace_back(static_cast<ElementLayout>(l), static_cast<ElementType>(t));
	VertexFormat f[2];
	Model m[2];
	unsigned shape = ctx.choose(4), h = shape; // alone, first, last, between
	static const char* names[] = {"x", "y"};
	for (unsigned w = 0; w < 2; ++w)
	{
		unsigned k = ctx.choose(static_cast<unsigned>(valid.size())), n = w == 0 ? 0 : ctx.choose(2);
		auto add = [&](const char* name, ElementLayout l, ElementType t) {
			f[w].appendElement(name, l, t);
			m[w].e.push_back(E{name, l, t, 0});
		};
		if (shape >= 2)
			add("before", ElementLayout::X8Y8, ElementType::UNorm);
		add(names[n], valid[k].first, valid[k].second);
		if (shape & 1)
			add("after", ElementLayout::X8Y8, ElementType::UNorm);
		h = h*1000 + k*2 + n;
	}
	bool eq = equal(m[0], m[1]);
	if ((f[0] == f[1]) != eq || (f[1] == f[0]) != eq || (f[0] != f[1]) == eq)
		ctx.fail("formats with %s %s and %s %s are %s", ref::name(m[0].e[shape >= 2].l), ref::name(m[0].e[shape >= 2].t),
			ref::name(m[1].e[shape >= 2].l), ref::name(m[1].e[shape >= 2].t), eq ? "different" : "equal");
	for (std::size_t i = 0; i < m[0].e.size(); ++i)
	{
		bool same = m[0].e[i].name == m[1].e[i].name && m[0].e[i].l == m[1].e[i].l && m[0].e[i].t == m[1].e[i].t && f[0][i].offset == f[1][i].offset;
		if ((f[0][i] == f[1][i]) != same || (f[0][i] != f[1][i]) == same)
			ctx.fail("elements %zu are %s", i, same ? "different" : "equal");
	}
	if (f[0].containsElements(f[1]) != contains(m[0], m[1]))
		ctx.fail("containment depends on more than the names");
	for (unsigned w = 0; w < 2; ++w)
	{
		VertexFormat& same = f[w];
		f[w] = same;
		agree(ctx, f[w], m[w], "assignment to itself");
		VertexFormat taken(std::move(f[w]));
		agree(ctx, taken, m[w], "moving");
		Model left;
		for (const VertexElement& x : f[w])
			left.e.push_back(E{x.name, x.layout, x.type, 0});
		agree(ctx, f[w], left, "having been moved from");
		f[w].clear();
		agree(ctx, f[w], Model(), "moving and clearing");
	}
	ctx.step(2);
	ctx.state(mc::mix(h));
	ctx.nontrivial();
	ctx.trace();
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		unsigned depth = thorough ? 4 : 3;
		s.push_back({"history", [depth](mc::Ctx& c) { history(c, depth); }, 2, false, 60,
			"every history of up to " + std::to_string(depth) + " operations on two formats: 5 names x 6 layout/type pairs appended to either, clear, copy, move, swap, with nothing, everything or one name asked in between"});
		s.push_back({"long", longFormats, 2, false, 60, "up to 100 elements over all layouts in every arithmetic order, and 9 counts up to 7000, with strides beyond 2^16"});
		std::vector<unsigned> lengths;
		for (unsigned n = 1; n <= (thorough ? 300u : 40u); ++n)
			lengths.push_back(n);
		for (unsigned n : {63, 64, 65, 127, 128, 129, 255, 256, 257})
			lengths.push_back(n);
		s.push_back({"names", [lengths](mc::Ctx& c) { nearNames(c, lengths); }, 3, false, 60,
			std::string("two names of every length up to ") + (thorough ? "300" : "40 and around 64, 128 and 256") + " that differ in any one byte (7 replacements, with NUL) or in length"});
		s.push_back({"pairs", pairsOfAll, 2, false, 60, "every layout and type, valid and not, after 0 to 2 elements"});
		s.push_back({"equality", equality, 2, false, 60, "formats whose elements have any two valid layout/type pairs and names, in 4 places"});
		return s;
	});
}
