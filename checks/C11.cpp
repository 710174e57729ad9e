#include "spaces.h"
#include "threadsched.h"
#include <VFC/VertexValue.h>
#include <functional>
using namespace conv;

unsigned controlRacy(unsigned seed);
unsigned controlLocked(unsigned seed);
unsigned controlLazy(unsigned i);

static std::string outText(const Out& o)
{
	std::string s = o.ok ? "ok" : "failed";
	for (auto& v : o.vertices)
	{
		s += " v:";
		s.append(reinterpret_cast<const char*>(v.data()), v.size());
	}
	for (auto& b : o.ibs)
	{
		s += " i:" + std::to_string(b.base) + ":";
		for (auto i : b.idx)
			s += std::to_string(i) + ",";
	}
	for (auto& st : o.bounds)
		for (auto& b : st)
			s.append(reinterpret_cast<const char*>(&b), sizeof(b));
	for (auto& e : o.errors)
		s += " e:" + e;
	return s;
}

// A script is a sequence of calls on one object; each step returns what it observed.
struct Script
{
	Case c;
	std::unique_ptr<Converter> cv;
	std::vector<std::string> errors;
	vfc::VertexFormat fmt;
	vfc::VertexValue val;
	std::function<void(const char*)> onError;
	void* place = nullptr; // where the converter is put instead of the heap
};

constexpr unsigned kScripts = 10;
// More that fail, which only the nested calls use.
constexpr unsigned kRestart = 10, kMissing = 11, kPatch = 12, kNoFormat = 13, kMismatch = 14, kNoStride = 15, kTooSmall = 16, kAgain = 17, kTwice = 18, kRange = 19, kAll = 20;
constexpr unsigned kSteps = 4;

static void setupCase(Script& s, unsigned kind)
{
	Case& c = s.c;
	auto add = [&](VertexFormat f, unsigned n, unsigned seed, IndexType t, std::vector<std::uint32_t> idx) {
		InStream st;
		st.fmt = f;
		st.setData(n);
		for (unsigned v = 0; v < n; ++v)
			fill(st, v, seed + v);
		if (t != IndexType::NoIndices)
			st.setIndices(t, idx);
		c.in.push_back(std::move(st));
	};
	auto fmt = [](std::vector<Elem> e) {
		VertexFormat f;
		for (auto& x : e)
			f.appendElement(x.name, x.layout, x.type);
		return f;
	};
	c.ot = IndexType::UInt16;
	switch (kind)
	{
		case 0:
			c.prim = PrimitiveType::TriangleStrip;
			c.maxIndex = 3;
			c.out = {fmt({{"a", X8, UInt}})};
			add(fmt({{"a", X8, UInt}}), 6, 0, IndexType::UInt16, {0, 1, 2, 3, 0xFFFF, 4, 5, 0});
			break;
		case 1:
			c.prim = PrimitiveType::TriangleList;
			c.maxIndex = 2;
			c.out = {fmt({{"a", X16Y16, Float}}), fmt({{"b", X8Y8Z8W8, SNorm}})};
			c.transforms = {{"b", Transform::Bounds}};
			add(fmt({{"b", X32Y32Z32, Float}, {"a", X16Y16, Float}}), 6, 3, IndexType::NoIndices, {});
			break;
		case 2:
			c.prim = PrimitiveType::PointList;
			c.ot = IndexType::NoIndices;
			c.defaultMax = true;
			c.out = {fmt({{"p", ElementLayout::Z10Y11X11_UFloat, Float}, {"q", ElementLayout::E5Z9Y9X9_UFloat, Float}})};
			add(fmt({{"q", X32Y32Z32, Float}}), 3, 5, IndexType::UInt32, {2, 0, 1});
			add(fmt({{"p", ElementLayout::X64Y64Z64, Float}}), 3, 9, IndexType::NoIndices, {});
			break;
		case 3:
			c.prim = PrimitiveType::LineStrip;
			c.maxIndex = 1;
			c.out = {fmt({{"a", ElementLayout::W2X10Y10Z10, UNorm}})};
			c.transforms = {{"a", Transform::SNormToUNorm}};
			add(fmt({{"a", X8Y8Z8W8, SNorm}}), 4, 1, IndexType::UInt16, {3, 2, 1, 0, 3});
			break;
		case 4: // fails: out of range
			c.prim = PrimitiveType::PointList;
			c.maxIndex = 7;
			c.out = {fmt({{"a", X8, UInt}})};
			add(fmt({{"a", X8, UInt}}), 2, 0, IndexType::UInt16, {0, 1, 2});
			break;
		case 5: // fails: element without stream
			c.prim = PrimitiveType::TriangleFan;
			c.maxIndex = 7;
			c.out = {fmt({{"a", X8, UInt}, {"missing", X8, UInt}})};
			add(fmt({{"a", X8, UInt}}), 3, 0, IndexType::NoIndices, {});
			break;
		case 6:
			c.prim = PrimitiveType::PatchList;
			c.patch = 2;
			c.maxIndex = 1;
			c.ot = IndexType::UInt32;
			c.out = {fmt({{"a", X16, UInt}})};
			add(fmt({{"a", X8, UInt}}), 3, 60, IndexType::UInt16, {0, 1, 0, 1, 1, 2});
			break;
		case kRestart: // fails: restarts without output indices
			c.prim = PrimitiveType::LineStrip;
			c.ot = IndexType::NoIndices;
			c.defaultMax = true;
			c.out = {fmt({{"a", X8, UInt}})};
			add(fmt({{"a", X8, UInt}}), 2, 4, IndexType::UInt16, {0, 0xFFFF, 1});
			break;
		case kMissing: // fails: several elements without a stream, in four streams
			c.prim = PrimitiveType::PointList;
			c.defaultMax = true;
			c.out = {fmt({{"an element with a name longer than any other", X8, UInt}, {"m", X8, UInt}}), fmt({{"a", X8, UInt}, {"last", X8, UInt}}), fmt({{"third", X8, UInt}}), fmt({{"fourth", X8, UInt}})};
			add(fmt({{"a", X8, UInt}}), 2, 4, IndexType::NoIndices, {});
			break;
		case kPatch: // invalid: no patch points
			c.prim = PrimitiveType::PatchList;
			c.defaultMax = true;
			c.out = {fmt({{"a", X8, UInt}})};
			break;
		case kNoFormat: // invalid: no format
			c.prim = PrimitiveType::PointList;
			c.defaultMax = true;
			break;
		case kMismatch: // fails: streams of different lengths
			c.prim = PrimitiveType::PointList;
			c.defaultMax = true;
			c.out = {fmt({{"a", X8, UInt}, {"b", X8, UInt}})};
			add(fmt({{"a", X8, UInt}}), 2, 0, IndexType::NoIndices, {});
			add(fmt({{"b", X8, UInt}}), 3, 0, IndexType::NoIndices, {});
			break;
		case kNoStride: // fails: not whole primitives
			c.prim = PrimitiveType::TriangleList;
			c.defaultMax = true;
			c.out = {fmt({{"a", X8, UInt}})};
			add(fmt({{"a", X8, UInt}}), 4, 0, IndexType::NoIndices, {});
			break;
		case kTooSmall: // invalid: no room for a primitive
			c.prim = PrimitiveType::TriangleList;
			c.maxIndex = 1;
			c.out = {fmt({{"a", X8, UInt}})};
			break;
		case kTwice: // fails: several elements twice
			c.prim = PrimitiveType::PointList;
			c.defaultMax = true;
			c.out = {fmt({{"first of several elements that are given twice", X8, UInt}, {"b", X8, UInt}}), fmt({{"c", X8, UInt}})};
			for (unsigned t = 0; t < 2; ++t)
				add(fmt({{"c", X8, UInt}, {"b", X8, UInt}, {"first of several elements that are given twice", X8, UInt}}), 2, t, IndexType::NoIndices, {});
			break;
		case kRange: // fails: out of range
			c.prim = PrimitiveType::LineList;
			c.defaultMax = true;
			c.ot = IndexType::NoIndices;
			c.out = {fmt({{"an element with an index that is out of range", X8, UInt}})};
			add(fmt({{"an element with an index that is out of range", X8, UInt}}), 2, 0, IndexType::UInt32, {0, 2});
			break;
		default: // fails: stream twice
			c.prim = PrimitiveType::PointList;
			c.defaultMax = true;
			c.out = {fmt({{"a", X8, UInt}})};
			add(fmt({{"a", X8, UInt}}), 2, 0, IndexType::NoIndices, {});
			add(fmt({{"a", X8, UInt}}), 2, 7, IndexType::NoIndices, {});
			break;
	}
}

static std::string step(Script& s, unsigned kind, unsigned k)
{
	if (kind == 8 || kind == 9)
	{
		// Formats, names and values rather than a converter.
		std::string r;
		if (k == 0)
		{
			r += std::to_string(static_cast<int>(s.fmt.appendElement("one", kind == 8 ? X8Y8 : X32, UInt)));
			r += ref::name(static_cast<ElementLayout>(vfc::elementLayoutFromName("r8g8")));
		}
		else if (k == 1)
		{
			r += std::to_string(static_cast<int>(s.fmt.appendElement("two", X16Y16, Float)));
			r += std::to_string(static_cast<int>(s.fmt.appendElement("one", X16Y16, Float)));
			const char* n = vfc::elementLayoutName(X16Y16);
			r += n ? n : "null";
		}
		else if (k == 2)
		{
			for (unsigned i = 0; i < 4; ++i)
				s.val[i] = kind*0.25 + i;
			std::uint8_t buf[8] = {};
			s.val.toData(buf, X16Y16, Float);
			r.append(reinterpret_cast<char*>(buf), 8);
			s.val.toData(buf, X8Y8Z8W8, UNorm);
			r.append(reinterpret_cast<char*>(buf), 8);
		}
		else
		{
			std::uint8_t buf[4] = {static_cast<std::uint8_t>(kind), 0x3c, 1, 0x40};
			s.val.fromData(buf, X16Y16, Float);
			r += std::to_string(s.val[0]) + std::to_string(s.val[1]);
			r += std::to_string(s.fmt.stride()) + (s.fmt.find("two") == s.fmt.end() ? "no" : "yes");
		}
		return r;
	}
	switch (k)
	{
		case 0:
			setupCase(s, kind);
		{
			auto error = [&s](const char* message) {
				s.errors.push_back(message);
				if (s.onError)
					s.onError(message);
			};
			const Case& c = s.c;
			if (s.place)
				s.cv.reset(c.defaultMax ? new (s.place) Converter(c.out, c.ot, c.prim, c.patch, error) :
					new (s.place) Converter(c.out, c.ot, c.prim, c.patch, c.maxIndex, error));
			else
				s.cv.reset(c.defaultMax ? new Converter(c.out, c.ot, c.prim, c.patch, error) :
					new Converter(c.out, c.ot, c.prim, c.patch, c.maxIndex, error));
			return s.cv->isValid() ? "valid" : "invalid";
		}
		case 1:
		{
			std::string r;
			for (auto& st : s.c.in)
				r += addStream(*s.cv, st) ? "+" : "-";
			for (auto& t : s.c.transforms)
				r += s.cv->setElementTransform(t.first, t.second) ? "+" : "-";
			return r;
		}
		case 2:
		{
			std::string r = s.cv->convert() ? "converted" : "not converted";
			if (kind == kAgain)
				r += s.cv->convert() ? ", converted" : ", not converted";
			return r;
		}
		default:
		{
			Out o;
			o.ok = !s.cv->getVertices().empty();
			if (o.ok)
				snapshot(*s.cv, o);
			o.errors = s.errors;
			return outText(o);
		}
	}
}

static std::string whole(unsigned kind)
{
	Script s;
	std::string r;
	for (unsigned k = 0; k < kSteps; ++k)
		r += step(s, kind, k) + "|";
	return r;
}

static std::string printable(const std::string& s)
{
	std::string r;
	for (unsigned char ch : s)
	{
		char b[8];
		snprintf(b, sizeof(b), ch >= 32 && ch < 127 ? "%c" : "\\x%02x", ch);
		r += b;
	}
	return r;
}

// Objects used from within another's error function: every step of one that reports an error runs (part of) another one's
// script, which may itself report an error and run a third.
static void nested(mc::Ctx& ctx, unsigned depth)
{
	static const std::vector<unsigned> failing = {4, 5, 7, kRestart, kMissing, kPatch, kNoFormat, kMismatch, kNoStride, kTooSmall, kAgain, kTwice, kRange};
	std::vector<unsigned> kind;
	kind.push_back(ctx.pick(failing));
	for (unsigned d = 1; d < depth; ++d)
		kind.push_back(d + 1 < depth ? ctx.pick(failing) : ctx.choose(kAll));
	// How far the inner ones are before the error, and how far they get inside of the error function.
	unsigned before = ctx.choose(kSteps), within = 1 + ctx.choose(kSteps - before);
	std::vector<Script> s(depth);
	std::vector<std::string> got(depth);
	std::vector<unsigned> at(depth, 0);
	unsigned entered = 0;
	auto advance = [&](unsigned d, unsigned to) {
		while (at[d] < to)
		{
			unsigned k = at[d]++;
			got[d] += step(s[d], kind[d], k) + "|";
			ctx.step();
		}
	};
	std::vector<bool> active(depth, false);
	for (unsigned d = 0; d + 1 < depth; ++d)
		s[d].onError = [&, d](const char* message) {
			if (active[d + 1] || at[d + 1] >= kSteps)
				return;
			active[d + 1] = true;
			++entered;
			std::string copy = message;
			advance(d + 1, before + within);
			if (copy != message)
				ctx.fail("script %u's message \"%s\" is \"%s\" after script %u ran within the error function", kind[d], copy.c_str(), message,
					kind[d + 1]);
			active[d + 1] = false;
		};
	for (unsigned d = depth; d-- > 1;)
	{
		// Errors before it's nested aren't nested themselves.
		std::function<void(const char*)> hook;
		hook.swap(s[d].onError);
		advance(d, before);
		hook.swap(s[d].onError);
	}
	advance(0, kSteps);
	for (unsigned d = 1; d < depth; ++d)
	{
		s[d].onError = nullptr;
		advance(d, kSteps);
	}
	std::string text;
	for (unsigned d = 0; d < depth; ++d)
	{
		text += " " + std::to_string(kind[d]);
		if (got[d] != whole(kind[d]))
			ctx.fail("script %u of scripts %u... nested in error functions observes something else than alone\n%s\n%s", kind[d], kind[0],
				printable(got[d]).substr(0, 600).c_str(), printable(whole(kind[d])).substr(0, 600).c_str());
	}
	if (entered)
		ctx.nontrivial();
	ctx.trace();
	text += " " + std::to_string(before) + " " + std::to_string(within);
	ctx.state(mc::hashBytes(text.data(), text.size()));
	ctx.note("scripts%s nested, %u times: as alone", text.c_str(), entered);
}

// Call by call on one thread: every interleaving.
static void interleave(mc::Ctx& ctx, unsigned objects)
{
	std::vector<unsigned> kind(objects), at(objects, 0);
	for (unsigned i = 0; i < objects; ++i)
		kind[i] = ctx.choose(kScripts);
	std::vector<Script> s(objects);
	std::vector<std::string> got(objects);
	std::string order;
	for (;;)
	{
		std::vector<unsigned> ready;
		for (unsigned i = 0; i < objects; ++i)
			if (at[i] < kSteps)
				ready.push_back(i);
		if (ready.empty())
			break;
		unsigned i = ready.size() == 1 ? ready[0] : ready[ctx.choose(static_cast<unsigned>(ready.size()))];
		got[i] += step(s[i], kind[i], at[i]++) + "|";
		order += static_cast<char>('0' + i);
		ctx.step();
	}
	for (unsigned i = 0; i < objects; ++i)
		if (got[i] != whole(kind[i]))
			ctx.fail("script %u interleaved as %s observes something else than alone", kind[i], order.c_str());
	ctx.nontrivial();
	ctx.trace();
	std::uint64_t h = mc::hashBytes(order.data(), order.size());
	for (unsigned k : kind)
		h = mc::mix(h*31 + k);
	ctx.state(h);
	ctx.note("scripts %u and %u, calls in the order %s: as alone", kind[0], kind[1], order.c_str());
}

// Objects one after another in the same memory, the later ones where earlier ones were: at the same address, or in memory
// with what the earlier left in it. Each may be given up after any of its calls.
static void recycled(mc::Ctx& ctx, unsigned objects)
{
	alignas(Converter) static unsigned char place[sizeof(Converter)];
	std::string text;
	for (unsigned i = 0; i < objects; ++i)
	{
		unsigned kind = ctx.choose(kAll);
		unsigned calls = i + 1 == objects ? kSteps : 1 + ctx.choose(kSteps);
		Script s;
		s.place = place;
		std::string got, want;
		Script other;
		for (unsigned k = 0; k < calls; ++k)
		{
			got += step(s, kind, k) + "|";
			ctx.step();
		}
		if (s.cv)
		{
			s.cv->~Converter();
			s.cv.release();
		}
		for (unsigned k = 0; k < calls; ++k)
			want += step(other, kind, k) + "|";
		text += " " + std::to_string(kind) + "/" + std::to_string(calls);
		if (got != want)
			ctx.fail("objects in the place of earlier ones (scripts and calls%s) observe something else than elsewhere\n%s\n%s", text.c_str(),
				printable(got).substr(0, 600).c_str(), printable(want).substr(0, 600).c_str());
	}
	ctx.nontrivial();
	ctx.trace();
	ctx.state(mc::hashBytes(text.data(), text.size()));
	ctx.note("scripts and calls%s in one place: as elsewhere", text.c_str());
}

// Runs the threads under a schedule with up to `bound` preemptions, enumerated over every access to
// a location that two threads share. Returns the first run that didn't behave as expected in msg.
static bool explore(mc::Ctx& ctx, const std::vector<sched::Body>& bodies, const std::vector<std::string>& alone,
	const std::string& names, unsigned bound,	std::string& msg)
{
	unsigned n = static_cast<unsigned>(bodies.size());
	auto judge = [&](const sched::RunResult& r) {
		ctx.beat();
		ctx.step(r.accesses);
		if (r.deadlock)
			msg = "deadlock";
		else if (r.hung)
			msg = "doesn't terminate";
		else if (!r.completed)
			msg = "crashed (status " + std::to_string(r.status) + ")";
		else
			for (unsigned t = 0; t < n; ++t)
				if (r.output[t] != alone[t])
					msg = "thread " + std::to_string(t) + " observes\n" + printable(r.output[t]).substr(0, 600) + "\nalone it observes\n" +
						printable(alone[t]).substr(0, 600);
		return msg.empty();
	};
	// Which locations do the threads share? Every serial order, repeated until nothing new appears.
	std::vector<std::uint64_t> shared;
	auto merge = [&](const std::vector<std::uint64_t>& c) {
		std::size_t before = shared.size();
		shared.insert(shared.end(), c.begin(), c.end());
		std::sort(shared.begin(), shared.end());
		shared.erase(std::unique(shared.begin(), shared.end()), shared.end());
		return shared.size() != before;
	};
	static std::map<std::string, std::vector<std::uint64_t>> cache; // a function of the bodies alone
	if (cache.count(names))
		shared = cache[names];
	else
	for (unsigned round = 0; round < 4; ++round)
	{
		bool grew = false;
		for (unsigned f = 0; f < n; ++f)
		{
			sched::RunResult r = sched::run(bodies, f, {}, shared);
			if (!judge(r))
			{
				msg = "serially from thread " + std::to_string(f) + ": " + msg;
				return false;
			}
			grew |= merge(r.conflicts);
		}
		if (!grew)
			break;
	}
	cache[names] = shared;
	if (!shared.empty())
		ctx.cover("threads share locations");
	else
		ctx.cover("no shared location: all schedules equivalent");
	if (shared.empty())
		return true; // the serial orders above represent every schedule
	unsigned first = ctx.choose(n);
	std::vector<sched::Preemption> pre;
	sched::RunResult r = sched::run(bodies, first, pre, shared);
	bool ok = judge(r);
	std::string text = "threads start with " + std::to_string(first);
	for (unsigned p = 0; ok && p < bound && r.points > 0; ++p)
	{
		if (p > 0 && r.points > (ctx.thorough() ? 600 : 60))
		{
			ctx.cover("too many scheduling points for another preemption");
			break;
		}
		std::uint32_t from = pre.empty() ? 0 : pre.back().at + 1;
		if (r.points <= from)
			break;
		unsigned k = ctx.choose(static_cast<unsigned>(r.points - from) + 1);
		if (k == 0)
			break;
		// The other threads, whoever is running.
		std::uint32_t to = n == 2 ? 2 : ctx.choose(n);
		if (n == 2)
		{
			// Toggle: the running thread at that point is unknown, so offer both.
			to = ctx.choose(2);
		}
		pre.push_back(sched::Preemption{from + k - 1, to});
		text += ", switch to " + std::to_string(to) + " before shared access " + std::to_string(from + k - 1);
		r = sched::run(bodies, first, pre, shared);
		ok = judge(r);
	}
	ctx.state(mc::hashBytes(text.data(), text.size(), r.points));
	ctx.note("%s: %llu accesses, %zu shared locations, %llu scheduling points", text.c_str(), (unsigned long long)r.accesses, shared.size(),
		(unsigned long long)r.points);
	if (!ok)
		msg = text + ": " + msg;
	return ok;
}

static void threads(mc::Ctx& ctx, unsigned count, unsigned bound)
{
	std::vector<sched::Body> bodies;
	std::vector<std::string> alone;
	std::string names;
	std::vector<unsigned> kinds;
	for (unsigned t = 0; t < count; ++t)
	{
		// Unordered: every starting thread is tried.
		unsigned low = t ? kinds.back() : 0, kind = low + ctx.choose(kScripts - low);
		kinds.push_back(kind);
		bodies.push_back([kind]() { return whole(kind); });
		static std::map<unsigned, std::string> cache;
		if (!cache.count(kind))
		{
			sched::RunResult r = sched::run({bodies.back()}, 0, {}, {});
			if (!r.completed)
				ctx.fail("script %u alone doesn't complete", kind);
			cache[kind] = r.output[0];
		}
		alone.push_back(cache[kind]);
		names += " " + std::to_string(kind);
	}
	std::string msg;
	bool ok = explore(ctx, bodies, alone, names, bound, msg);
	ctx.nontrivial();
	ctx.trace();
	if (!ok)
		ctx.fail("scripts%s on %u threads, %s", names.c_str(), count, msg.c_str());
}

// The explorer itself: shared state must be found, synchronised state must be accepted.
static void control(mc::Ctx& ctx)
{
	unsigned which = ctx.choose(3);
	auto fn = which == 0 ? controlRacy : which == 1 ? controlLocked : controlLazy;
	std::vector<sched::Body> bodies = {[fn]() { return std::to_string(fn(1)); }, [fn]() { return std::to_string(fn(100)); }};
	std::vector<std::string> alone = {sched::run({bodies[0]}, 0, {}, {}).output[0], sched::run({bodies[1]}, 0, {}, {}).output[0]};
	std::string msg;
	bool ok = explore(ctx, bodies, alone, "control " + std::to_string(which), ctx.thorough() ? 2 : 1, msg);
	if (!ok && which != 0)
		ctx.fail("harness: synchronised code was reported: %s", msg.c_str());
	if (!ok)
		ctx.cover("control: racy code caught");
	ctx.trace();
}

// At least one schedule of the racy control must show; a single fixed one does.
static void controlCaught(mc::Ctx& ctx)
{
	std::vector<sched::Body> bodies = {[]() { return std::to_string(controlRacy(1)); }, []() { return std::to_string(controlRacy(100)); }};
	sched::RunResult serial = sched::run(bodies, 0, {}, {});
	if (serial.conflicts.empty())
		ctx.fail("harness: the racy control's shared locations weren't noticed");
	bool differs = false;
	sched::RunResult base = sched::run(bodies, 0, {}, serial.conflicts);
	for (std::uint32_t p = 0; p < base.points; ++p)
	{
		sched::RunResult r = sched::run(bodies, 0, {{p, 1}}, serial.conflicts);
		sched::RunResult again = sched::run(bodies, 0, {{p, 1}}, serial.conflicts);
		if (r.output != again.output || r.points != again.points)
			ctx.fail("harness: a schedule doesn't repeat");
		differs |= r.output != base.output;
	}
	if (!differs)
		ctx.fail("harness: no schedule of the racy control shows the race");
	ctx.cover("control: racy code caught");
	ctx.trace();
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		s.push_back({"control-caught", controlCaught, 0, true, 60, "a racy control program must be caught, and schedules must repeat"});
		s.push_back({"control", control, 1, false, 60, std::string("racy, locked and lazily initialised control programs, up to ") + (thorough ? "2 preemptions" : "1 preemption")});
		s.push_back({"interleave", [](mc::Ctx& c) { interleave(c, 2); }, 2, false, 60,
			"every interleaving of 4 calls each on two objects, every pair of 10 scripts"});
		if (thorough)
			s.push_back({"interleave3", [](mc::Ctx& c) { interleave(c, 3); }, 3, false, 60,
				"every interleaving of 4 calls each on three objects, every triple of 10 scripts"});
		s.push_back({"nested", [](mc::Ctx& c) { nested(c, 2 + c.choose(2)); }, 3, false, 60,
			"objects used within the error function of another, two or three deep, 13 scripts that fail in every way, any of 20 within"});
		s.push_back({"recycled", [thorough](mc::Ctx& c) { recycled(c, thorough ? 4 : 3); }, 3, false, 60,
			"every sequence of " + std::to_string(thorough ? 4 : 3) + " objects in the same memory, 20 kinds of scripts, each but the last given up after any call"});
		unsigned bound = thorough ? 3 : 2;
		s.push_back({"threads", [bound](mc::Ctx& c) { threads(c, 2, bound); }, 2, false, 120,
			"every pair of 10 scripts on two threads, up to " + std::to_string(bound) + " preemptions at every access to a shared location"});
		s.push_back({"threads3", [thorough](mc::Ctx& c) { threads(c, 3, thorough ? 2 : 1); }, 3, false, 120,
			std::string("every triple of scripts on three threads, up to ") + (thorough ? "2 preemptions" : "1 preemption")});
		return s;
	});
}
