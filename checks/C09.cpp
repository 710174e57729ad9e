#include "callmodel.h"
using namespace conv;

// Every history of calls over a small alphabet, checked step by step against the call model and, at
// the end, against a fresh converter that only ever saw the calls that succeeded.
struct Setup
{
	Case c;
	std::vector<AddCall> adds;
};

static void makeSetup(mc::Ctx& ctx, Setup& s, unsigned variant)
{
	Case& c = s.c;
	c.prim = variant == 2 || variant == 4 ? PrimitiveType::LineStrip : variant == 3 ? PrimitiveType::TriangleList : PrimitiveType::PointList;
	c.ot = variant == 1 || variant == 4 ? IndexType::NoIndices : IndexType::UInt16;
	c.defaultMax = c.ot == IndexType::NoIndices;
	c.maxIndex = variant == 3 ? 2 : 1;
	c.out.push_back(format(ctx, {{"a", X8, UNorm}, {"b", X8Y8, UInt}}));
	c.out.push_back(format(ctx, {{"c", X16, UInt}, {"d", X32, Float}}));
	auto add = [&](std::vector<Elem> e, unsigned n, IndexType t, std::vector<std::uint32_t> idx) {
		AddCall a;
		a.s.fmt = format(ctx, e);
		a.s.setData(n);
		for (unsigned v = 0; v < n; ++v)
			fill(a.s, v, v*7 + static_cast<unsigned>(s.adds.size()));
		if (t != IndexType::NoIndices)
			a.s.setIndices(t, std::move(idx));
		s.adds.push_back(std::move(a));
	};
	std::uint32_t r = isStrip(c.prim) ? 0xFFFFU : 1;
	add({{"a", X32, Float}}, 3, IndexType::NoIndices, {});
	add({{"x", X8, UInt}, {"b", X16Y16, UInt}}, 2, IndexType::UInt16, {1, isStrip(c.prim) ? r : 0U, 1});
	add({{"c", X8, UInt}}, 4, IndexType::UInt32, {3, 2, 3});
	add({{"d", X32, Float}, {"c2", X8, UInt}}, 3, IndexType::NoIndices, {});
	add({{"c", X8, UInt}, {"d", X32, Float}}, 3, IndexType::UInt16, {2, 1, 0});
	add({{"d", X16, Float}}, 2, IndexType::UInt16, {0, 2, 1}); // index out of range
	add({{"b", X8Y8, UInt}, {"a", X8, UNorm}}, 4, IndexType::NoIndices, {}); // other count
	add({{"z", X8, UInt}}, 3, IndexType::NoIndices, {});      // supplies nothing
	add({{"a", X8, UNorm}, {"z", X8, UInt}}, 3, IndexType::NoIndices, {});
	s.adds.back().nullData = true;
	add({{"d", X8, UNorm}}, 3, IndexType::UInt16, {0, 1, 2, 0}); // no index array, other count
	s.adds.back().nullIndices = true;
	add({{"a", X32, Float}}, 0, IndexType::NoIndices, {});
}

enum { OpConvert = 100, OpTransform, OpTransformPos, OpUnknownTransform, OpMoveConstruct, OpMoveAssignFresh, OpMoveAssignUsed, OpMoveAssignInvalid, OpMoveSwap };

struct Obs
{
	std::vector<bool> results;
	bool converted = false;
	Out out;
};

static void history(mc::Ctx& ctx, unsigned variants, unsigned depth, const std::vector<int>& ops,
	const std::vector<std::vector<int>>& prefixes = {{}})
{
	Setup s;
	makeSetup(ctx, s, ctx.choose(variants));
	Case& c = s.c;
	std::vector<std::string> errors;
	std::unique_ptr<Converter> cv = makeConverter(c, &errors);
	if (!cv->isValid() || !errors.empty())
		ctx.fail("the converter is invalid");
	CallModel model;
	model.c = &c;
	std::vector<int> good;    // successful calls
	std::string trail;
	Out frozen;
	bool converted = false;
	Transform tmodel[2] = {Transform::Identity, Transform::Identity};

	auto apply = [&](Converter& x, int op) {
		if (op < OpConvert)
			return callAdd(x, s.adds[op]);
		if (op == OpConvert)
			return x.convert();
		if (op == OpTransform)
			return x.setElementTransform("a", Transform::UNormToSNorm);
		if (op == OpTransformPos)
		{
			x.setElementTransform(1, 0, Transform::SNormToUNorm);
			return true;
		}
		return x.setElementTransform("nothing", Transform::Bounds);
	};
	auto check = [&]() {
		if (!cv->isValid() || cv->getVertexFormat().size() != c.out.size() || cv->getIndexType() != c.ot || cv->getPrimitiveType() != c.prim ||
			(!c.defaultMax && cv->getMaxIndexValue() != c.maxIndex) || cv->getPatchPoints() != c.patch)
			ctx.fail("the converter's configuration changed after%s", trail.c_str());
		for (std::size_t i = 0; i < c.out.size(); ++i)
			if (cv->getVertexFormat()[i] != c.out[i])
				ctx.fail("the converter's output format changed after%s", trail.c_str());
		if (cv->getElementTransform("a") != tmodel[0] || cv->getElementTransform(1, 0) != tmodel[1])
			ctx.fail("a transform changed after%s", trail.c_str());
		if (!converted)
		{
			if (!cv->getVertices().empty() || !cv->getIndices().empty() || cv->getVertexCount() != 0)
				ctx.fail("there is output before conversion after%s", trail.c_str());
			return;
		}
		Out now;
		now.ok = true;
		snapshot(*cv, now);
		if (!sameOut(now, frozen))
			ctx.fail("the output changed after%s\nbefore:%s after:%s", trail.c_str(), describeOut(frozen).c_str(), describeOut(now).c_str());
	};

	const std::vector<int>& prefix = ctx.pick(prefixes);
	for (unsigned d = 0; d < prefix.size() + depth; ++d)
	{
		int op = d < prefix.size() ? prefix[d] : ctx.pick(ops);
		trail += " " + std::to_string(op);
		errors.clear();
		ctx.step();
		if (op >= OpMoveConstruct)
		{
			switch (op)
			{
				case OpMoveConstruct:
					cv.reset(new Converter(std::move(*cv)));
					break;
				case OpMoveAssignFresh:
				{
					auto n = makeConverter(c, nullptr);
					*n = std::move(*cv);
					cv = std::move(n);
					break;
				}
				case OpMoveAssignUsed:
				{
					// Onto a converter with streams and output of its own.
					Case other;
					other.prim = PrimitiveType::TriangleStrip;
					other.ot = IndexType::UInt32;
					other.maxIndex = 2;
					other.out.push_back(format(ctx, {{"q", X32, UInt}}));
					InStream st;
					st.fmt = format(ctx, {{"q", X32, UInt}});
					st.setData(5);
					for (unsigned v = 0; v < 5; ++v)
						fill(st, v, v);
					auto n = makeConverter(other, nullptr);
					if (!addStream(*n, st) || !n->convert())
						ctx.fail("the other converter failed");
					*n = std::move(*cv);
					cv = std::move(n);
					break;
				}
				case OpMoveAssignInvalid:
				{
					std::unique_ptr<Converter> n(new Converter(VertexFormat(), IndexType::UInt16, PrimitiveType::PointList, 0,
						[](const char*) {}));
					*n = std::move(*cv);
					cv = std::move(n);
					break;
				}
				default:
				{
					Converter t(std::move(*cv));
					*cv = std::move(t);
					break;
				}
			}
			if (!errors.empty())
				ctx.fail("moving reported an error after%s", trail.c_str());
			check();
			continue;
		}
		Verdict want = op < OpConvert ? model.add(s.adds[op]) : op == OpConvert ? model.convert() : op == OpUnknownTransform ? Fails : Succeeds;
		// Streams and transforms after the conversion can be accepted or rejected; the output stays.
		if (converted && op < OpConvert && want == Succeeds)
			want = Either;
		bool got = apply(*cv, op);
		if (want != Either && got != (want == Succeeds))
			ctx.fail("call %d %s (%s), expected %s after%s", op, got ? "succeeded" : "failed", errors.empty() ? "" : errors[0].c_str(),
				want == Succeeds ? "success" : "failure", trail.c_str());
		if (op <= OpConvert)
			checkErrors(ctx, "the call", got, errors, trail);
		if (got)
		{
			good.push_back(op);
			if (op < OpConvert)
				model.added(s.adds[op].s);
			if (op == OpTransform)
				tmodel[0] = Transform::UNormToSNorm;
			if (op == OpTransformPos)
				tmodel[1] = Transform::SNormToUNorm;
			if (op == OpConvert)
			{
				converted = model.converted = true;
				frozen = Out();
				frozen.ok = true;
				snapshot(*cv, frozen);
				ctx.cover("converted in the history");
			}
		}
		else
			ctx.nontrivial();
		check();
	}

	// A fresh converter that only sees the successful calls continues identically.
	std::unique_ptr<Converter> fresh = makeConverter(c, nullptr);
	for (int op : good)
		if (!apply(*fresh, op))
			ctx.fail("call %d fails without the failed calls of%s", op, trail.c_str());
	auto finish = [&](Converter& x) {
		Obs o;
		for (int op : {0, 1, 2, 3, static_cast<int>(OpConvert), 4, static_cast<int>(OpConvert)})
		{
			o.results.push_back(apply(x, op));
			ctx.step();
			if (op == OpConvert && o.results.back())
				o.converted = true;
		}
		if (o.converted || converted)
			snapshot(x, o.out);
		o.out.ok = true;
		return o;
	};
	Obs a = finish(*cv), b = finish(*fresh);
	if (a.results != b.results)
		ctx.fail("after%s the converter continues differently from one that only saw the successful calls", trail.c_str());
	if (!sameOut(a.out, b.out))
		ctx.fail("after%s the result differs from that of the successful calls alone\nwith:%s alone:%s", trail.c_str(), describeOut(a.out).c_str(),
			describeOut(b.out).c_str());
	if (converted && !sameOut(a.out, frozen))
		ctx.fail("the output changed after%s", trail.c_str());
	if (a.converted || converted)
	{
		ctx.cover("converted at the end");
		// And the result is right: the conversion of the streams accepted before it.
		Case full = c;
		bool before = true;
		for (int op : good)
		{
			if (op == OpConvert)
				before = false;
			if (op < OpConvert && before)
				full.in.push_back(s.adds[op].s);
		}
		for (int op = 0; op < 4 && !converted; ++op)
			if (a.results[op])
				full.in.push_back(s.adds[op].s);
		bool t0 = false, t1 = false;
		for (int op : good)
		{
			if (op == OpConvert)
				break;
			t0 |= op == OpTransform;
			t1 |= op == OpTransformPos;
		}
		if (t0)
			full.transforms.emplace_back("a", Transform::UNormToSNorm);
		if (t1)
			full.transforms.emplace_back("c", Transform::SNormToUNorm);
		Expected x = expect(ctx, full);
		if (isStrip(full.prim))
			oraclePrims(ctx, full, x, a.out);
		else
			oracleContent(ctx, full, x, a.out);
		oracleBounds(ctx, full, x, a.out);
	}
	ctx.trace();
	ctx.state(hashOut(a.out) ^ mc::hashBytes(good.data(), good.size()*sizeof(int)));
	ctx.note("calls:%s; at the end %sconverted;%s", trail.c_str(), a.converted || converted ? "" : "not ", describeOut(a.out).c_str());
}

// The arrays can be corrected between calls: a conversion that failed because of their contents leaves nothing
// behind that a later one could tell, and once converted they don't matter any more.
static void repaired(mc::Ctx& ctx, unsigned depth)
{
	Case c;
	unsigned variant = ctx.choose(4);
	c.prim = variant == 0 ? PrimitiveType::PointList : variant == 3 ? PrimitiveType::TriangleList : PrimitiveType::LineStrip;
	c.ot = variant == 2 ? IndexType::NoIndices : IndexType::UInt16;
	c.defaultMax = variant == 2;
	c.maxIndex = variant == 3 ? 2 : 1;
	c.out.push_back(format(ctx, {{"a", X8, UNorm}, {"b", X8Y8, UInt}}));
	c.out.push_back(format(ctx, {{"c", X16, UInt}, {"d", X32, Float}}));
	c.transforms.emplace_back("a", Transform::Bounds);
	c.transforms.emplace_back("d", Transform::UNormToSNorm);
	c.in.resize(2);
	InStream &p = c.in[0], &q = c.in[1];
	bool swapped = ctx.choose(2);
	(swapped ? q : p).fmt = format(ctx, {{"a", X32, Float}, {"b", X16Y16, UInt}});
	(swapped ? p : q).fmt = format(ctx, {{"c", X8, UInt}, {"d", X32, Float}});
	for (InStream* st : {&p, &q})
	{
		st->setData(4);
		for (unsigned v = 0; v < 4; ++v)
			fill(*st, v, v*5 + (st == &q));
	}
	p.setIndices(IndexType::UInt16, {2, 1, 3});
	q.setIndices(IndexType::UInt32, {0, 1, 2});
	const std::vector<std::uint32_t> pGood = p.idx, qGood = q.idx;
	auto put = [&](InStream& st, unsigned i, std::uint32_t v) {
		st.idx[i] = v;
		if (st.it == IndexType::UInt16)
		{
			std::uint16_t w = static_cast<std::uint16_t>(v);
			std::memcpy(st.idxBuf.data() + i*2, &w, 2);
		}
		else
			std::memcpy(st.idxBuf.data() + i*4, &v, 4);
	};
	std::vector<std::string> errors;
	auto make = [&](std::vector<std::string>* messages) {
		auto x = makeConverter(c, messages);
		for (auto& tr : c.transforms)
			if (!x->setElementTransform(tr.first, tr.second))
				ctx.fail("there's no element %s", tr.first.c_str());
		return x;
	};
	auto cv = make(&errors);
	if (!cv->isValid() || !addStream(*cv, p) || !addStream(*cv, q))
		ctx.fail("the converter rejects its streams");
	CallModel model;
	model.c = &c;
	model.added(p);
	model.added(q);
	std::string trail;
	Case done;
	Out frozen;
	bool converted = false;
	auto convert = [&]() {
		errors.clear();
		trail += " convert";
		Verdict want = model.convert();
		bool got = cv->convert();
		ctx.step();
		if (got != (want == Succeeds))
			ctx.fail("the conversion %s, expected %s after%s", got ? "succeeded" : "failed", want == Succeeds ? "success" : "failure", trail.c_str());
		checkErrors(ctx, "the conversion", got, errors, trail);
		if (!got)
		{
			if (!converted && (!cv->getVertices().empty() || !cv->getIndices().empty() || cv->getVertexCount() != 0))
				ctx.fail("there is output after a conversion that failed:%s", trail.c_str());
			ctx.nontrivial();
			return;
		}
		converted = model.converted = true;
		frozen.ok = true;
		snapshot(*cv, frozen);
		ctx.cover("converted in the history");
		// What it has to be: that of a converter that sees these contents only.
		auto fresh = make(nullptr);
		if (!addStream(*fresh, p) || !addStream(*fresh, q) || !fresh->convert())
			ctx.fail("a fresh converter fails with the same streams after%s", trail.c_str());
		Out alone;
		alone.ok = true;
		snapshot(*fresh, alone);
		if (!sameOut(frozen, alone))
			ctx.fail("after%s the result differs from that of a fresh converter\nwith:%s alone:%s", trail.c_str(), describeOut(frozen).c_str(),
				describeOut(alone).c_str());
		Expected x = expect(ctx, c);
		if (isStrip(c.prim))
			oraclePrims(ctx, c, x, frozen);
		else
			oracleContent(ctx, c, x, frozen);
		oracleBounds(ctx, c, x, frozen);
	};
	for (unsigned d = 0; d < depth; ++d)
	{
		unsigned op = ctx.choose(11);
		trail += " " + std::to_string(op);
		if (op == 0)
			convert();
		else if (op <= 3) // an index of the first stream out of range or back
			put(p, op - 1, p.idx[op - 1] == pGood[op - 1] ? 9 : pGood[op - 1]);
		else if (op <= 6)
			put(q, op - 4, q.idx[op - 4] == qGood[op - 4] ? 4 : qGood[op - 4]);
		else if (op == 7) // a restart, or an index out of range for lists
			put(p, 1, p.idx[1] == pGood[1] ? 0xFFFFU : pGood[1]), put(q, 1, p.idx[1] == pGood[1] ? qGood[1] : 0xFFFFFFFFU);
		else if (op == 8)
			put(p, 0, p.idx[0] == 0 ? pGood[0] : 0);
		else // other values
		{
			InStream& st = op == 9 ? p : q;
			for (unsigned v = 0; v < 4; ++v)
				fill(st, v, d*40 + v*11 + op);
		}
	}
	if (!converted)
	{
		for (unsigned i = 0; i < 3; ++i)
			put(p, i, pGood[i]), put(q, i, qGood[i]);
		trail += " repair";
		convert();
	}
	// The output is the converter's own.
	for (InStream* st : {&p, &q})
		for (unsigned v = 0; v < 4; ++v)
			fill(*st, v, 200 + v);
	Out now;
	now.ok = true;
	snapshot(*cv, now);
	if (!sameOut(now, frozen))
		ctx.fail("the output changed with the input after%s\nbefore:%s after:%s", trail.c_str(), describeOut(frozen).c_str(), describeOut(now).c_str());
	ctx.trace();
	ctx.state(hashOut(now));
	ctx.note("calls:%s;%s", trail.c_str(), describeOut(now).c_str());
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		std::vector<int> all = {0, 1, 4, OpConvert, 2, 3, 5, 6, 7, 8, 9, 10, OpTransform, OpTransformPos, OpUnknownTransform, OpMoveConstruct,
			OpMoveAssignFresh, OpMoveAssignUsed, OpMoveAssignInvalid, OpMoveSwap};
		unsigned d = thorough ? 5 : 3;
		s.push_back({"histories", [all, d](mc::Ctx& c) { history(c, 5, d, all); }, 3, false, 40,
			"every history of " + std::to_string(d) + " calls from 20 (11 addVertexStream variants, transforms, convert, 5 ways of moving), 5 configurations"});
		std::vector<std::vector<int>> mid = {{0, 1, 4}, {0, 1, 4, OpConvert}, {3, 2, 1, 0, OpTransform}, {3, 2, OpMoveAssignUsed, 1, 0, OpTransformPos, OpConvert},
			{0, 1, 2, 5}, {0, 1, 2, 5, OpConvert}, {7, 0}};
		unsigned dm = thorough ? 4 : 3;
		s.push_back({"mid", [all, dm, mid](mc::Ctx& c) { history(c, 5, dm, all, mid); }, 3, false, 40,
			"every history of " + std::to_string(dm) + " further calls from 20 after 7 histories that filled, converted or failed to convert the converter"});
		// Deeper over the calls that make progress, with moves in between.
		std::vector<int> deep = {0, 1, 4, OpConvert, OpTransform, 8, OpMoveConstruct, OpMoveAssignUsed};
		unsigned dd = thorough ? 7 : 4;
		s.push_back({"deep", [deep, dd](mc::Ctx& c) { history(c, 5, dd, deep); }, 4, false, 40,
			"every history of " + std::to_string(dd) + " calls from 8, 5 configurations"});
		std::vector<int> grow = {0, 1, 2, 3, OpConvert, OpMoveConstruct};
		unsigned dg = thorough ? 8 : 5;
		s.push_back({"grow", [grow, dg](mc::Ctx& c) { history(c, 5, dg, grow); }, 4, false, 40,
			"every history of " + std::to_string(dg) + " calls from 6, reaching four streams and conversion, 5 configurations"});
		unsigned dr = thorough ? 5 : 4;
		s.push_back({"repaired", [dr](mc::Ctx& c) { repaired(c, dr); }, 3, false, 40,
			"every history of " + std::to_string(dr) + " of 10 changes to the arrays and conversions, 4 configurations, 2 orders of streams"});
		return s;
	});
}
