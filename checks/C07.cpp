#include "spaces.h"
using namespace conv;

static const Transform kTransforms[] = {Transform::Bounds, Transform::UNormToSNorm, Transform::SNormToUNorm, Transform::Identity};

// Any history of setting transforms by name or position, before and after adding the stream.
static mc::Body histories(unsigned depth)
{
	return [depth](mc::Ctx& ctx) {
		Case c;
		c.prim = PrimitiveType::PointList;
		c.ot = ctx.flag() ? IndexType::NoIndices : IndexType::UInt16;
		c.defaultMax = true;
		unsigned layout = ctx.choose(3);
		// Three elements over one, two or three output streams.
		static const std::vector<Elem> el = {{"a", X8Y8, SNorm}, {"ab", X32Y32, Float}, {"B", ElementLayout::W2X10Y10Z10, UNorm}};
		std::vector<std::pair<unsigned, unsigned>> pos;
		for (unsigned e = 0; e < 3; ++e)
		{
			if (e == 0 || (layout == 1 && e == 1) || layout == 2)
				c.out.emplace_back();
			c.out.back().appendElement(el[e].name, el[e].layout, el[e].type);
			pos.emplace_back(c.out.size() - 1, c.out.back().size() - 1);
		}
		InStream s;
		s.fmt = format(ctx, {{"ab", X16Y16, UNorm}, {"B", X32Y32, Float}, {"a", X8Y8Z8, SNorm}});
		s.setData(4);
		for (unsigned v = 0; v < 4; ++v)
			fill(s, v, v);
		c.in.push_back(std::move(s));

		std::vector<std::string> errors;
		auto cv = makeConverter(c, &errors);
		Transform model[3] = {Transform::Identity, Transform::Identity, Transform::Identity};
		auto readback = [&](const char* when) {
			for (unsigned e = 0; e < 3; ++e)
				if (cv->getElementTransform(pos[e].first, pos[e].second) != model[e] ||
					cv->getElementTransform(sameBuffer(el[e].name)) != model[e] || cv->getElementTransform(std::string(el[e].name)) != model[e])
				{
					ctx.fail("%s: the transform of '%s' isn't %d", when, el[e].name, static_cast<int>(model[e]));
				}
			for (const char* unknown : {"", "A", "b", "abc", "zz"})
				if (cv->getElementTransform(sameBuffer(unknown)) != Transform::Identity)
					ctx.fail("%s: an unknown element has a transform", when);
		};
		readback("initially");
		unsigned addAt = ctx.choose(depth + 1);
		for (unsigned d = 0; d <= depth; ++d)
		{
			if (d == addAt)
			{
				if (!addStream(*cv, c.in[0]))
					ctx.fail("the stream was rejected");
				readback("after adding the stream");
			}
			if (d == depth)
				break;
			unsigned k = ctx.choose(9 + 3);
			Transform t = kTransforms[ctx.choose(4)];
			if (k >= 9)
			{
				static const char* unknown[] = {"abc", "A", "b"};
				bool r = k == 10 ? cv->setElementTransform(std::string(unknown[k - 9]), t) : cv->setElementTransform(sameBuffer(unknown[k - 9]), t);
				if (r)
					ctx.fail("setting the transform of unknown element '%s' succeeded", unknown[k - 9]);
			}
			else
			{
				unsigned e = k%3;
				bool r = true;
				if (k/3 == 0)
					r = cv->setElementTransform(sameBuffer(el[e].name), t); // the same buffer for every name
				else if (k/3 == 1)
					r = cv->setElementTransform(std::string(el[e].name), t);
				else
					cv->setElementTransform(pos[e].first, pos[e].second, t);
				if (!r)
					ctx.fail("setting the transform of '%s' failed", el[e].name);
				model[e] = t;
			}
			readback("after setting a transform");
			ctx.step();
		}
		for (unsigned e = 0; e < 3; ++e)
			c.transforms.emplace_back(el[e].name, model[e]);
		Expected x = expect(ctx, c);
		Out o;
		o.valid = true;
		o.ok = cv->convert();
		if (!o.ok)
			ctx.fail("conversion failed: %s\n%s", errors.empty() ? "" : errors[0].c_str(), describe(c).c_str());
		snapshot(*cv, o);
		readback("after converting");
		if (!errors.empty())
			ctx.fail("an error was reported: %s", errors[0].c_str());
		if (ctx.verbose())
			ctx.note("%s%s", describe(c).c_str(), describeOut(o).c_str());
		ctx.state(hashOut(o) ^ (static_cast<unsigned>(model[0])*16 + static_cast<unsigned>(model[1])*4 + static_cast<unsigned>(model[2])));
		ctx.nontrivial();
		oracleContent(ctx, c, x, o);
		oracleBounds(ctx, c, x, o);
		oracleBoundsTransform(ctx, c, x, o);
	};
}

static void oracle(mc::Ctx& ctx, const Case& c, const Expected& x, const Out& o)
{
	oracleContent(ctx, c, x, o);
	oracleBounds(ctx, c, x, o);
	oracleBoundsTransform(ctx, c, x, o);
	ctx.nontrivial();
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		unsigned d = thorough ? 4 : 3;
		s.push_back({"histories", histories(d), 4, false, 40, "every history of " + std::to_string(d) + " transform settings by name, string or position, "
			"known and unknown elements, any transform, with the stream added at any point, x 3 output arrangements"});
		s.push_back({"formats", body([](mc::Ctx& c) { return genFormats(c, true); }, oracle), 2, false, 40,
			"every transform x all 70x70 pairs of input and output layout/type with boundary values in every component, beside untransformed elements"});
		std::vector<unsigned> many = thorough ? std::vector<unsigned>{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 48,
			63, 64, 65, 100, 127, 128, 129, 255, 256, 257} : std::vector<unsigned>{4, 5, 8, 9, 12, 16, 17, 32, 33, 64, 65, 129};
		s.push_back({"many", body([many](mc::Ctx& c) {
			Case k = genMany(c, many);
			if (isStrip(k.prim))
				throw mc::SkipPath();
			return k; }, oracle), 4, false, 40,
			"up to " + std::to_string(many.back()) + " elements, a stream each, in threes or together, on both sides, with 3 index forms and 4 choices of transforms"});
		std::vector<unsigned> lengths = thorough ? std::vector<unsigned>{1, 2, 3, 4, 7, 8, 9, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1025, 5000, 65537} :
			std::vector<unsigned>{1, 2, 7, 8, 15, 16, 31, 32, 33, 64, 65, 129, 257, 1025, 65537};
		s.push_back({"names", body([lengths](mc::Ctx& c) { return genNames(c, lengths, true); }, oracle), 4, false, 40,
			"two elements with names of 1 to " + std::to_string(lengths.back()) + " bytes that differ in any one byte (of long ones the first, last, middle and those around powers of two) or in length (5 replacements, with NUL), in one or two streams"});
		s.push_back({"twice", body([](mc::Ctx& c) { return genTwice(c, listPrims()); }, oracle), 4, false, 40,
			"elements output in two or three streams with different formats and transforms, every combination of shapes"});
		return s;
	});
}
