// Model of which Converter calls must succeed, from the documented requirements.
#pragma once
#include "spaces.h"

namespace conv
{

inline bool constructionValid(const std::vector<VertexFormat>& out, IndexType ot, PrimitiveType prim, unsigned patch, std::uint32_t maxIndex)
{
	if (out.empty())
		return false;
	for (auto& f : out)
		if (f.begin() == f.end())
			return false;
	if (prim == PrimitiveType::Invalid)
		return false;
	if (prim == PrimitiveType::PatchList && patch == 0)
		return false;
	if (ot == IndexType::NoIndices)
		return true;
	return static_cast<std::uint64_t>(maxIndex) + 1 >= minIndexCount(prim, patch) && maxIndex <= restartValue(ot);
}

// One addVertexStream() call. The arrays stay alive in the InStream.
struct AddCall
{
	InStream s;
	bool nullData = false, nullIndices = false;
};

enum Verdict { Fails, Succeeds, Either };

// The converter's state as far as the requirements are concerned.
struct CallModel
{
	const Case* c;
	bool valid = true, converted = false;
	bool haveCount = false, countUncertain = false;
	std::uint32_t count = 0;
	std::set<std::string> supplied;
	std::vector<const InStream*> streams; // successfully added

	bool inOutput(const std::string& name) const
	{
		for (auto& f : c->out)
			for (auto& e : f)
				if (e.name == name)
					return true;
		return false;
	}
	Verdict add(const AddCall& a) const
	{
		bool indexed = a.s.it != IndexType::NoIndices;
		if (!valid || a.nullData || (indexed && a.nullIndices))
			return Fails;
		if (haveCount && a.s.positions() != count)
			return countUncertain ? Either : Fails;
		if (!countValid(c->prim, a.s.positions(), c->patch))
			return Fails;
		for (auto& e : a.s.fmt)
			if (supplied.count(e.name))
				return Fails;
		return Succeeds;
	}
	void added(const InStream& s)
	{
		bool rel = relevant(*c, s);
		// A count from streams that supply nothing isn't specified to bind later streams when it's 0.
		if (!haveCount || countUncertain)
		{
			count = s.positions();
			countUncertain = !rel && count == 0;
			haveCount = true;
		}
		if (!rel)
			return;
		countUncertain = false;
		for (auto& e : s.fmt)
			if (inOutput(e.name))
				supplied.insert(e.name);
		streams.push_back(&s);
	}
	Verdict convert() const
	{
		if (!valid || converted)
			return Fails;
		for (auto& f : c->out)
			for (auto& e : f)
				if (!supplied.count(e.name))
					return Fails;
		for (const InStream* s : streams)
			for (std::uint32_t i = 0; i < s->positions(); ++i)
			{
				std::uint32_t v = s->it == IndexType::NoIndices ? i : s->idx[i];
				if (isStrip(c->prim) && s->it != IndexType::NoIndices && v == restartValue(s->it))
				{
					if (c->ot == IndexType::NoIndices)
						return Fails;
					continue;
				}
				if (v >= s->count)
					return Fails;
			}
		return Succeeds;
	}
};

inline bool callAdd(Converter& cv, const AddCall& a)
{
	const InStream& s = a.s;
	if (s.it == IndexType::NoIndices)
		return cv.addVertexStream(s.fmt, a.nullData ? nullptr : s.dataPtr(), s.count);
	return cv.addVertexStream(s.fmt, a.nullData ? nullptr : s.dataPtr(), s.count, s.it,
		a.nullIndices ? nullptr : s.idxPtr(), static_cast<std::uint32_t>(s.idx.size()));
}

// Every failure reports something through the error function, success nothing.
inline void checkErrors(mc::Ctx& ctx, const char* call, bool ok, const std::vector<std::string>& errors, const std::string& where)
{
	if (ok && !errors.empty())
		ctx.fail("%s succeeded but reported '%s'\n%s", call, errors[0].c_str(), where.c_str());
	if (!ok && errors.empty())
		ctx.fail("%s failed without reporting an error\n%s", call, where.c_str());
	if (!ok)
		for (auto& e : errors)
			if (e.empty())
				ctx.fail("%s reported an empty error\n%s", call, where.c_str());
}

} // namespace conv
