// The documented configuration schema, evaluated on a JSON tree of our own.
#pragma once
#include "json.h"
#include "vfcref.h"
#include <VFC/Converter.h>
#include <set>

namespace cfg
{
using vfc::ElementLayout;
using vfc::ElementType;
using vfc::IndexType;
using vfc::PrimitiveType;
using Transform = vfc::Converter::Transform;

struct Element
{
	std::string name;
	ElementLayout layout;
	ElementType type;
	bool operator==(const Element& o) const { return name == o.name && layout == o.layout && type == o.type; }
};
using Format = std::vector<Element>;

struct Stream
{
	Format format;
	IndexType type = IndexType::NoIndices;
	std::string vertexData, indexData;
};

struct Config
{
	std::vector<Format> formats;
	IndexType type = IndexType::NoIndices;
	PrimitiveType primitive = PrimitiveType::TriangleList;
	std::uint32_t patch = 0;
	std::vector<Stream> streams;
	std::vector<std::pair<std::string, Transform>> transforms;
};

struct Reject { const char* why; };

inline bool same(const std::string& a, const char* b)
{
	std::size_t n = strlen(b);
	if (a.size() != n)
		return false;
	auto low = [](char c) { return c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c; };
	for (std::size_t i = 0; i < n; ++i)
		if (low(a[i]) != low(b[i]))
			return false;
	return true;
}

class Reader
{
public:
	bool either = false; // what's documented doesn't settle it
	Config c;

	void root(const js::Value& v)
	{
		need(v.is(js::Kind::Object), "the root isn't an object");
		const js::Value& f = required(v, "vertexFormat");
		need(f.is(js::Kind::Array) && !f.items.empty(), "vertexFormat isn't a non-empty array");
		std::set<std::string> names;
		for (auto& i : f.items)
			c.formats.push_back(format(i, names));
		c.type = indexType(v);
		if (const js::Value* p = present(v, "primitiveType"))
		{
			need(p->is(js::Kind::String), "primitiveType isn't a string");
			unsigned i = 0, n = static_cast<unsigned>(ref::primNames().size());
			while (i < n && !same(p->text, ref::primNames()[i]))
				++i;
			need(i < n, "unknown primitiveType");
			c.primitive = static_cast<PrimitiveType>(i);
		}
		const js::Value* patch = v.find("patchPoints");
		if (c.primitive == PrimitiveType::PatchList)
		{
			need(patch && patch->is(js::Kind::Number), "patchPoints isn't a number");
			double d = patch->number();
			need(d > 0 && d < 4294967296.0 && d == static_cast<double>(static_cast<std::uint32_t>(d)), "patchPoints isn't a positive integer");
			c.patch = static_cast<std::uint32_t>(d);
			if (!patch->isInteger() || d > 2147483647.0)
				either = true;
		}
		else if (patch && !patch->isInteger())
			either = true;
		const js::Value& s = required(v, "vertexStreams");
		need(s.is(js::Kind::Array) && !s.items.empty(), "vertexStreams isn't a non-empty array");
		for (auto& i : s.items)
		{
			need(i.is(js::Kind::Object), "a vertex stream isn't an object");
			Stream out;
			std::set<std::string> own;
			out.format = format(required(i, "vertexFormat"), own);
			out.vertexData = string(i, "vertexData");
			out.type = indexType(i);
			if (out.type != IndexType::NoIndices)
				out.indexData = string(i, "indexData");
			else if (i.find("indexData") && !i.find("indexData")->is(js::Kind::String))
				either = true;
			c.streams.push_back(out);
		}
		if (const js::Value* t = v.find("vertexTransforms"))
		{
			if (t->is(js::Kind::Null))
			{
				either = true;
				return;
			}
			need(t->is(js::Kind::Array), "vertexTransforms isn't an array");
			for (auto& i : t->items)
			{
				need(i.is(js::Kind::Object), "a transform isn't an object");
				std::string n = string(i, "name"), x = string(i, "transform");
				static const std::pair<const char*, Transform> known[] = {{"identity", Transform::Identity}, {"bounds", Transform::Bounds},
					{"unormtosnorm", Transform::UNormToSNorm}, {"snormtounorm", Transform::SNormToUNorm}};
				bool found = false;
				for (auto& k : known)
					if (same(x, k.first))
					{
						c.transforms.emplace_back(n, k.second);
						found = true;
					}
				need(found, "unknown transform");
			}
		}
	}

private:
	static void need(bool b, const char* why)
	{
		if (!b)
			throw Reject{why};
	}
	static const js::Value& required(const js::Value& o, const char* name)
	{
		const js::Value* v = o.find(name);
		need(v != nullptr, "a member is missing");
		return *v;
	}
	static const js::Value* present(const js::Value& o, const char* name) // null counts as absent
	{
		const js::Value* v = o.find(name);
		return v && !v->is(js::Kind::Null) ? v : nullptr;
	}
	static std::string string(const js::Value& o, const char* name)
	{
		const js::Value& v = required(o, name);
		need(v.is(js::Kind::String), "a member isn't a string");
		return v.text;
	}
	static IndexType indexType(const js::Value& o)
	{
		const js::Value* v = present(o, "indexType");
		if (!v)
			return IndexType::NoIndices;
		need(v->is(js::Kind::String), "indexType isn't a string");
		if (same(v->text, "uint16"))
			return IndexType::UInt16;
		need(same(v->text, "uint32"), "unknown indexType");
		return IndexType::UInt32;
	}
	static Format format(const js::Value& v, std::set<std::string>& names)
	{
		need(v.is(js::Kind::Array) && !v.items.empty(), "a vertex format isn't a non-empty array");
		Format f;
		for (auto& i : v.items)
		{
			need(i.is(js::Kind::Object), "an element isn't an object");
			Element e;
			e.name = string(i, "name");
			std::string l = string(i, "layout"), t = string(i, "type");
			unsigned k = 0, n = static_cast<unsigned>(ref::layouts().size());
			while (k < n && !same(l, ref::layouts()[k].xyzw) && !same(l, ref::layouts()[k].rgba))
				++k;
			need(k < n, "unknown layout");
			e.layout = static_cast<ElementLayout>(k);
			n = static_cast<unsigned>(ref::typeNames().size());
			k = 0;
			while (k < n && !same(t, ref::typeNames()[k]))
				++k;
			need(k < n, "unknown type");
			e.type = static_cast<ElementType>(k);
			need(ref::valid(e.layout, e.type), "layout and type don't match");
			need(names.insert(e.name).second, "repeated name");
			f.push_back(e);
		}
		return f;
	}
};

enum class Verdict { Accept, Reject, Either };

inline Verdict evaluate(const js::Value& v, Config& out, const char** why = nullptr)
{
	Reader r;
	try
	{
		r.root(v);
	}
	catch (const Reject& e)
	{
		if (why)
			*why = e.why;
		return Verdict::Reject;
	}
	out = r.c;
	return r.either ? Verdict::Either : Verdict::Accept;
}

} // namespace cfg
