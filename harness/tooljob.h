// What the tool should do with a configuration: the documented schema, our own reading of the data, and the
// library called directly; and the comparison of a run with it.
#pragma once
#include "config.h"
#include <array>
#include "toolrun.h"
#include <climits>
#include <cmath>
#include <cstdlib>

namespace tool
{

struct Buffer { std::uint32_t count; std::int32_t base; std::string data; };

struct Outcome
{
	enum Kind { Converted, Failed, Unclear } kind = Failed;
	std::string why;
	cfg::Config config;
	std::vector<std::string> vertices;
	std::vector<std::vector<std::pair<vfc::VertexValue, vfc::VertexValue>>> bounds;
	std::uint32_t count = 0;
	std::vector<Buffer> indices;
};

inline vfc::VertexFormat toFormat(const cfg::Format& f)
{
	vfc::VertexFormat r;
	for (auto& e : f)
		r.appendElement(e.name, e.layout, e.type);
	return r;
}

inline std::uint32_t stride(const cfg::Format& f)
{
	std::uint32_t n = 0;
	for (auto& e : f)
		n += ref::info(e.layout).size;
	return n;
}

// base: the directory relative data paths are resolved against.
inline bool fetch(std::string& out, const std::string& data, const std::string& base, std::string& why)
{
	if (data.size() >= 7 && cfg::same(data.substr(0, 7), "base64:"))
	{
		why = "bad base64";
		return decode64(out, data.substr(7));
	}
	why = "unreadable file";
	return get(!data.empty() && data[0] == '/' ? data : base + "/" + data, out);
}

inline Outcome predict(const std::string& text, const std::string& base)
{
	Outcome o;
	js::Value doc;
	js::Verdict json = js::parse(doc, text);
	if (json == js::Verdict::NotJson)
	{
		o.why = "not JSON";
		return o;
	}
	const char* why = "";
	cfg::Verdict v = cfg::evaluate(doc, o.config, &why);
	o.why = why;
	if (v == cfg::Verdict::Either || json == js::Verdict::Unclear)
	{
		o.kind = Outcome::Unclear;
		return o;
	}
	if (v == cfg::Verdict::Reject)
		return o;
	const cfg::Config& c = o.config;
	std::vector<vfc::VertexFormat> formats;
	for (auto& f : c.formats)
		formats.push_back(toFormat(f));
	vfc::Converter conv(formats, c.type, c.primitive, c.patch, [&](const char* m) { o.why = m; });
	if (!conv)
		return o;
	std::vector<std::string> keep(c.streams.size()*2);
	for (std::size_t i = 0; i < c.streams.size(); ++i)
	{
		const cfg::Stream& s = c.streams[i];
		std::string &vertices = keep[i*2], &indices = keep[i*2 + 1];
		if (!fetch(vertices, s.vertexData, base, o.why))
			return o;
		std::uint32_t size = stride(s.format);
		if (vertices.size()%size != 0)
		{
			o.why = "vertex data isn't a whole number of vertices";
			return o;
		}
		std::uint32_t width = s.type == vfc::IndexType::UInt16 ? 2 : s.type == vfc::IndexType::UInt32 ? 4 : 1;
		if (s.type != vfc::IndexType::NoIndices)
		{
			if (!fetch(indices, s.indexData, base, o.why))
				return o;
			if (indices.size()%width != 0)
			{
				o.why = "index data isn't a whole number of indices";
				return o;
			}
		}
		// As the tool's vectors, which have no storage when they are empty.
		if (!conv.addVertexStream(toFormat(s.format), vertices.empty() ? nullptr : vertices.data(), static_cast<std::uint32_t>(vertices.size()/size), s.type,
				indices.empty() ? nullptr : indices.data(), static_cast<std::uint32_t>(indices.size()/width)))
			return o;
	}
	for (auto& t : c.transforms)
		if (!conv.setElementTransform(t.first, t.second))
		{
			o.why = "unknown element to transform";
			return o;
		}
	if (!conv.convert())
		return o;
	for (auto& vertices : conv.getVertices())
		o.vertices.emplace_back(vertices.begin(), vertices.end());
	for (std::size_t i = 0; i < c.formats.size(); ++i)
	{
		o.bounds.emplace_back();
		for (std::size_t j = 0; j < c.formats[i].size(); ++j)
		{
			o.bounds.back().emplace_back();
			conv.getVertexElementBounds(o.bounds.back().back().first, o.bounds.back().back().second, i, j);
		}
	}
	o.count = conv.getVertexCount();
	for (auto& i : conv.getIndices())
		o.indices.push_back(Buffer{i.count, i.baseVertex, std::string(static_cast<const char*>(i.data), i.count*(i.type == vfc::IndexType::UInt16 ? 2u : 4u))});
	o.kind = Outcome::Converted;
	return o;
}

inline std::string brief(const std::string& s) { return mc::jsonEscape(s.substr(0, 600)); }

// Compares the printed document, and the files it names, with the library's result.
class Comparer
{
public:
	Comparer(mc::Ctx& c, const Result& r, const Outcome& o, const std::string& w, const std::string& d) : ctx(c), run(r), want(o), cwd(w), dir(d) {}

	void compare() // the document and every file
	{
		js::Value doc;
		if (js::parse(doc, run.out) != js::Verdict::Json)
			bad("standard output isn't one JSON document");
		const js::Value& vertices = member(doc, "vertices", js::Kind::Array);
		if (vertices.items.size() != want.config.formats.size())
			bad("wrong number of vertex streams");
		for (std::size_t i = 0; i < vertices.items.size(); ++i)
		{
			const js::Value& f = member(vertices.items[i], "vertexFormat", js::Kind::Array);
			const cfg::Format& wf = want.config.formats[i];
			if (f.items.size() != wf.size())
				bad("wrong number of elements");
			std::uint32_t offset = 0;
			for (std::size_t j = 0; j < wf.size(); ++j)
			{
				string(f.items[j], "name", wf[j].name);
				string(f.items[j], "layout", ref::name(wf[j].layout));
				string(f.items[j], "type", ref::name(wf[j].type));
				integer(f.items[j], "offset", offset);
				offset += ref::info(wf[j].layout).size;
				bound(f.items[j], "minValue", want.bounds[i][j].first);
				bound(f.items[j], "maxValue", want.bounds[i][j].second);
			}
			integer(vertices.items[i], "vertexStride", offset);
			data(vertices.items[i], "vertexData", want.vertices[i]);
		}
		integer(doc, "vertexCount", want.count);
		if (want.config.type == vfc::IndexType::NoIndices)
		{
			if (doc.find("indexType") || doc.find("indexBuffers"))
				bad("index members without an index type");
			return;
		}
		string(doc, "indexType", want.config.type == vfc::IndexType::UInt16 ? "UInt16" : "UInt32");
		if (want.indices.empty() && !doc.find("indexBuffers"))
			return;
		const js::Value& b = member(doc, "indexBuffers", js::Kind::Array);
		if (b.items.size() != want.indices.size())
			bad("wrong number of index buffers");
		for (std::size_t i = 0; i < b.items.size(); ++i)
		{
			integer(b.items[i], "indexCount", want.indices[i].count);
			integer(b.items[i], "baseVertex", want.indices[i].base);
			data(b.items[i], "indexData", want.indices[i].data);
		}
	}

	std::set<std::string> files; // written files, normalised

private:
	mc::Ctx& ctx;
	const Result& run;
	const Outcome& want;
	std::string cwd, dir;

	[[noreturn]] void bad(const std::string& what) { ctx.fail("%s\nstdout: %s\nstderr: %s", what.c_str(), brief(run.out).c_str(), brief(run.err).c_str()); }
	const js::Value& member(const js::Value& o, const char* name, js::Kind kind)
	{
		if (!o.is(js::Kind::Object) || o.count(name) != 1 || !o.find(name)->is(kind))
			bad(std::string("member ") + name + " is missing, repeated or has the wrong type");
		return *o.find(name);
	}
	void string(const js::Value& o, const char* name, const std::string& w)
	{
		if (member(o, name, js::Kind::String).text != w)
			bad(std::string(name) + " isn't " + w);
	}
	void integer(const js::Value& o, const char* name, long long w)
	{
		const js::Value& v = member(o, name, js::Kind::Number);
		if (!v.isInteger() || v.integer() != w)
			bad(std::string(name) + " is " + v.text + " instead of " + std::to_string(w));
	}
	void bound(const js::Value& o, const char* name, const vfc::VertexValue& w)
	{
		const js::Value& v = member(o, name, js::Kind::Array);
		if (v.items.size() != 4)
			bad(std::string(name) + " doesn't have 4 values");
		for (unsigned k = 0; k < 4; ++k)
			if (std::isfinite(w[k]) ? !v.items[k].is(js::Kind::Number) || v.items[k].number() != w[k] : !v.items[k].is(js::Kind::Null))
				bad(std::string(name) + " differs from the library's");
	}
	bool within(const std::string& file) // following links
	{
		char a[PATH_MAX], b[PATH_MAX];
		auto full = [&](const std::string& p) { return p[0] == '/' ? p : cwd + "/" + p; };
		if (!realpath(full(file).c_str(), a) || !realpath(full(dir).c_str(), b))
			return false;
		return std::string(a).compare(0, strlen(b) + 1, std::string(b) + "/") == 0;
	}
	void data(const js::Value& o, const char* name, const std::string& w)
	{
		const std::string& s = member(o, name, js::Kind::String).text;
		std::string got;
		if (dir.empty())
		{
			if (s.compare(0, 7, "base64:") != 0 || !decode64(got, s.substr(7)))
				bad(std::string(name) + " isn't embedded");
			if (got != w)
				bad(std::string("embedded ") + name + " isn't the library's");
			return;
		}
		char full[8192], parent[8192];
		if (!normalise(full, sizeof(full), cwd.c_str(), s.c_str()) || !normalise(parent, sizeof(parent), cwd.c_str(), dir.c_str()))
			bad("harness: path too long");
		if (std::string(full).compare(0, strlen(parent) + 1, std::string(parent) + "/") != 0 && !within(s))
			bad(std::string(name) + " '" + s + "' isn't in the output directory");
		if (!get(s[0] == '/' ? s : cwd + "/" + s, got))
			bad(std::string(name) + " '" + s + "' doesn't lead to a file");
		if (got != w)
			bad(std::string("the file '") + s + "' isn't the library's " + name);
		if (!files.insert(full).second)
			bad("two members share the file " + s);
	}
};

// The run's exit status, streams and output against the outcome. dir: the output directory or "".
inline std::set<std::string> judge(mc::Ctx& ctx, const Result& r, const Outcome& o, const std::string& cwd, const std::string& dir)
{
	if (r.signal)
		ctx.fail("the tool %s\nstderr: %s", r.ended().c_str(), brief(r.err).c_str());
	bool ok = r.exit == 0;
	if (o.kind == Outcome::Converted && !ok)
		ctx.fail("the tool %s where the library converts\nstderr: %s", r.ended().c_str(), brief(r.err).c_str());
	if (o.kind == Outcome::Failed && ok)
		ctx.fail("the tool succeeds although it can't convert (%s)\nstdout: %s", o.why.c_str(), brief(r.out).c_str());
	if (!ok)
	{
		if (r.err.empty() || r.err.back() != '\n')
			ctx.fail("the tool %s without a line on standard error: %s", r.ended().c_str(), brief(r.err).c_str());
		if (!r.out.empty())
			ctx.fail("the tool %s but prints a result: %s", r.ended().c_str(), brief(r.out).c_str());
		return {};
	}
	if (!r.err.empty())
		ctx.fail("the tool succeeds but complains: %s", brief(r.err).c_str());
	if (o.kind != Outcome::Converted)
		return {};
	Comparer c(ctx, r, o, cwd, dir);
	c.compare();
	return c.files;
}

// Building configurations.
inline js::Value element(const std::string& name, const char* layout, const char* type)
{
	js::Value v(js::Kind::Object);
	v.members = {{"name", js::Value::string(name)}, {"layout", js::Value::string(layout)}, {"type", js::Value::string(type)}};
	return v;
}
inline js::Value array(std::vector<js::Value> items)
{
	js::Value v(js::Kind::Array);
	v.items = std::move(items);
	return v;
}
inline js::Value object(std::vector<std::pair<std::string, js::Value>> members)
{
	js::Value v(js::Kind::Object);
	v.members = std::move(members);
	return v;
}
inline js::Value text(const std::string& s) { return js::Value::string(s); }

template <typename T> std::string bytes(std::initializer_list<T> v)
{
	return std::string(reinterpret_cast<const char*>(v.begin()), v.size()*sizeof(T));
}
inline std::string indexBytes(const std::vector<std::uint32_t>& v, bool wide)
{
	std::string s;
	for (std::uint32_t i : v)
	{
		std::uint16_t n = static_cast<std::uint16_t>(i);
		if (wide)
			s.append(reinterpret_cast<const char*>(&i), 4);
		else
			s.append(reinterpret_cast<const char*>(&n), 2);
	}
	return s;
}

} // namespace tool
