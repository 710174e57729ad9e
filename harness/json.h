// A small JSON reader and writer of our own: the reference for configurations and the reader of results.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <utility>
#include <vector>

namespace js
{

enum class Kind { Null, False, True, Number, String, Array, Object };

struct Value
{
	Kind kind = Kind::Null;
	std::string text; // number as written, or string contents
	std::vector<Value> items;
	std::vector<std::pair<std::string, Value>> members;

	Value() = default;
	explicit Value(Kind k) : kind(k) {}
	static Value number(const std::string& t) { Value v(Kind::Number); v.text = t; return v; }
	static Value string(const std::string& t) { Value v(Kind::String); v.text = t; return v; }
	static Value boolean(bool b) { return Value(b ? Kind::True : Kind::False); }

	bool is(Kind k) const { return kind == k; }
	const Value* find(const char* name) const
	{
		for (auto& m : members)
			if (m.first == name)
				return &m.second;
		return nullptr;
	}
	unsigned count(const char* name) const
	{
		unsigned n = 0;
		for (auto& m : members)
			n += m.first == name;
		return n;
	}
	bool isInteger() const { return kind == Kind::Number && text.find_first_of(".eE") == std::string::npos; }
	long long integer() const { return strtoll(text.c_str(), nullptr, 10); }
	double number() const { return strtod(text.c_str(), nullptr); }
	bool operator==(const Value& o) const
	{
		return kind == o.kind && text == o.text && items == o.items && members == o.members;
	}
};

// Whether the text is JSON. Unclear: well-formed to some readers and not to others (byte order mark, unpaired
// surrogates, bytes that aren't UTF-8, numbers beyond double, NUL escapes, repeated members).
enum class Verdict { Json, Unclear, NotJson };

class Parser
{
public:
	Parser(const std::string& t) : s(t) {}
	Verdict run(Value& out)
	{
		std::size_t start = 0;
		if (s.compare(0, 3, "\xEF\xBB\xBF") == 0)
		{
			start = 3;
			unclear = true;
		}
		p = start;
		space();
		if (!value(out, 0))
			return Verdict::NotJson;
		space();
		if (p != s.size())
			return Verdict::NotJson;
		return unclear ? Verdict::Unclear : Verdict::Json;
	}

private:
	const std::string& s;
	std::size_t p = 0;
	bool unclear = false;

	char at(std::size_t i) const { return i < s.size() ? s[i] : '\0'; }
	void space()
	{
		while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\r' || s[p] == '\t'))
			++p;
	}
	bool word(const char* w)
	{
		std::size_t n = strlen(w);
		if (s.compare(p, n, w) != 0)
			return false;
		p += n;
		return true;
	}
	static bool digit(char c) { return c >= '0' && c <= '9'; }
	bool number(Value& out)
	{
		std::size_t b = p;
		if (at(p) == '-')
			++p;
		if (at(p) == '0')
			++p;
		else if (digit(at(p)))
			while (digit(at(p)))
				++p;
		else
			return false;
		if (at(p) == '.')
		{
			++p;
			if (!digit(at(p)))
				return false;
			while (digit(at(p)))
				++p;
		}
		if (at(p) == 'e' || at(p) == 'E')
		{
			++p;
			if (at(p) == '+' || at(p) == '-')
				++p;
			if (!digit(at(p)))
				return false;
			while (digit(at(p)))
				++p;
		}
		out.kind = Kind::Number;
		out.text = s.substr(b, p - b);
		double d = out.number();
		if (d - d != 0)
			unclear = true;
		return true;
	}
	static int hex(char c)
	{
		if (digit(c))
			return c - '0';
		if (c >= 'a' && c <= 'f')
			return c - 'a' + 10;
		if (c >= 'A' && c <= 'F')
			return c - 'A' + 10;
		return -1;
	}
	bool unit(unsigned& u)
	{
		u = 0;
		for (int i = 0; i < 4; ++i, ++p)
		{
			int h = hex(at(p));
			if (h < 0)
				return false;
			u = u*16 + static_cast<unsigned>(h);
		}
		return true;
	}
	static void utf8(std::string& o, unsigned c)
	{
		if (c < 0x80)
			o += static_cast<char>(c);
		else if (c < 0x800)
		{
			o += static_cast<char>(0xC0 | c >> 6);
			o += static_cast<char>(0x80 | (c & 63));
		}
		else if (c < 0x10000)
		{
			o += static_cast<char>(0xE0 | c >> 12);
			o += static_cast<char>(0x80 | (c >> 6 & 63));
			o += static_cast<char>(0x80 | (c & 63));
		}
		else
		{
			o += static_cast<char>(0xF0 | c >> 18);
			o += static_cast<char>(0x80 | (c >> 12 & 63));
			o += static_cast<char>(0x80 | (c >> 6 & 63));
			o += static_cast<char>(0x80 | (c & 63));
		}
	}
	bool string(std::string& out)
	{
		++p;
		for (;;)
		{
			if (p >= s.size())
				return false;
			unsigned char c = static_cast<unsigned char>(s[p]);
			if (c == '"')
			{
				++p;
				return true;
			}
			if (c < 0x20)
				return false;
			if (c == '\\')
			{
				++p;
				char e = at(p++);
				switch (e)
				{
					case '"': out += '"'; break;
					case '\\': out += '\\'; break;
					case '/': out += '/'; break;
					case 'b': out += '\b'; break;
					case 'f': out += '\f'; break;
					case 'n': out += '\n'; break;
					case 'r': out += '\r'; break;
					case 't': out += '\t'; break;
					case 'u':
					{
						unsigned u, low;
						if (!unit(u))
							return false;
						if (u == 0)
							unclear = true;
						if (u >= 0xD800 && u < 0xDC00)
						{
							std::size_t back = p;
							if (at(p) == '\\' && at(p + 1) == 'u')
							{
								p += 2;
								if (!unit(low))
									return false;
								if (low >= 0xDC00 && low < 0xE000)
								{
									utf8(out, 0x10000 + ((u - 0xD800) << 10) + (low - 0xDC00));
									break;
								}
							}
							p = back;
							unclear = true;
						}
						else if (u >= 0xDC00 && u < 0xE000)
							unclear = true;
						utf8(out, u);
						break;
					}
					default:
						return false;
				}
				continue;
			}
			if (c < 0x80)
			{
				out += static_cast<char>(c);
				++p;
				continue;
			}
			unsigned n = c >= 0xC2 && c < 0xE0 ? 1 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : 0;
			bool ok = n > 0;
			for (unsigned i = 1; i <= n; ++i)
				ok = ok && (static_cast<unsigned char>(at(p + i)) & 0xC0) == 0x80;
			if (ok)
			{
				unsigned char d = static_cast<unsigned char>(at(p + 1));
				ok = !(c == 0xE0 && d < 0xA0) && !(c == 0xED && d >= 0xA0) && !(c == 0xF0 && d < 0x90) && !(c == 0xF4 && d >= 0x90);
			}
			if (!ok)
			{
				unclear = true;
				n = 0;
			}
			out.append(s, p, n + 1);
			p += n + 1;
		}
	}
	bool value(Value& out, unsigned depth)
	{
		if (depth > 2000)
			return false;
		switch (at(p))
		{
			case 'n': out.kind = Kind::Null; return word("null");
			case 't': out.kind = Kind::True; return word("true");
			case 'f': out.kind = Kind::False; return word("false");
			case '"': out.kind = Kind::String; return string(out.text);
			case '[':
				out.kind = Kind::Array;
				++p;
				space();
				if (at(p) == ']')
				{
					++p;
					return true;
				}
				for (;;)
				{
					space();
					out.items.emplace_back();
					if (!value(out.items.back(), depth + 1))
						return false;
					space();
					if (at(p) == ',')
						++p;
					else if (at(p) == ']')
					{
						++p;
						return true;
					}
					else
						return false;
				}
			case '{':
				out.kind = Kind::Object;
				++p;
				space();
				if (at(p) == '}')
				{
					++p;
					return true;
				}
				for (;;)
				{
					space();
					if (at(p) != '"')
						return false;
					std::string name;
					if (!string(name))
						return false;
					space();
					if (at(p) != ':')
						return false;
					++p;
					space();
					if (out.find(name.c_str()))
						unclear = true;
					out.members.emplace_back(std::move(name), Value());
					if (!value(out.members.back().second, depth + 1))
						return false;
					space();
					if (at(p) == ',')
						++p;
					else if (at(p) == '}')
					{
						++p;
						return true;
					}
					else
						return false;
				}
			default:
				return number(out);
		}
	}
};

inline Verdict parse(Value& out, const std::string& text) { return Parser(text).run(out); }

inline void quote(std::string& o, const std::string& s, bool escapeAll = false)
{
	static const char digits[] = "0123456789abcdef";
	o += '"';
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\')
		{
			o += '\\';
			o += static_cast<char>(c);
		}
		else if (c < 32 || (escapeAll && c < 128))
		{
			o += "\\u00";
			o += digits[c >> 4];
			o += digits[c & 15];
		}
		else
			o += static_cast<char>(c);
	}
	o += '"';
}

// style 0: compact, 1: a lot of white space, 2: every character of every string escaped
inline void write(std::string& o, const Value& v, unsigned style = 0)
{
	const char* gap = style == 1 ? " \n\t\r " : "";
	o += gap;
	switch (v.kind)
	{
		case Kind::Null: o += "null"; break;
		case Kind::True: o += "true"; break;
		case Kind::False: o += "false"; break;
		case Kind::Number: o += v.text; break;
		case Kind::String: quote(o, v.text, style == 2); break;
		case Kind::Array:
			o += '[';
			for (std::size_t i = 0; i < v.items.size(); ++i)
			{
				if (i)
					o += ',';
				write(o, v.items[i], style);
			}
			o += gap;
			o += ']';
			break;
		case Kind::Object:
			o += '{';
			for (std::size_t i = 0; i < v.members.size(); ++i)
			{
				if (i)
					o += ',';
				o += gap;
				quote(o, v.members[i].first, style == 2);
				o += gap;
				o += ':';
				write(o, v.members[i].second, style);
			}
			o += gap;
			o += '}';
			break;
	}
	o += gap;
}

} // namespace js
