// Where the diagnostics of texts that aren't JSON point: against a recogniser that reads one character at a time.
#include "explore.h"
#include "json.h"
#include "ConfigFile.h"
#include <fstream>
#include <sstream>

// JSON, a character at a time: the first one that can't continue the text, and where its token starts.
class Recogniser
{
public:
	// The offset of the first character after which no JSON document can follow; npos if there's none.
	static constexpr std::size_t npos = std::string::npos;
	struct Result { bool json; std::size_t bad, token; };

	static Result read(const std::string& s)
	{
		Recogniser r;
		for (std::size_t i = 0; i < s.size(); ++i)
			if (!r.feed(s[i], i))
				return Result{false, i, std::min(r.m_token, i)};
		if (r.finish())
			return Result{true, npos, npos};
		return Result{false, s.size(), std::min(r.m_token, s.size())};
	}

private:
	enum State { Value, ValueOrEnd, Key, KeyOrEnd, Colon, Next, Text, Escape, Hex, Word, Minus, Zero, Digits, Point, Fraction, Exponent, Sign, Power };
	std::string m_stack;
	State m_state = Value;
	std::size_t m_token = 0;
	bool m_key = false;
	unsigned m_left = 0;
	const char* m_word = "";

	static bool digit(char c) { return c >= '0' && c <= '9'; }
	bool finish() const
	{
		bool number = m_state == Zero || m_state == Digits || m_state == Fraction || m_state == Power;
		return m_stack.empty() && (m_state == Next || number);
	}
	bool close(char c)
	{
		if (m_stack.empty() || m_stack.back() != (c == ']' ? '[' : '{'))
			return false;
		m_stack.pop_back();
		m_state = Next;
		return true;
	}
	bool begin(char c)
	{
		switch (c)
		{
			case '{': m_stack += '{'; m_state = KeyOrEnd; return true;
			case '[': m_stack += '['; m_state = ValueOrEnd; return true;
			case '"': m_key = false; m_state = Text; return true;
			case 't': m_word = "rue"; m_state = Word; return true;
			case 'f': m_word = "alse"; m_state = Word; return true;
			case 'n': m_word = "ull"; m_state = Word; return true;
			case '-': m_state = Minus; return true;
			case '0': m_state = Zero; return true;
			default: m_state = Digits; return digit(c);
		}
	}
	bool feed(char c, std::size_t at)
	{
		bool space = c == ' ' || c == '\t' || c == '\n' || c == '\r';
		switch (m_state)
		{
			case Minus: m_state = c == '0' ? Zero : Digits; return digit(c);
			case Zero:
				if (c == '.') { m_state = Point; return true; }
				if (c == 'e' || c == 'E') { m_state = Exponent; return true; }
				break;
			case Digits:
				if (digit(c)) return true;
				if (c == '.') { m_state = Point; return true; }
				if (c == 'e' || c == 'E') { m_state = Exponent; return true; }
				break;
			case Point: m_state = Fraction; return digit(c);
			case Fraction:
				if (digit(c)) return true;
				if (c == 'e' || c == 'E') { m_state = Exponent; return true; }
				break;
			case Exponent: m_state = c == '+' || c == '-' ? Sign : Power; return m_state == Sign || digit(c);
			case Sign: m_state = Power; return digit(c);
			case Power:
				if (digit(c)) return true;
				break;
			case Word:
				if (*m_word != c) return false;
				if (!*++m_word) m_state = Next;
				return true;
			case Text:
				if (c == '"') { m_state = m_key ? Colon : Next; return true; }
				if (c == '\\') m_state = Escape;
				return static_cast<unsigned char>(c) >= 0x20;
			case Escape:
				if (c == 'u') { m_state = Hex; m_left = 4; return true; }
				m_state = Text;
				return c && strchr("\"\\/bfnrt", c);
			case Hex:
				if (--m_left == 0) m_state = Text;
				return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
			default: break;
		}
		if (m_state == Zero || m_state == Digits || m_state == Fraction || m_state == Power)
			m_state = Next; // the number has ended
		m_token = at;
		if (space)
		{
			m_token = at + 1;
			return true;
		}
		switch (m_state)
		{
			case Value: return begin(c);
			case ValueOrEnd: return c == ']' ? close(c) : begin(c);
			case KeyOrEnd:
				if (c == '}') return close(c);
				// fallthrough
			case Key: m_key = true; m_state = Text; return c == '"';
			case Colon: m_state = Value; return c == ':';
			default: // Next
				if (c == ',' && !m_stack.empty())
				{
					m_state = m_stack.back() == '[' ? Value : Key;
					return true;
				}
				return (c == ']' || c == '}') && close(c);
		}
	}
};

static const std::vector<std::string>& bases()
{
	static const std::vector<std::string> b = {
		"{\n\t\"vertexFormat\": [\n\t\t[{\"name\": \"a\", \"layout\": \"X8\", \"type\": \"UInt\"}]\n\t],\n\t\"patchPoints\": -12.5e+3,\n\n\n\t\"vertexStreams\": [\n\t\t{\n"
		"\t\t\t\"vertexFormat\": [{\"name\": \"\\u0061\", \"layout\": \"X8\", \"type\": \"UInt\"}],\n\t\t\t\"vertexData\": \"d\", \"x\": [true, false,\nnull, 0, -1.5, [], {}, \"\\n\"]\n\t\t}\n\t]\n}\n",
		"{\"vertexFormat\":[[{\"name\":\"a\",\"layout\":\"X8\",\"type\":\"UInt\"}]],\"vertexStreams\":[{\"vertexFormat\":[{\"name\":\"a\",\"layout\":\"X8\",\"type\":\"UInt\"}],\"vertexData\":\"d\"}]}",
		"{\r\n  \"vertexStreams\" :\r\n  [ ] ,\r\n\r\n  \"vertexFormat\" : [\r\n    [ ]\r\n  ]\r\n}\r\n",
		"\n\n [\n1,\n2\n]\n\n",
		"{\"\xC3\xA9t\xC3\xA9\": \"\xE6\x97\xA5\xE6\x9C\xAC\", \"n\":\n[\"\xF0\x9F\x98\x80\", \"\xC2\x80\xDF\xBF\", 1]}\n"};
	return b;
}

static std::string place(const std::string& text, std::size_t offset)
{
	unsigned line = 1, column = 1;
	for (std::size_t i = 0; i < offset; ++i)
	{
		++column;
		if (text[i] == '\n')
		{
			++line;
			column = 1;
		}
	}
	return std::to_string(line) + ":" + std::to_string(column);
}

enum class Via { Text, Stream, File };

static void load(mc::Ctx& ctx, const std::string& text, const std::string& given, Via via)
{
	ConfigFile file;
	std::vector<std::string> messages;
	vfc::Converter::ErrorFunction onError = [&](const char* m) { messages.push_back(m); };
	std::string name = given;
	bool ok;
	if (via == Via::Text)
		ok = file.load(text.c_str(), name.c_str(), onError);
	else if (via == Via::Stream)
	{
		std::istringstream stream(text);
		ok = file.load(stream, name.c_str(), onError);
	}
	else
	{
		name = mc::args().scratch + "/config." + std::to_string(getpid());
		std::ofstream(name, std::ios::binary) << text;
		ok = file.load(name.c_str(), onError);
		unlink(name.c_str());
	}
	Recogniser::Result want = Recogniser::read(text);
	ctx.step(text.size());
	std::string shown = text.size() > 1500 ? text.substr(0, 1500) + "..." : text;
	ctx.state(mc::hashBytes(text.data(), text.size()));
	ctx.trace();
	if (want.json)
	{
		ctx.cover(ok ? "JSON, accepted" : "JSON, rejected by the schema");
		return;
	}
	ctx.nontrivial();
	if (ok || messages.empty())
		ctx.fail("%s\n%s", ok ? "accepted" : "rejected without a diagnostic", shown.c_str());
	ctx.note("%s\n-> %s", shown.c_str(), messages[0].c_str());
	std::string best;
	for (auto& m : messages)
	{
		if (m.compare(0, name.size() + 1, name + ":") != 0)
			continue;
		// From the start of the token that can't be completed up to the character that can't be part of it.
		for (std::size_t at = want.token; at <= want.bad + 1 && at <= text.size(); ++at)
		{
			std::string p = name + ":" + place(text, at) + ":";
			if (m.compare(0, p.size(), p) == 0 && m.size() > p.size() + 1)
			{
				ctx.cover(want.bad == text.size() ? "incomplete" : "can't be continued");
				return;
			}
		}
	}
	ctx.fail("the text stops being JSON at %s (offset %zu, token at %zu), the diagnostic says\n%s\n%s", place(text, want.bad).c_str(), want.bad, want.token, messages[0].c_str(),
		shown.c_str());
}

static const char* const names[] = {"some/config.json", "c", "a:1:2: name", "%s%n"};

static void truncated(mc::Ctx& ctx)
{
	std::string text = ctx.pick(bases());
	std::size_t n = ctx.choose(static_cast<unsigned>(text.size() + 1));
	static const char* tails[] = {"", "\n", " \n\n ", "}", "]", "\"", ",", "\r\n", "x\n\n", "\\\n"};
	load(ctx, text.substr(0, n) + tails[ctx.choose(10)], names[ctx.choose(4)], static_cast<Via>(ctx.choose(3)));
}

// Names of any length come before the place.
static void longNames(mc::Ctx& ctx)
{
	static const unsigned more[] = {80, 100, 126, 127, 128, 129, 199, 200, 239, 240, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 300, 400, 500,
		510, 511, 512, 513, 1000, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4000, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 1000000};
	unsigned c = ctx.choose(70 + sizeof(more)/sizeof(*more)), n = c < 70 ? c + 1 : more[c - 70];
	std::string name;
	unsigned part = ctx.flag() ? 100 : ~0u;
	for (unsigned i = 0; i < n; ++i)
		name += i%part == part - 1 ? '/' : static_cast<char>('a' + i%26);
	static const char* texts[] = {"{\n\t\"a\" 1\n}\n", "", "{\"a\": 1", "\n\n\n          ]"};
	std::string text = texts[ctx.choose(4)];
	load(ctx, text, name, static_cast<Via>(ctx.choose(2)));
}

static void edited(mc::Ctx& ctx)
{
	std::string alphabet("{}[]:,\"\\/ \n\t\r0-+.eEntfu'#x\x01\x7F");
	if (ctx.thorough())
		for (int c = 0x21; c < 0x7f; ++c)
			alphabet += static_cast<char>(c);
	std::string text = ctx.pick(bases());
	std::size_t at = ctx.choose(static_cast<unsigned>(text.size() + 1));
	unsigned what = ctx.choose(static_cast<unsigned>(2*alphabet.size() + 2));
	if (what < alphabet.size())
		text.insert(at, 1, alphabet[what]);
	else if (at >= text.size())
		return;
	else if (what < 2*alphabet.size())
		text[at] = alphabet[what - alphabet.size()];
	else if (what == 2*alphabet.size())
		text.erase(at, 1);
	else if (at + 1 < text.size())
		std::swap(text[at], text[at + 1]);
	if (text.find("\\ud") != text.npos || text.find("\\uD") != text.npos)
		return; // surrogates
	load(ctx, text, names[0], static_cast<Via>(ctx.choose(2)));
}

// Errors far into the text: a lot of lines, or long ones.
static void far(mc::Ctx& ctx)
{
	static const unsigned counts[] = {0, 1, 2, 9, 10, 99, 127, 128, 254, 255, 256, 999, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 100000, 1000003};
	unsigned n = counts[ctx.choose(ctx.thorough() ? 21 : 20)];
	static const char* units[] = {"\n", " ", "\t", "\r\n", "\r", " \n", "\"\xC3\xA9\","};
	unsigned u = ctx.choose(7);
	std::string unit = units[u], pad;
	for (unsigned i = 0; i < n; ++i)
		pad += unit;
	static const char* broken[] = {"", "?", "[1,\n 2,,]", "{\"a\"\n1}", "nul", "[1] x", "\"abc", "\"a\\qc\"", "[1.\n]", "01", "-"};
	std::string text = broken[ctx.choose(11)];
	if (u == 6 || ctx.flag())
		text = "[" + pad + (text.empty() ? "," : text);
	else
		text = pad + text;
	load(ctx, text, names[ctx.choose(2)], static_cast<Via>(ctx.choose(3)));
}

// A NUL byte, which ends a text but not a stream or file.
static void nul(mc::Ctx& ctx)
{
	std::string text = ctx.pick(bases());
	std::size_t at = ctx.choose(static_cast<unsigned>(text.size() + 1));
	if (ctx.flag() && at < text.size())
		text[at] = '\0';
	else
		text.insert(at, 1, '\0');
	if (Recogniser::read(text).bad < at)
		ctx.fail("harness: a broken document");
	load(ctx, text, names[0], ctx.flag() ? Via::Stream : Via::File);
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		s.push_back({"truncated", truncated, 3, false, 60, "every prefix of 5 documents with 10 endings, as text, stream or file, 4 names"});
		s.push_back({"edited", edited, 3, false, 60, std::string("every insertion and substitution of ") + (thorough ? "every printable" : "28") + " characters, deletion and exchange in 5 documents"});
		s.push_back({"names", longNames, 2, false, 60, "names of 1 to 70 bytes and 50 lengths up to a million, with and without directories, 4 texts"});
		s.push_back({"far", far, 3, false, 60, "errors after up to 100,000 lines, spaces or tabs"});
		s.push_back({"nul", nul, 2, false, 60, "a NUL byte anywhere in 5 documents, as stream or file"});
		return s;
	});
}
