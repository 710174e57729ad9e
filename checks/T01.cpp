// Base64: encode and decode against an independently written reference.
#include "explore.h"
#include "Base64.h"
#include <memory>

static const char standard[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

// Bit by bit, unlike the code under test.
static std::string refEncode(const std::uint8_t* p, std::size_t n)
{
	std::string s;
	for (std::size_t bit = 0; bit < n*8; bit += 6)
	{
		unsigned v = 0;
		for (std::size_t b = bit; b < bit + 6; ++b)
			v = v << 1 | (b < n*8 ? p[b/8] >> (7 - b%8) & 1u : 0u);
		s += standard[v];
	}
	while (s.size()%4)
		s += '=';
	return s;
}

static bool refDecode(std::vector<std::uint8_t>& out, const std::string& s)
{
	if (s.size()%4)
		return false;
	std::size_t n = s.size();
	unsigned pads = 0;
	while (n > 0 && pads < 2 && s[n - 1] == '=')
	{
		--n;
		++pads;
	}
	unsigned acc = 0, bits = 0;
	for (std::size_t i = 0; i < n; ++i)
	{
		const char* at = static_cast<const char*>(memchr(standard, static_cast<unsigned char>(s[i]), 64));
		if (!at)
			return false;
		acc = (acc << 6 | static_cast<unsigned>(at - standard)) & 0xFFFF;
		bits += 6;
		if (bits >= 8)
		{
			bits -= 8;
			out.push_back(static_cast<std::uint8_t>(acc >> bits));
		}
	}
	return true;
}

static std::string shown(const std::string& s)
{
	return "\"" + mc::jsonEscape(s) + "\"";
}

static void decodeOne(mc::Ctx& ctx, const std::string& s, std::uint64_t* accepted = nullptr)
{
	// A block of exactly the string and its terminator: reading past it is an AddressSanitizer error.
	std::unique_ptr<char[]> block(new char[s.size() + 1]);
	memcpy(block.get(), s.c_str(), s.size() + 1);
	std::vector<std::uint8_t> want{0xAB, 0xCD}, got{0xAB, 0xCD};
	bool ok = base64::decode(got, block.get()), wantOk = refDecode(want, s);
	if (ok != wantOk)
		ctx.fail("%s is %s", shown(s).c_str(), ok ? "accepted" : "rejected");
	if (ok && got != want)
		ctx.fail("%s decodes to %zu bytes that differ from the %zu encoded ones", shown(s).c_str(), got.size() - 2, want.size() - 2);
	if (got.size() < 2 || got[0] != 0xAB || got[1] != 0xCD)
		ctx.fail("decoding %s changes the data already there", shown(s).c_str());
	if (ok && accepted)
		++*accepted;
	ctx.step();
}

static void roundOne(mc::Ctx& ctx, const std::uint8_t* data, std::size_t n)
{
	std::unique_ptr<std::uint8_t[]> block(new std::uint8_t[n ? n : 1]);
	if (n)
		memcpy(block.get(), data, n);
	std::string want = refEncode(data, n), got = base64::encode(block.get(), n);
	if (got != want)
		ctx.fail("%zu bytes starting 0x%02x encode to %s instead of %s", n, n ? data[0] : 0, shown(got).c_str(), shown(want).c_str());
	std::vector<std::uint8_t> back;
	if (!base64::decode(back, got.c_str()) || back != std::vector<std::uint8_t>(data, data + n))
		ctx.fail("%s doesn't decode to the encoded bytes", shown(got).c_str());
	ctx.step(2);
}

static void bytes(mc::Ctx& ctx) // all byte strings up to three bytes
{
	std::uint8_t d[3];
	d[0] = static_cast<std::uint8_t>(ctx.choose(256));
	d[1] = static_cast<std::uint8_t>(ctx.choose(256));
	if (d[0] == 0 && d[1] == 0)
		roundOne(ctx, d, 0);
	if (d[1] == 0)
		roundOne(ctx, d, 1);
	roundOne(ctx, d, 2);
	for (unsigned i = 0; i < 256; ++i)
	{
		d[2] = static_cast<std::uint8_t>(i);
		roundOne(ctx, d, 3);
	}
	ctx.state(mc::hashBytes(d, 2));
	ctx.nontrivial();
	ctx.trace();
	ctx.note("0x%02x 0x%02x and every third byte", d[0], d[1]);
}

static void longer(mc::Ctx& ctx) // position and length dependence
{
	static const std::uint8_t alphabet[] = {0x00, 0xFF, 0x80, 0x01, 0x5A};
	unsigned letters = ctx.thorough() ? 5 : 3;
	std::size_t n = 4 + ctx.choose(ctx.thorough() ? 6 : 5);
	std::uint8_t d[16];
	for (std::size_t i = 0; i < n; ++i)
		d[i] = alphabet[ctx.choose(letters)];
	roundOne(ctx, d, n);
	ctx.state(mc::hashBytes(d, n, 2));
	ctx.nontrivial();
	ctx.trace();
	ctx.note("%zu bytes", n);
}

static void lengths(mc::Ctx& ctx) // large sizes around powers of two
{
	unsigned power = ctx.range(4, ctx.thorough() ? 24 : 22);
	std::size_t n = (static_cast<std::size_t>(1) << power) - 4 + ctx.choose(9);
	unsigned fill = power > 19 && !ctx.thorough() ? 1 : ctx.choose(3);
	std::vector<std::uint8_t> d(n);
	for (std::size_t i = 0; i < n; ++i)
		d[i] = static_cast<std::uint8_t>(fill == 0 ? i : fill == 1 ? i*167 + (i >> 8) : 0xFF);
	roundOne(ctx, d.data(), n);
	std::string s = refEncode(d.data(), n), t = s;
	decodeOne(ctx, s.substr(0, s.size() - 1));
	decodeOne(ctx, s + "A");
	decodeOne(ctx, s + "AAAA");
	t[t.size()/2] = '=';
	decodeOne(ctx, t);
	ctx.state(mc::mix(n*4 + fill));
	ctx.nontrivial();
	ctx.trace();
}

static void group(mc::Ctx& ctx) // every character in every position of the first or second group
{
	static const char others[] = "A9+/=z!";
	unsigned groups = ctx.range(1, 2), at = ctx.choose(4*groups);
	std::string s(4*groups, 'A');
	// The other positions of the group that holds the character, over representatives.
	for (unsigned i = at/4*4; i < at/4*4 + 4; ++i)
		if (i != at)
			s[i] = others[ctx.choose(7)];
	if (groups == 2)
		for (unsigned i = 1 - at/4; i < 2 - at/4; ++i)
		{
			static const char* fixed[] = {"AAAA", "zz9=", "+/==", "A=AA"};
			s.replace(i*4, 4, fixed[ctx.choose(4)]);
		}
	std::uint64_t accepted = 0;
	for (unsigned c = 1; c < 256; ++c)
	{
		s[at] = static_cast<char>(c);
		decodeOne(ctx, s, &accepted);
	}
	if (accepted)
		ctx.nontrivial();
	ctx.state(mc::hashBytes(s.data(), s.size(), at));
	ctx.trace();
	ctx.note("%s with every character at %u: %llu accepted", shown(s).c_str(), at, static_cast<unsigned long long>(accepted));
}

static void strings(mc::Ctx& ctx) // all strings over the character classes
{
	static const char alphabet[] = {'A', '=', '!', '/', 'z', '5'};
	unsigned n = ctx.choose(ctx.thorough() ? 10 : 9);
	unsigned letters = n <= 6 ? 6 : n <= 8 ? 5 : 4;
	std::string s;
	for (unsigned i = 0; i < n; ++i)
		s += alphabet[ctx.choose(letters)];
	std::uint64_t accepted = 0;
	decodeOne(ctx, s, &accepted);
	if (accepted)
	{
		ctx.nontrivial();
		ctx.cover("accepted");
	}
	else
		ctx.cover("rejected");
	ctx.state(mc::hashBytes(s.data(), s.size(), 9));
	ctx.trace();
	ctx.note("%s", shown(s).c_str());
}

static void null(mc::Ctx& ctx)
{
	std::vector<std::uint8_t> out;
	if (base64::decode(out, nullptr))
		ctx.fail("a null string decodes");
	if (!base64::encode(nullptr, 0).empty())
		ctx.fail("no data encodes to something");
	ctx.state(1);
	ctx.nontrivial();
	ctx.trace();
	ctx.step();
}

int main(int argc, char** argv)
{
	return mc::explorerMain(argc, argv, [](bool thorough) {
		std::vector<mc::Space> s;
		s.push_back({"bytes", bytes, 2, false, 60, "all byte strings up to 3 bytes, encoded and decoded back"});
		s.push_back({"longer", longer, 4, false, 60, thorough ? "all strings of 4 to 9 bytes over 5 byte values" : "all strings of 4 to 8 bytes over 3 byte values"});
		s.push_back({"lengths", lengths, 2, false, 60, std::string("9 lengths around each power of two up to ") + (thorough ? "2^24" : "2^22") + ", 3 fills, and truncated, extended and corrupted encodings"});
		s.push_back({"group", group, 4, false, 60, "every character at every position of one and two groups, the rest of the group over 7 representatives and the other group over 4"});
		s.push_back({"strings", strings, 4, false, 60, std::string("all strings up to ") + (thorough ? "9" : "8") + " characters over 6 (up to 6), 5 (up to 8) and 4 (9) character classes"});
		s.push_back({"null", null, 1, true, 60, "null arguments"});
		return s;
	});
}
