#include "gen.h"
#include "util.h"
#include <stdio.h>

using namespace kit;
using std::string;
using std::vector;

namespace gen {

void
init()
{
	static bool done = false;
	if (!done) {
		dcp::init(boost::filesystem::path(opt.repo));
		done = true;
	}
}

string
text(bool some)
{
	static vector<string> const pieces = {
		"a", "Z", "0", " ", "  ", "-", "_", "&", "<", ">", "\"", "'", "&amp;", "]]>", "<b>", "<!--", "%1", "%", "\\", "/", "é", "ß", "Ω", "日本", "\xf0\x9f\x8e\xac", "ñ", "\xe2\x80\x99", "e\xcc\x81", "{}", ";", "urn:uuid:"
	};
	static vector<string> const words = { "Feature", "The Film", "Reel 1", "libdcp", "Title & Co", "O'Brien", "\"quoted\"", "a<b>c", "Überraschung", "東京", "x" };
	if (!some && rng.chance(0.1)) {
		return "";
	}
	if (rng.chance(0.4)) {
		return rng.pick(words);
	}
	string s;
	auto const n = rng.range(1, 12);
	for (int i = 0; i < n; ++i) {
		s += rng.chance(0.3) ? rng.pick(words) : rng.pick(pieces);
	}
	return s;
}

string
file_name(string const& extension)
{
	static vector<string> const pieces = { "a", "B", "7", "-", "_", "é", "日", " ", "+", "(", ")", "cpl", "pic", "&", "%20", ".x" };
	string s = rng.from("abcdefgh", 1);
	auto const n = rng.range(0, 8);
	for (int i = 0; i < n; ++i) {
		s += rng.pick(pieces);
	}
	return s + extension;
}

string
uuid()
{
	auto b = rng.bytes(16);
	b[6] = (b[6] & 0xf) | 0x40;
	b[8] = (b[8] & 0x3f) | 0x80;
	char s[64];
	snprintf(
		s, sizeof(s), "%02x%02x%02x%02x-%02x%02x-%02x%02x-%02x%02x-%02x%02x%02x%02x%02x%02x",
		b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9], b[10], b[11], b[12], b[13], b[14], b[15]
		);
	return s;
}

string
date()
{
	char s[64];
	snprintf(
		s, sizeof(s), "%04d-%02d-%02dT%02d:%02d:%02d%c%02d:%02d",
		int(rng.range(1990, 2060)), int(rng.range(1, 12)), int(rng.range(1, 28)), int(rng.below(24)), int(rng.below(60)), int(rng.below(60)), rng.coin() ? '+' : '-', int(rng.below(13)), rng.coin() ? 0 : 30
		);
	return s;
}

dcp::LanguageTag
language()
{
	static vector<string> const usual = { "en", "fr", "de-DE", "en-GB", "zh-Hans-CN", "sl-rozaj", "es-419", "pt-BR", "ja", "de-Latn-DE-1996" };
	return dcp::LanguageTag(rng.pick(usual));
}

string
hash()
{
	return rng.from("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", 27) + "=";
}

string
escape(string const& s)
{
	string r;
	for (auto c: s) {
		switch (c) {
		case '&': r += "&amp;"; break;
		case '<': r += "&lt;"; break;
		case '>': r += "&gt;"; break;
		case '"': r += "&quot;"; break;
		case '\n': r += "&#10;"; break;
		case '\t': r += "&#9;"; break;
		case '\r': r += "&#13;"; break;
		default: r += c; break;
		}
	}
	return r;
}

}
