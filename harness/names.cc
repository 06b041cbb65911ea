/* C21: name templates. */
#include "kit.h"
#include "name_format.h"

using namespace kit;
using std::map;
using std::string;

namespace {

char safe(char c) { return c == '/' || c == ':' ? '-' : c == ' ' ? '_' : c; }

/** The expansion, written over a list of pieces */
string expected(string const& spec, map<char, string> const& values, string const& suffix, string const& ignore)
{
	string out;
	string rest = spec;
	while (!rest.empty()) {
		if (rest[0] == '%' && rest.length() >= 2 && values.count(rest[1]) && ignore.find(rest[1]) == string::npos) {
			for (auto c: values.at(rest[1])) { out += safe(c); }
			rest = rest.substr(2);
		} else {
			out += safe(rest[0]);
			rest = rest.substr(1);
		}
	}
	return out + suffix;
}

string nasty(size_t max)
{
	string s;
	size_t const n = rng.below(max + 1);
	for (size_t i = 0; i < n; ++i) {
		switch (rng.below(6)) {
		case 0: s += "%"; break;
		case 1: s += string("%") + rng.pick({'a', 'b', 't', 'i', '%', 'x'}); break;
		case 2: s += rng.pick({'/', ':', ' ', '.', '-', '_', '\\', '?'}); break;
		case 3: s += "\xc3\xa9"; break;
		case 4: s += char(rng.below(256)); break;
		default: s += rng.pick({'a', 'b', 't', 'i', 'x', 'Z', '0'}); break;
		}
	}
	return s;
}

void c21()
{
	rule("Random templates (placeholders, lone and doubled %, separators, non-ASCII, control bytes), value maps whose values themselves contain placeholders and separators, ignore sets and suffixes. Oracle: independent expansion plus a direct scan for unsafe characters before the suffix. Non-trivial = at least one placeholder substituted.");
	size_t const N = budget(60000, 3000000);
	for (size_t n = 0; n < N; ++n) {
		auto const spec = nasty(20);
		map<char, string> values;
		for (auto c: string("abti%x")) {
			if (rng.chance(c == '%' ? 0.1 : 0.5)) {
				values[c] = nasty(rng.chance(0.2) ? 0 : 8);
			}
		}
		if (rng.chance(0.1)) {
			values[char(rng.below(256))] = nasty(4);
		}
		string const suffix = rng.pick({string(".mxf"), string(""), string("_%a.xml"), string("/x: y"), string(".ttf")});
		string const ignore = rng.pick({string(""), string(""), string("a"), string("bt"), string("abtix%")});
		auto const e = expected(spec, values, suffix, ignore);
		string desc = "spec [" + spec + "] suffix [" + suffix + "] ignore [" + ignore + "]";
		for (auto const& i: values) { desc += string(" ") + i.first + "=[" + i.second + "]"; }
		begin_case(desc, e != expected(spec, {}, suffix, ignore));
		dcp::NameFormat f = rng.coin() ? dcp::NameFormat(spec) : dcp::NameFormat();
		f.set_specification(spec);
		EXPECT(f.specification() == spec, "name:specification", f.specification());
		auto const got = ignore.empty() && rng.coin() ? f.get(values, suffix) : f.get(values, suffix, ignore);
		EXPECT(got == e, "name:text", "gave [" << printable(got) << "] expected [" << printable(e) << "]");
		if (got.length() >= suffix.length()) {
			auto const stem = got.substr(0, got.length() - suffix.length());
			EXPECT(got.substr(stem.length()) == suffix, "name:suffix", printable(got));
			EXPECT(stem.find_first_of("/: ") == string::npos, "name:unsafe", printable(stem));
		}
		EXPECT(f.specification() == spec, "name:specification", "changed by use");
		dcp::NameFormat g(spec);
		EXPECT(f == g, "name:equal", printable(spec));
		dcp::NameFormat h(spec + "x");
		EXPECT(!(f == h), "name:equal", printable(spec));
		/* deterministic */
		EXPECT(f.get(values, suffix, ignore) == e, "name:again", printable(spec));
	}
}

KIT_CHECK("C21", c21);

}
