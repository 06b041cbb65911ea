/* C27 subtitle documents: round trips, and parsing against an independent evaluation of nested elements */
#include "gen.h"
#include "kit.h"
#include "array_data.h"
#include "font_asset.h"
#include "interop_text_asset.h"
#include "load_font_node.h"
#include "smpte_text_asset.h"
#include "text_image.h"
#include "text_string.h"
#include <libcxml/cxml.h>
#include <algorithm>
#include <cmath>
#include <map>
#include <sys/stat.h>

using namespace kit;
using std::dynamic_pointer_cast;
using std::make_shared;
using std::map;
using std::shared_ptr;
using std::string;
using std::vector;
using boost::optional;

namespace {

string
time_key(dcp::Time t)
{
	/* exact in units of 1/tcr, reduced to lowest terms */
	int64_t n = ((int64_t(t.h) * 60 + t.m) * 60 + t.s) * t.tcr + t.e;
	int64_t d = t.tcr;
	if (d == 0) {
		return "zero rate";
	}
	int64_t a = std::abs(n), b = d;
	while (b) {
		auto const r = a % b;
		a = b;
		b = r;
	}
	if (a == 0) {
		a = 1;
	}
	bool const carried = t.e < t.tcr && t.s < 60 && t.m < 60;
	return std::to_string(n / a) + "/" + std::to_string(d / a) + (carried ? "" : "-uncarried");
}

string
num(float v, double scale = 10000)
{
	return std::to_string(std::lrint(v * scale));
}

string
colour_key(dcp::Colour c)
{
	return std::to_string(c.r) + "," + std::to_string(c.g) + "," + std::to_string(c.b);
}

/** What says where and when a text is */
string
line_key(dcp::Text const& t)
{
	string s = time_key(t.in()) + " " + time_key(t.out()) + " up " + time_key(t.fade_up_time()) + " down " + time_key(t.fade_down_time())
		+ " h " + num(t.h_position()) + " " + std::to_string(int(t.h_align()))
		+ " v " + num(t.v_position()) + " " + std::to_string(int(t.v_align()))
		+ " z " + num(t.z_position());
	for (auto const& z: t.variable_z_positions()) {
		s += " " + num(z.position) + ":" + std::to_string(z.duration);
	}
	if (auto ts = dynamic_cast<dcp::TextString const*>(&t)) {
		s += " dir " + std::to_string(int(ts->direction()));
		for (auto const& r: ts->rubies()) {
			s += " ruby [" + r.base + "][" + r.annotation + "] " + num(r.size) + " " + std::to_string(int(r.position)) + " " + num(r.offset) + " " + num(r.spacing) + " " + num(r.aspect_adjust);
		}
	}
	return s;
}

string
style_key(dcp::TextString const& t)
{
	return "font " + (t.font() ? "[" + *t.font() + "]" : string("none"))
		+ (t.italic() ? " italic" : "") + (t.bold() ? " bold" : "") + (t.underline() ? " underline" : "")
		+ " colour " + colour_key(t.colour()) + " size " + std::to_string(t.size()) + " aspect " + num(t.aspect_adjust())
		+ " effect " + std::to_string(int(t.effect())) + " " + colour_key(t.effect_colour());
}

string
string_key(dcp::TextString const& t)
{
	return style_key(t) + " space " + num(t.space_before()) + " text [" + t.text() + "]";
}

typedef map<string, vector<string>> Lines;

Lines
lines(vector<shared_ptr<const dcp::Text>> const& texts)
{
	Lines out;
	for (auto const& t: texts) {
		if (auto s = dynamic_pointer_cast<const dcp::TextString>(t)) {
			out["string " + line_key(*t)].push_back(string_key(*s));
		} else if (auto i = dynamic_pointer_cast<const dcp::TextImage>(t)) {
			auto const data = i->png_image();
			out["image " + line_key(*t)].push_back(i->id() + " " + std::to_string(hash(string(reinterpret_cast<char const*>(data.data()), data.size()))));
		}
	}
	for (auto& i: out) {
		if (i.first.substr(0, 5) == "image") {
			std::sort(i.second.begin(), i.second.end());
		}
	}
	return out;
}

/** Say which part differs, as a key which does not depend on the values */
string
what_differs(string const& a, string const& b)
{
	std::istringstream x(a), y(b);
	string p, q, last = "start";
	while (x >> p) {
		if (!(y >> q) || p != q) {
			return last;
		}
		if (!p.empty() && isalpha(p[0])) {
			last = p;
		}
		if (p == "text" || p == "ruby") {
			return last;
		}
	}
	return last;
}

void
compare(Lines const& a, Lines const& b, string const& prefix)
{
	auto i = a.begin();
	auto j = b.begin();
	while (i != a.end() && j != b.end() && i->first == j->first) {
		if (i->second != j->second) {
			size_t k = 0;
			while (k < i->second.size() && k < j->second.size() && i->second[k] == j->second[k]) {
				++k;
			}
			auto const p = k < i->second.size() ? i->second[k] : string("nothing");
			auto const q = k < j->second.size() ? j->second[k] : string("nothing");
			violation(prefix + what_differs(p, q), p + " became " + q + " at " + i->first);
		}
		observed();
		++i;
		++j;
	}
	if (i != a.end() || j != b.end()) {
		auto const p = i != a.end() ? i->first : string("nothing");
		auto const q = j != b.end() ? j->first : string("nothing");
		violation(prefix + "line-" + what_differs(p, q), p + " became " + q);
	}
}

/* ---------- random values ---------- */

float hundredth(int from, int to) { return rng.range(from, to) / 100.0f; }

dcp::Colour colour()
{
	return rng.chance(0.4) ? dcp::Colour(255, 255, 255) : dcp::Colour(rng.below(256), rng.below(256), rng.below(256));
}

dcp::Time
time_of(int64_t units, int tcr)
{
	return dcp::Time(units / tcr / 3600, units / tcr / 60 % 60, units / tcr % 60, units % tcr, tcr);
}

vector<dcp::Text::VariableZPosition>
variable_z()
{
	vector<dcp::Text::VariableZPosition> z;
	if (rng.chance(0.2)) {
		for (int i = 0, n = rng.range(1, 4); i < n; ++i) {
			z.push_back({rng.range(-100, 100) / 10.0f, rng.coin() ? 1 : int64_t(rng.range(1, 500))});
		}
	}
	return z;
}

string
displayed()
{
	auto s = gen::text();
	if (rng.chance(0.1)) {
		s = rng.pick({string(" "), string("\n"), string("  x  "), string("a\nb"), string("\tq"), string("\xc2\xa0")});
	}
	return s;
}

struct Style
{
	optional<string> font;
	bool italic, bold, underline;
	dcp::Colour colour;
	int size;
	float aspect;
	dcp::Effect effect;
	dcp::Colour effect_colour;
};

Style
style(vector<string> const& fonts)
{
	Style s;
	if (!fonts.empty() && rng.chance(0.8)) {
		s.font = rng.pick(fonts);
	}
	s.italic = rng.chance(0.3);
	s.bold = rng.chance(0.4);
	s.underline = rng.chance(0.2);
	s.colour = colour();
	s.size = rng.chance(0.5) ? 42 : rng.range(1, 120);
	s.aspect = rng.chance(0.7) ? 1.0f : rng.range(3, 40) / 10.0f;
	s.effect = rng.pick({dcp::Effect::NONE, dcp::Effect::BORDER, dcp::Effect::SHADOW});
	s.effect_colour = colour();
	return s;
}

bool
same(Style const& a, Style const& b)
{
	return a.font == b.font && a.italic == b.italic && a.bold == b.bold && a.underline == b.underline && a.colour == b.colour && a.size == b.size && std::abs(a.aspect - b.aspect) < 0.01 && a.effect == b.effect && a.effect_colour == b.effect_colour;
}

/* ---------- round trip ---------- */

template <class Asset>
void
fill(Asset& asset, bool smpte, int tcr, vector<string> const& fonts, bool images)
{
	int64_t const whole = int64_t(3600) * 3 * tcr;
	int const subtitles = rng.range(0, 6);
	vector<int64_t> ins;
	for (int i = 0; i < subtitles; ++i) {
		int64_t in = ins.empty() || rng.chance(0.6) ? int64_t(rng.below(whole)) : rng.pick(ins);
		ins.push_back(in);
		auto const out = in + rng.range(1, 20 * tcr);
		int64_t const up = rng.chance(0.3) ? 0 : rng.range(0, 8 * tcr), down = rng.chance(0.3) ? 0 : rng.range(0, 8 * tcr);
		int const n = rng.range(1, 4);
		float v, h, z;
		dcp::VAlign va;
		dcp::HAlign ha;
		dcp::Direction dir;
		vector<dcp::Text::VariableZPosition> vz;
		bool again = false;
		for (int j = 0; j < n; ++j) {
			/* A position which differs from all others in some way */
			if (j > 0 && !again && rng.chance(0.2)) {
				/* perhaps only in its variable Z position */
				vz.push_back({rng.range(-100, 100) / 10.0f, int64_t(rng.range(1, 500))});
				again = true;
				count("differing only in variable Z");
			} else if (j > 0 && rng.chance(0.3)) {
				/* or in one other thing */
				again = true;
				switch (rng.below(smpte ? 5 : 4)) {
				case 0: va = va == dcp::VAlign::TOP ? dcp::VAlign::BOTTOM : dcp::VAlign::TOP; break;
				case 1: ha = ha == dcp::HAlign::LEFT ? dcp::HAlign::RIGHT : dcp::HAlign::LEFT; break;
				case 2: h += 0.01f; break;
				case 3: v += 0.005f; break;
				case 4: dir = dir == dcp::Direction::LTR ? dcp::Direction::RTL : dcp::Direction::LTR; break;
				}
				count("differing in one thing only");
			} else {
				again = false;
				v = (i * 4 + j) / 100.0f + rng.below(3) * 0.3f;
				va = rng.pick({dcp::VAlign::TOP, dcp::VAlign::CENTER, dcp::VAlign::BOTTOM});
				ha = rng.pick({dcp::HAlign::LEFT, dcp::HAlign::CENTER, dcp::HAlign::RIGHT});
				h = rng.chance(0.5) ? 0 : hundredth(-50, 50);
				z = smpte && rng.chance(0.3) ? hundredth(-100, 100) : 0;
				vz = variable_z();
				dir = smpte && rng.chance(0.3) ? rng.pick({dcp::Direction::RTL, dcp::Direction::TTB, dcp::Direction::BTT}) : dcp::Direction::LTR;
			}
			if (images && rng.chance(0.3)) {
				auto const bytes = rng.bytes(rng.range(1, 300));
				auto const id = gen::uuid();
				asset.add(make_shared<dcp::TextImage>(
					dcp::ArrayData(bytes.data(), bytes.size()), id, time_of(in, tcr), time_of(out, tcr), h, ha, v, va, z, vz, time_of(up, tcr), time_of(down, tcr)
					));
				count("images");
				continue;
			}
			auto const strings = rng.chance(0.4) ? 1 : rng.range(2, 5);
			vector<dcp::Ruby> rubies;
			if (strings == 1 && rng.chance(0.3)) {
				for (int k = 0, m = rng.range(1, 3); k < m; ++k) {
					dcp::Ruby r(gen::text(), gen::text());
					if (rng.coin()) { r.size = hundredth(1, 200); }
					if (rng.coin()) { r.position = dcp::RubyPosition::AFTER; }
					if (rng.coin()) { r.offset = hundredth(-100, 100); }
					if (rng.coin()) { r.spacing = hundredth(-100, 100); }
					if (rng.coin()) { r.aspect_adjust = hundredth(25, 400); }
					rubies.push_back(r);
				}
				count("with ruby");
			}
			optional<Style> last;
			for (int k = 0; k < strings; ++k) {
				auto s = style(fonts);
				if (last && rng.chance(0.6)) {
					/* Change one thing only */
					auto t = *last;
					switch (rng.below(9)) {
					case 0: t.font = s.font; break;
					case 1: t.italic = !t.italic; break;
					case 2: t.bold = !t.bold; break;
					case 3: t.underline = !t.underline; break;
					case 4: t.colour = s.colour; break;
					case 5: t.size = s.size; break;
					case 6: t.aspect = s.aspect; break;
					case 7: t.effect = s.effect; break;
					case 8: t.effect_colour = s.effect_colour; break;
					}
					s = t;
				}
				float space = rng.chance(0.3) ? rng.pick({0.5f, 0.25f, 1.0f, -0.5f, 2.75f, 12.5f, 0.01f, 0.375f}) : 0;
				if (last && same(*last, s) && space == 0) {
					space = 0.5;
				}
				last = s;
				auto const text = displayed();
				asset.add(make_shared<dcp::TextString>(
					s.font, s.italic, s.bold, s.underline, s.colour, s.size, s.aspect, time_of(in, tcr), time_of(out, tcr),
					h, ha, v, va, z, vz, dir, text, s.effect, s.effect_colour, time_of(up, tcr), time_of(down, tcr), space, rubies
					));
				count("strings");
			}
		}
	}
}

map<string, string>
fonts_of(dcp::TextAsset const& a)
{
	map<string, string> out;
	for (auto const& i: a.font_data()) {
		out[i.first] = string(reinterpret_cast<char const*>(i.second.data()), i.second.size());
	}
	return out;
}

void
ascending(dcp::TextAsset const& a)
{
	dcp::Time last;
	for (auto i: a.texts()) {
		EXPECT(!(i->in() < last), "time-order", "written out of order");
		last = i->in();
	}
}

void
round_trip_case(size_t n)
{
	auto const dir = fresh_dir("subs");
	bool const smpte = rng.coin();
	begin_case(string(smpte ? "smpte" : "interop") + " round trip " + std::to_string(n) + " " + std::to_string(rng.below(1000000)));
	vector<string> fonts;
	map<string, string> font_data;
	for (int i = 0, k = rng.below(4); i < k; ++i) {
		auto id = rng.chance(0.6) ? "font" + std::to_string(i) : gen::text() + std::to_string(i);
		fonts.push_back(id);
		auto const b = rng.bytes(rng.range(1, 400));
		font_data[id] = string(reinterpret_cast<char const*>(b.data()), b.size());
	}
	auto add_fonts = [&](dcp::TextAsset& a) {
		for (auto const& f: fonts) {
			auto const& d = font_data[f];
			a.add_font(f, dcp::ArrayData(reinterpret_cast<uint8_t const*>(d.data()), d.size()));
		}
	};
	if (smpte) {
		auto const standard = rng.pick({dcp::SubtitleStandard::SMPTE_2007, dcp::SubtitleStandard::SMPTE_2010, dcp::SubtitleStandard::SMPTE_2014});
		dcp::SMPTETextAsset a(standard);
		int const rate = rng.pick({24, 25, 30, 48, 50, 60});
		int const tcr = rng.chance(0.6) ? rate : rng.pick({24, 25, 30, 250, 1000});
		a.set_edit_rate(dcp::Fraction(rate, 1));
		a.set_time_code_rate(tcr);
		a.set_content_title_text(gen::text(false));
		if (rng.coin()) { a.set_language(gen::language()); }
		if (rng.coin()) { a.set_reel_number(rng.below(30)); }
		if (rng.coin()) { a.set_start_time(time_of(rng.below(100000), tcr)); }
		a.set_issue_date(dcp::LocalTime(gen::date().substr(0, 19) + "+00:00"));
		add_fonts(a);
		fill(a, true, tcr, fonts, true);
		int64_t latest = 0;
		for (auto t: a.texts()) {
			auto const o = t->out();
			int64_t const u = ((int64_t(o.h) * 60 + o.m) * 60 + o.s) * o.tcr + o.e;
			latest = std::max(latest, (u * rate + o.tcr - 1) / o.tcr);
		}
		EXPECT(a.intrinsic_duration() == latest, "intrinsic-duration", a.intrinsic_duration() << " rather than " << latest);
		auto const before = lines(a.texts());
		auto const file = dir + "/" + (rng.coin() ? "sub.mxf" : "x y.mxf");
		a.write(file);
		auto check = [&](dcp::SMPTETextAsset const& b, bool mxf) {
			compare(before, lines(b.texts()), "smpte-");
			EXPECT(b.content_title_text() == a.content_title_text(), "smpte-title", b.content_title_text());
			EXPECT(b.language() == a.language(), "smpte-language", b.language().get_value_or("none"));
			EXPECT(b.reel_number() == a.reel_number(), "smpte-reel", b.reel_number().get_value_or(-1));
			EXPECT(bool(b.start_time()) == bool(a.start_time()) && (!a.start_time() || time_key(*a.start_time()) == time_key(*b.start_time())), "smpte-start", "start time");
			EXPECT(b.issue_date() == a.issue_date(), "smpte-date", b.issue_date().as_string());
			EXPECT(b.edit_rate() == a.edit_rate() && b.time_code_rate() == a.time_code_rate(), "smpte-rates", b.edit_rate().as_string() << " " << b.time_code_rate());
			EXPECT(b.xml_id() == a.xml_id(), "smpte-xml-id", b.xml_id().get_value_or("none"));
			EXPECT(b.subtitle_standard() == standard, "smpte-standard", "namespace");
			EXPECT(b.intrinsic_duration() == a.intrinsic_duration(), "smpte-duration", b.intrinsic_duration() << " rather than " << a.intrinsic_duration());
			EXPECT(b.load_font_nodes().size() == fonts.size(), "smpte-load-fonts", b.load_font_nodes().size());
			if (mxf) {
				EXPECT(fonts_of(b) == font_data, "smpte-font-data", "fonts changed");
				EXPECT(b.id() == a.id(), "smpte-id", b.id());
				EXPECT(b.resource_id() == a.xml_id(), "smpte-resource-id", b.resource_id().get_value_or("none"));
			}
			ascending(b);
		};
		dcp::SMPTETextAsset b((boost::filesystem::path(file)));
		check(b, true);
		/* and as plain XML with the images beside it */
		auto const plain = fresh_dir("plain");
		write_file(plain + "/sub.xml", a.xml_as_string());
		for (auto t: a.texts()) {
			if (auto i = dynamic_pointer_cast<const dcp::TextImage>(t)) {
				i->write_png_file(plain + "/" + i->id() + ".png");
			}
		}
		check(dcp::SMPTETextAsset((boost::filesystem::path(plain + "/sub.xml"))), false);
		/* writing what was read */
		b.write(dir + "/again.mxf");
		check(dcp::SMPTETextAsset((boost::filesystem::path(dir + "/again.mxf"))), true);
		remove_tree(plain);
	} else {
		dcp::InteropTextAsset a;
		a.set_language(gen::text());
		a.set_movie_title(gen::text());
		a.set_reel_number(rng.coin() ? "1" : gen::text());
		add_fonts(a);
		fill(a, false, 250, fonts, true);
		auto const before = lines(a.texts());
		auto check = [&](dcp::InteropTextAsset& b, string const& below) {
			compare(before, lines(b.texts()), "interop-");
			EXPECT(b.id() == a.id(), "interop-id", b.id());
			EXPECT(b.language() == a.language(), "interop-language", b.language());
			EXPECT(b.movie_title() == a.movie_title(), "interop-title", b.movie_title());
			EXPECT(b.reel_number() == a.reel_number(), "interop-reel", b.reel_number());
			EXPECT(b.load_font_nodes().size() == fonts.size() && b.unresolved_fonts().size() == fonts.size(), "interop-load-fonts", b.load_font_nodes().size());
			vector<shared_ptr<dcp::Asset>> assets;
			for (size_t i = 0; i < fonts.size(); ++i) {
				assets.push_back(make_shared<dcp::FontAsset>(gen::uuid(), boost::filesystem::path(below + "/font_" + std::to_string(i) + ".ttf")));
			}
			rng.shuffle(assets);
			b.resolve_fonts(assets);
			EXPECT(b.unresolved_fonts().empty(), "interop-unresolved", "fonts not found");
			EXPECT(fonts_of(b) == font_data, "interop-font-data", "fonts changed");
			ascending(b);
		};
		a.write(dir + "/sub.xml");
		dcp::InteropTextAsset b((boost::filesystem::path(dir + "/sub.xml")));
		check(b, dir);
		auto const second = fresh_dir("second");
		b.write(second + "/sub.xml");
		dcp::InteropTextAsset c((boost::filesystem::path(second + "/sub.xml")));
		check(c, second);
		remove_tree(second);
	}
	count(smpte ? "smpte documents" : "interop documents");
	remove_tree(dir);
}

/* ---------- parsing ---------- */

struct State
{
	optional<string> font;
	optional<bool> italic, bold, underline;
	optional<dcp::Colour> colour, effect_colour;
	optional<int> size;
	optional<float> aspect;
	optional<dcp::Effect> effect;
	string when;
	string where;
	dcp::Time in, out, up, down;
	optional<float> h, v, z;
	optional<dcp::HAlign> ha;
	optional<dcp::VAlign> va;
	optional<dcp::Direction> dir;
};

class Writer
{
public:
	Writer(bool smpte, int tcr) : _smpte(smpte), _tcr(tcr) {}

	string xml;
	vector<shared_ptr<const dcp::Text>> expected;

	void node(State state, int depth, bool in_subtitle)
	{
		/* a place where Fonts and Subtitles may appear */
		auto const n = rng.range(1, 3);
		for (int i = 0; i < n; ++i) {
			if (rng.chance(0.4) && depth < 4) {
				font(state, [&](State const& s) { node(s, depth + 1, in_subtitle); });
			} else if (!in_subtitle) {
				subtitle(state, depth);
			} else {
				text(state);
			}
			if (rng.coin()) {
				xml += rng.pick({string("\n  "), string("<!-- comment -->"), string(" ")});
			}
		}
	}

private:
	template <class F>
	void font(State s, F body)
	{
		xml += "<Font";
		if (rng.chance(0.3)) { s.font = gen::text(); attr(_smpte ? "ID" : "Id", *s.font); }
		if (rng.chance(0.3)) { s.italic = rng.coin(); attr("Italic", yes_no(*s.italic)); }
		if (rng.chance(0.3)) { s.bold = rng.coin(); attr("Weight", *s.bold ? "bold" : "normal"); }
		if (rng.chance(0.3)) { s.underline = rng.coin(); attr(_smpte ? "Underline" : "Underlined", yes_no(*s.underline)); }
		if (rng.chance(0.3)) { s.colour = colour(); attr("Color", argb(*s.colour)); }
		if (rng.chance(0.3)) { s.effect_colour = colour(); attr("EffectColor", argb(*s.effect_colour)); }
		if (rng.chance(0.3)) { s.size = rng.range(1, 100); attr("Size", std::to_string(*s.size)); }
		if (rng.chance(0.3)) { auto const k = rng.range(3, 40); s.aspect = k / 10.0f; attr("AspectAdjust", std::to_string(k / 10) + "." + std::to_string(k % 10)); }
		if (rng.chance(0.3)) { s.effect = rng.pick({dcp::Effect::NONE, dcp::Effect::BORDER, dcp::Effect::SHADOW}); attr("Effect", *s.effect == dcp::Effect::NONE ? "none" : *s.effect == dcp::Effect::BORDER ? "border" : "shadow"); }
		if (rng.chance(0.2)) { attr("Script", "normal"); }
		xml += ">";
		body(s);
		xml += "</Font>";
	}

	void subtitle(State s, int depth)
	{
		int64_t const in = rng.below(int64_t(7200) * _tcr), out = in + rng.range(1, 2000);
		s.in = time_of(in, _tcr);
		s.out = time_of(out, _tcr);
		xml += "<Subtitle";
		attr("SpotNumber", std::to_string(++_spot));
		attr("TimeIn", text_of(s.in));
		attr("TimeOut", text_of(s.out));
		s.up = fade("FadeUpTime");
		s.down = fade("FadeDownTime");
		xml += ">";
		node(s, depth, true);
		xml += "</Subtitle>";
	}

	void text(State s)
	{
		xml += "<Text";
		if (rng.coin()) { s.h = position("Hposition", "HPosition"); }
		if (rng.coin()) { s.v = position("Vposition", "VPosition"); }
		if (rng.coin()) { s.ha = rng.pick({dcp::HAlign::LEFT, dcp::HAlign::CENTER, dcp::HAlign::RIGHT}); attr(_smpte ? "Halign" : "HAlign", *s.ha == dcp::HAlign::LEFT ? "left" : *s.ha == dcp::HAlign::CENTER ? "center" : "right"); }
		if (rng.coin()) { s.va = rng.pick({dcp::VAlign::TOP, dcp::VAlign::CENTER, dcp::VAlign::BOTTOM}); attr(_smpte ? "Valign" : "VAlign", *s.va == dcp::VAlign::TOP ? "top" : *s.va == dcp::VAlign::CENTER ? "center" : "bottom"); }
		if (rng.chance(0.3)) { s.z = position("Zposition", "Zposition"); }
		if (_smpte && rng.chance(0.3)) { s.dir = rng.pick({dcp::Direction::LTR, dcp::Direction::RTL, dcp::Direction::TTB, dcp::Direction::BTT}); attr("Direction", *s.dir == dcp::Direction::LTR ? "ltr" : *s.dir == dcp::Direction::RTL ? "rtl" : *s.dir == dcp::Direction::TTB ? "ttb" : "btt"); }
		xml += ">";
		inside(s, 0, "Text");
		xml += "</Text>";
	}

	void inside(State const& s, int depth, string const&)
	{
		float space = 0;
		auto const n = rng.range(1, 4);
		bool was_text = false;
		for (int i = 0; i < n; ++i) {
			if (rng.chance(0.3) && depth < 3) {
				/* A space applies to the text which follows it within the same element */
				if (space == 0) {
					font(s, [&](State const& t) { inside(t, depth + 1, "Font"); });
					was_text = false;
				}
			} else if (rng.chance(0.3)) {
				auto const k = rng.range(-8, 12);
				auto const size = k / 4.0f;
				char b[32];
				snprintf(b, sizeof(b), "%.2f", size);
				xml += "<Space";
				if (rng.coin()) {
					attr("Size", b + string(_smpte ? "" : "em"));
					space += size;
				} else {
					space += 0.5;
				}
				xml += "/>";
				was_text = false;
			} else {
				if (was_text) {
					/* keep apart from the text before */
					xml += "<!-- between -->";
				}
				auto const t = displayed();
				xml += gen::escape(t);
				add(s, space, t);
				space = 0;
				was_text = true;
			}
		}
		if (space != 0) {
			xml += "end";
			add(s, space, "end");
		}
	}

	void add(State const& s, float space, string const& t)
	{
		expected.push_back(make_shared<dcp::TextString>(
			s.font, s.italic.get_value_or(false), s.bold.get_value_or(false), s.underline.get_value_or(false), s.colour.get_value_or(dcp::Colour(255, 255, 255)), s.size.get_value_or(42), s.aspect.get_value_or(1),
			s.in, s.out, s.h.get_value_or(0), s.ha.get_value_or(dcp::HAlign::CENTER), s.v.get_value_or(0), s.va.get_value_or(dcp::VAlign::CENTER), s.z.get_value_or(0), vector<dcp::Text::VariableZPosition>(), s.dir.get_value_or(dcp::Direction::LTR),
			t, s.effect.get_value_or(dcp::Effect::NONE), s.effect_colour.get_value_or(dcp::Colour(0, 0, 0)), s.up, s.down, space, vector<dcp::Ruby>()
			));
	}

	void attr(string const& name, string const& value)
	{
		xml += " " + name + "=\"" + gen::escape(value) + "\"";
	}

	float position(string const& smpte, string const& interop)
	{
		auto const k = rng.range(-400, 400);
		char b[32];
		snprintf(b, sizeof(b), "%.1f", k / 10.0);
		attr(_smpte ? smpte : interop, b);
		return k / 1000.0f;
	}

	dcp::Time fade(string const& name)
	{
		if (rng.chance(0.3)) {
			return dcp::Time(0, 0, 0, 20, 250);
		}
		auto const k = rng.range(0, 10 * _tcr);
		if (!_smpte && rng.coin()) {
			attr(name, std::to_string(k));
		} else {
			attr(name, text_of(time_of(k, _tcr)));
		}
		return k > 8 * _tcr ? dcp::Time(0, 0, 8, 0, 250) : time_of(k, _tcr);
	}

	string text_of(dcp::Time t)
	{
		char b[64];
		snprintf(b, sizeof(b), _smpte ? "%02d:%02d:%02d:%02d" : "%02d:%02d:%02d:%03d", t.h, t.m, t.s, t.e);
		return b;
	}

	string yes_no(bool v) { return v ? "yes" : "no"; }

	string argb(dcp::Colour c)
	{
		char b[16];
		snprintf(b, sizeof(b), "%02X%02X%02X%02X", int(rng.below(256)), c.r, c.g, c.b);
		return b;
	}

	bool _smpte;
	int _tcr;
	int _spot = 0;
};

void
parse_case(size_t n)
{
	auto const dir = fresh_dir("parse");
	bool const smpte = rng.coin();
	begin_case(string(smpte ? "smpte" : "interop") + " parse " + std::to_string(n) + " " + std::to_string(rng.below(1000000)));
	int const tcr = smpte ? rng.pick({24, 25, 30, 48}) : 250;
	Writer w(smpte, tcr);
	string head, tail;
	if (smpte) {
		head = "<?xml version=\"1.0\" encoding=\"UTF-8\"?><SubtitleReel xmlns=\"http://www.smpte-ra.org/schemas/428-7/2014/DCST\"><Id>urn:uuid:" + gen::uuid() + "</Id><ContentTitleText>x</ContentTitleText><IssueDate>2020-01-01T00:00:00.000+00:00</IssueDate><EditRate>24 1</EditRate><TimeCodeRate>" + std::to_string(tcr) + "</TimeCodeRate><SubtitleList>";
		tail = "</SubtitleList></SubtitleReel>";
	} else {
		head = "<?xml version=\"1.0\" encoding=\"UTF-8\"?><DCSubtitle Version=\"1.0\"><SubtitleID>" + gen::uuid() + "</SubtitleID><MovieTitle>x</MovieTitle><ReelNumber>1</ReelNumber><Language>en</Language>";
		tail = "</DCSubtitle>";
	}
	w.node(State(), 0, false);
	auto const file = dir + "/sub.xml";
	write_file(file, head + w.xml + tail);
	vector<shared_ptr<const dcp::Text>> got;
	if (smpte) {
		got = dcp::SMPTETextAsset(boost::filesystem::path(file)).texts();
	} else {
		got = dcp::InteropTextAsset(boost::filesystem::path(file)).texts();
	}
	EXPECT(got.size() == w.expected.size(), "parse-count", got.size() << " texts rather than " << w.expected.size() << " from " << w.xml.substr(0, 600));
	for (size_t i = 0; i < std::min(got.size(), w.expected.size()); ++i) {
		auto const a = dynamic_pointer_cast<const dcp::TextString>(w.expected[i]);
		auto const b = dynamic_pointer_cast<const dcp::TextString>(got[i]);
		EXPECT(b, "parse-kind", "not a string");
		auto const p = line_key(*a) + " " + string_key(*a), q = line_key(*b) + " " + string_key(*b);
		EXPECT(p == q, "parse-" + what_differs(p, q), p << " became " << q);
		if (p != q) {
			break;
		}
	}
	count("parsed documents");
	count("parsed strings", w.expected.size());
	note_max("longest document", w.xml.length());
	remove_tree(dir);
}

void
c27()
{
	rule("texts and images compared as a map from place and time to ordered styled strings; parsing compared with an independent evaluation of the nesting");
	assumption("times on the time code grid, fades up to 8 seconds, aspect adjustment and Z steps to one decimal as the file format holds them, ruby only on texts of one style, every image with its own id");
	gen::init();
	auto const n = budget(900, 25000);
	for (size_t i = 0; i < n; ++i) {
		round_trip_case(i);
		parse_case(i);
	}
}

KIT_CHECK("C27", c27);

}
