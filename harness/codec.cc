/* C20 vocabularies, C22 keys and codecs, C23 digests, C24 language tags */
#include "kit.h"
#include "array_data.h"
#include "content_kind.h"
#include "exceptions.h"
#include "h_align.h"
#include "key.h"
#include "language_tag.h"
#include "main_sound_configuration.h"
#include "rating.h"
#include "subtitle_standard.h"
#include "types.h"
#include "util.h"
#include "v_align.h"
#include <openssl/evp.h>
#include <openssl/sha.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cctype>
#include <clocale>
#include <fstream>
#include <mutex>
#include <set>
#include <thread>

using namespace kit;
using std::string;
using std::vector;

namespace {

/* ---------- C20 ---------- */

string
upper(string s)
{
	for (auto& c: s) {
		c = toupper(c);
	}
	return s;
}

/** Something near to, but not in, the vocabulary */
string
near_word(vector<string> const& words)
{
	auto w = rng.pick(words);
	switch (rng.below(8)) {
	case 0: return "";
	case 1: return w + rng.from("abcxyz -_0", 1);
	case 2: return " " + w;
	case 3: return w.substr(0, w.length() - 1);
	case 4: return w.substr(1);
	case 5: { if (!w.empty()) { w[rng.below(w.length())] ^= 1 + rng.below(31); } return w; }
	case 6: return rng.from("abcdefghijklmnopqrstuvwxyz", 1 + rng.below(12));
	default: return w + rng.pick(words);
	}
}

template <class T>
void
vocabulary(
	string name, vector<T> values, std::function<string (T)> to_text, std::function<T (string)> from_text, vector<string> also_known = {}, bool any_case = false
	)
{
	std::map<string, T> texts;
	vector<string> words;
	for (auto const& v: values) {
		auto const text = to_text(v);
		begin_case(name + " " + text);
		words.push_back(text);
		EXPECT(texts.find(text) == texts.end(), name + "-distinct", "two values have text " << text);
		texts.emplace(text, v);
		EXPECT(!text.empty(), name + "-empty", "empty text");
		try {
			EXPECT(from_text(text) == v, name + "-round-trip", text << " did not come back as the same value");
			if (any_case) {
				for (int i = 0; i < 8; ++i) {
					auto mixed = text;
					for (auto& c: mixed) {
						if (rng.coin()) {
							c = toupper(c);
						}
					}
					EXPECT(from_text(mixed) == v, name + "-letter-case", mixed << " did not come back as the same value");
				}
			}
		} catch (std::exception& e) {
			violation(name + "-round-trip", "own text " + text + " rejected: " + e.what());
		}
	}
	auto known = words;
	known.insert(known.end(), also_known.begin(), also_known.end());
	auto const n = budget(400, 10000);
	for (size_t i = 0; i < n; ++i) {
		auto const t = near_word(known);
		auto lower = t;
		std::transform(lower.begin(), lower.end(), lower.begin(), ::tolower);
		if (std::find(known.begin(), known.end(), any_case ? lower : t) != known.end()) {
			continue;
		}
		begin_case(name + " reject " + printable(t));
		bool accepted = false;
		string became;
		try {
			auto const v = from_text(t);
			accepted = true;
			became = to_text(v);
		} catch (std::exception& e) {

		}
		EXPECT(!accepted, name + "-unknown-rejected", "text \"" << printable(t) << "\" was accepted as " << became);
	}
	count("vocabularies");
}

/* The words fixed by the standards that define each vocabulary */
template <class T>
void
spelling(string name, vector<std::pair<T, string>> expected, std::function<string (T)> to_text)
{
	for (auto const& e: expected) {
		EXPECT(to_text(e.first) == e.second, name + "-spelling", "got " << to_text(e.first) << " expected " << e.second);
	}
}

void
c20()
{
	rule("every value to text and back; every text distinct and as the defining standard spells it; near-miss and random words rejected");
	using namespace dcp;

	vocabulary<Effect>("effect", {Effect::NONE, Effect::BORDER, Effect::SHADOW}, effect_to_string, string_to_effect);
	spelling<Effect>("effect", {{Effect::NONE, "none"}, {Effect::BORDER, "border"}, {Effect::SHADOW, "shadow"}}, effect_to_string);

	vocabulary<Direction>("direction", {Direction::LTR, Direction::RTL, Direction::TTB, Direction::BTT}, direction_to_string, string_to_direction, {"horizontal", "vertical"});
	spelling<Direction>("direction", {{Direction::LTR, "ltr"}, {Direction::RTL, "rtl"}, {Direction::TTB, "ttb"}, {Direction::BTT, "btt"}}, direction_to_string);
	EXPECT(string_to_direction("horizontal") == Direction::LTR && string_to_direction("vertical") == Direction::TTB, "direction-interop", "Interop words");

	vector<Marker> markers = {
		Marker::FFOC, Marker::LFOC, Marker::FFTC, Marker::LFTC, Marker::FFOI, Marker::LFOI, Marker::FFEC, Marker::LFEC, Marker::FFMC, Marker::LFMC, Marker::FFOB, Marker::LFOB
	};
	vocabulary<Marker>("marker", markers, marker_to_string, marker_from_string);
	vector<string> const marker_words = { "FFOC", "LFOC", "FFTC", "LFTC", "FFOI", "LFOI", "FFEC", "LFEC", "FFMC", "LFMC", "FFOB", "LFOB" };
	for (size_t i = 0; i < markers.size(); ++i) {
		EXPECT(marker_to_string(markers[i]) == marker_words[i], "marker-spelling", marker_to_string(markers[i]));
	}

	vocabulary<Status>("status", {Status::FINAL, Status::TEMP, Status::PRE}, status_to_string, string_to_status);
	spelling<Status>("status", {{Status::FINAL, "final"}, {Status::TEMP, "temp"}, {Status::PRE, "pre"}}, status_to_string);

	vocabulary<Luminance::Unit>(
		"luminance-unit", {Luminance::Unit::CANDELA_PER_SQUARE_METRE, Luminance::Unit::FOOT_LAMBERT}, Luminance::unit_to_string, Luminance::string_to_unit
		);
	spelling<Luminance::Unit>(
		"luminance-unit", {{Luminance::Unit::CANDELA_PER_SQUARE_METRE, "candela-per-square-metre"}, {Luminance::Unit::FOOT_LAMBERT, "foot-lambert"}}, Luminance::unit_to_string
		);

	vocabulary<Formulation>(
		"formulation",
		{Formulation::MODIFIED_TRANSITIONAL_1, Formulation::MULTIPLE_MODIFIED_TRANSITIONAL_1, Formulation::DCI_ANY, Formulation::DCI_SPECIFIC},
		formulation_to_string, string_to_formulation
		);

	vocabulary<HAlign>("horizontal-alignment", {HAlign::LEFT, HAlign::CENTER, HAlign::RIGHT}, halign_to_string, string_to_halign);
	spelling<HAlign>("horizontal-alignment", {{HAlign::LEFT, "left"}, {HAlign::CENTER, "center"}, {HAlign::RIGHT, "right"}}, halign_to_string);
	vocabulary<VAlign>("vertical-alignment", {VAlign::TOP, VAlign::CENTER, VAlign::BOTTOM}, valign_to_string, string_to_valign);
	spelling<VAlign>("vertical-alignment", {{VAlign::TOP, "top"}, {VAlign::CENTER, "center"}, {VAlign::BOTTOM, "bottom"}}, valign_to_string);

	vocabulary<ContentKind>("content-kind", ContentKind::all(), [](ContentKind k) { return k.name(); }, ContentKind::from_name, {}, true);
	string const s429 = "http://www.smpte-ra.org/schemas/429-16/2014/CPL-Metadata#scope/content-kind";
	string const s2067 = "http://www.smpte-ra.org/schemas/2067-3/2013#content-kind";
	vector<std::tuple<ContentKind, string, string>> const kinds = {
		std::make_tuple(ContentKind::FEATURE, "feature", ""), std::make_tuple(ContentKind::SHORT, "short", ""),
		std::make_tuple(ContentKind::TRAILER, "trailer", ""), std::make_tuple(ContentKind::TEST, "test", ""),
		std::make_tuple(ContentKind::TRANSITIONAL, "transitional", ""), std::make_tuple(ContentKind::RATING, "rating", ""),
		std::make_tuple(ContentKind::TEASER, "teaser", ""), std::make_tuple(ContentKind::POLICY, "policy", ""),
		std::make_tuple(ContentKind::PUBLIC_SERVICE_ANNOUNCEMENT, "psa", ""), std::make_tuple(ContentKind::ADVERTISEMENT, "advertisement", ""),
		std::make_tuple(ContentKind::CLIP, "clip", s429), std::make_tuple(ContentKind::PROMO, "promo", s429),
		std::make_tuple(ContentKind::STEREOCARD, "stereocard", s429), std::make_tuple(ContentKind::EPISODE, "episode", s2067),
		std::make_tuple(ContentKind::HIGHLIGHTS, "highlights", s2067), std::make_tuple(ContentKind::EVENT, "event", s2067)
	};
	EXPECT(ContentKind::all().size() == kinds.size(), "content-kind-all", "all() has " << ContentKind::all().size());
	for (auto const& k: kinds) {
		auto const& kind = std::get<0>(k);
		EXPECT(kind.name() == std::get<1>(k), "content-kind-spelling", kind.name());
		EXPECT(kind.scope().get_value_or("") == std::get<2>(k), "content-kind-scope", kind.name() << " has scope " << kind.scope().get_value_or("none"));
		auto const back = ContentKind::from_name(upper(kind.name()));
		EXPECT(back.scope() == kind.scope(), "content-kind-keeps-scope", kind.name());
		EXPECT(!(back != kind), "content-kind-not-unequal", kind.name());
		for (auto const& l: kinds) {
			EXPECT((kind == std::get<0>(l)) == (std::get<1>(k) == std::get<1>(l)), "content-kind-equality", kind.name() << " and " << std::get<1>(l));
		}
		EXPECT(kind != ContentKind(kind.name(), string("http://elsewhere.example/")), "content-kind-scope-compared", kind.name());
	}

	struct Convention { SubtitleStandard standard; bool baseline; bool box; };
	for (auto c: {
			Convention{SubtitleStandard::INTEROP, true, false}, Convention{SubtitleStandard::SMPTE_2007, false, true},
			Convention{SubtitleStandard::SMPTE_2010, false, true}, Convention{SubtitleStandard::SMPTE_2014, true, false} }) {
		begin_case("subtitle standard " + std::to_string(static_cast<int>(c.standard)));
		EXPECT(uses_baseline(c.standard) == c.baseline, "baseline", "standard " << static_cast<int>(c.standard));
		EXPECT(uses_bounding_box(c.standard) == c.box, "bounding-box", "standard " << static_cast<int>(c.standard));
	}

	/* Colours and fractions, the other values that libdcp puts in XML as text */
	auto const n = budget(3000, 100000);
	for (size_t i = 0; i < n; ++i) {
		int const r = rng.below(256), g = rng.below(256), b = rng.below(256);
		dcp::Colour const colour(r, g, b);
		begin_case("colour " + std::to_string(r) + " " + std::to_string(g) + " " + std::to_string(b));
		char want[16];
		snprintf(want, sizeof(want), "%02X%02X%02X", r, g, b);
		EXPECT(colour.to_rgb_string() == want, "colour-rgb", colour.to_rgb_string() << " rather than " << want);
		EXPECT(colour.to_argb_string() == string("FF") + want, "colour-argb", colour.to_argb_string() << " rather than FF" << want);
		EXPECT(dcp::Colour(colour.to_argb_string()) == colour, "colour-round-trip", want);
		snprintf(want, sizeof(want), "%02x%02x%02x", r, g, b);
		dcp::Colour const parsed(string(rng.coin() ? "00" : "7f") + want);
		EXPECT(parsed.r == r && parsed.g == g && parsed.b == b, "colour-parse", want);
		dcp::Colour const other(r, g, b ^ (1 << rng.below(8)));
		EXPECT(!(other == colour) && other != colour, "colour-unequal", want);

		int const num = rng.chance(0.3) ? rng.range(1, 2000000000) : rng.range(1, 200);
		int const den = rng.chance(0.2) ? rng.range(1, 2000000000) : rng.range(1, 1001);
		dcp::Fraction const f(num, den);
		EXPECT(f.as_string() == std::to_string(num) + " " + std::to_string(den), "fraction-text", f.as_string());
		dcp::Fraction const back(f.as_string());
		EXPECT(back == f && !(back != f) && back.numerator == num && back.denominator == den, "fraction-round-trip", f.as_string());
		dcp::Fraction const h(rng.chance(0.3) ? num : rng.range(1, 2000000000), rng.chance(0.3) ? den : rng.range(1, 2000000000));
		EXPECT((f < h) == (int64_t(f.numerator) * h.denominator < int64_t(h.numerator) * f.denominator), "fraction-order", f.as_string() << " and " << h.as_string());
		EXPECT(std::fabs(f.as_float() - double(num) / den) <= 1e-6 * double(num) / den, "fraction-float", f.as_string());
	}
	for (auto bad: { "", "24", "24 1 1", "GG000000", "12345" }) {
		bool ok = false;
		try {
			if (string(bad).find('G') != string::npos || string(bad) == "12345") {
				dcp::Colour c((string(bad)));
			} else {
				dcp::Fraction f((string(bad)));
			}
			ok = true;
		} catch (std::exception&) {}
		EXPECT(!ok, "bad-text-accepted", bad);
	}
}

KIT_CHECK("C20", c20);

/* ---------- C22 ---------- */

string
to_hex(vector<uint8_t> const& v)
{
	string s;
	for (auto i: v) {
		char b[3];
		snprintf(b, sizeof(b), "%02x", i);
		s += b;
	}
	return s;
}

vector<uint8_t>
value_of(dcp::Key const& k)
{
	return vector<uint8_t>(k.value(), k.value() + k.length());
}

string
encode64(vector<uint8_t> const& v)
{
	vector<unsigned char> out(4 * ((v.size() + 2) / 3) + 1);
	int const n = EVP_EncodeBlock(out.data(), v.data(), v.size());
	return string(out.begin(), out.begin() + n);
}

bool
is_v4(string const& u)
{
	if (u.length() != 36) {
		return false;
	}
	for (int i = 0; i < 36; ++i) {
		bool const dash = i == 8 || i == 13 || i == 18 || i == 23;
		if (dash ? u[i] != '-' : !isxdigit(static_cast<unsigned char>(u[i]))) {
			return false;
		}
	}
	return u[14] == '4' && strchr("89abAB", u[19]);
}

void
c22()
{
	rule("keys of every length through hex, copies and assignments; base64 against OpenSSL's encoder; identifiers generated alone and by eight threads");
	auto const n = budget(6000, 200000);
	for (size_t i = 0; i < n; ++i) {
		auto const bytes = rng.bytes(rng.chance(0.5) ? 16 : rng.below(70));
		begin_case("key " + to_hex(bytes).substr(0, 64) + " " + std::to_string(bytes.size()), !bytes.empty());
		vector<uint8_t> const filler(1);
		dcp::Key const key(bytes.empty() ? filler.data() : bytes.data(), static_cast<int>(bytes.size()));
		EXPECT(value_of(key) == bytes, "key-from-bytes", to_hex(bytes));
		EXPECT(key.hex() == to_hex(bytes), "key-hex", key.hex());
		if (!bytes.empty()) {
			dcp::Key const back(rng.coin() ? key.hex() : upper(key.hex()));
			EXPECT(value_of(back) == bytes && back == key && !(back != key), "key-round-trip", to_hex(bytes) << " came back as " << back.hex());
		}

		dcp::Key copy(key);
		EXPECT(value_of(copy) == bytes && copy == key, "key-copy", to_hex(bytes));
		auto const other_bytes = rng.bytes(rng.below(70));
		dcp::Key other(other_bytes.empty() ? filler.data() : other_bytes.data(), static_cast<int>(other_bytes.size()));
		EXPECT((other == key) == (other_bytes == bytes) && (other != key) == (other_bytes != bytes), "key-equality", to_hex(bytes) << " and " << to_hex(other_bytes));
		{
			dcp::Key assigned(other);
			assigned = key;
			EXPECT(value_of(assigned) == bytes && assigned == key, "key-assign", to_hex(bytes) << " over " << to_hex(other_bytes));
			assigned = *&assigned;
			EXPECT(value_of(assigned) == bytes, "key-self-assign", to_hex(bytes));
			assigned = other;
			EXPECT(value_of(assigned) == other_bytes, "key-assign", to_hex(other_bytes) << " over " << to_hex(bytes));
			EXPECT(assigned.value() != other.value() || other.length() == 0, "key-independent", "assigned key shares storage");
		}
		EXPECT(value_of(key) == bytes && value_of(copy) == bytes && value_of(other) == other_bytes, "key-undisturbed", "after copies died");
		if (!bytes.empty()) {
			auto changed = bytes;
			changed[rng.below(changed.size())] ^= 1 << rng.below(8);
			EXPECT(dcp::Key(changed.data(), static_cast<int>(changed.size())) != key, "key-single-bit", to_hex(bytes));
		}

		/* Malformed */
		auto bad = key.hex();
		switch (rng.below(3)) {
		case 0: bad += rng.from("0123456789abcdef", 1); break;
		case 1: bad.insert(rng.below(bad.length() + 1), 2, rng.from("ghxyz -:", 1)[0]); break;
		default: if (bad.empty()) { bad = "zz"; } else { bad[rng.below(bad.length())] = rng.from("gGzZ-./:@`", 1)[0]; } break;
		}
		bool accepted = true;
		try {
			dcp::Key k(bad);
		} catch (std::exception&) {
			accepted = false;
		}
		EXPECT(!accepted, "key-malformed-accepted", bad);

		/* base64 */
		auto const data = rng.bytes(rng.below(rng.chance(0.1) ? 3000 : 80) + 1);
		auto text = encode64(data);
		if (rng.coin()) {
			/* in lines, as in PEM */
			size_t const width = rng.coin() ? 64 : rng.range(1, 100);
			for (size_t p = width; p < text.length(); p += width + 1) {
				text.insert(p, "\n");
			}
			if (rng.coin()) {
				text += "\n";
			}
		}
		auto const slack = rng.below(10);
		vector<uint8_t> out(data.size() + slack, 0x5a);
		int const got = dcp::base64_decode(text, out.data(), out.size());
		EXPECT(got == static_cast<int>(data.size()) && std::equal(data.begin(), data.end(), out.begin()), "base64", got << " bytes of " << data.size());
		bool const clean = std::all_of(out.begin() + std::min(data.size(), out.size()), out.end(), [](uint8_t b) { return b == 0x5a; });
		EXPECT(clean || got != static_cast<int>(data.size()), "base64-beyond", "bytes after the end changed");
		/* into too small a space: no more than that */
		if (data.size() > 2) {
			size_t const room = rng.range(1, data.size() - 1);
			vector<uint8_t> small(room);
			int const m = dcp::base64_decode(text, small.data(), room);
			EXPECT(m <= static_cast<int>(room) && std::equal(small.begin(), small.begin() + std::max(m, 0), data.begin()), "base64-bounded", m << " into " << room);
		}
	}

	/* Random keys and identifiers, also from several threads */
	std::mutex mutex;
	std::set<string> ids, keys;
	size_t made = 0;
	auto const per = budget(3000, 60000);
	auto work = [&](bool) {
		vector<string> my_ids, my_keys;
		for (size_t i = 0; i < per; ++i) {
			my_ids.push_back(dcp::make_uuid());
			if (i % 8 == 0) {
				my_keys.push_back(dcp::Key().hex());
			}
		}
		std::lock_guard<std::mutex> lm(mutex);
		ids.insert(my_ids.begin(), my_ids.end());
		keys.insert(my_keys.begin(), my_keys.end());
		made += my_ids.size();
	};
	begin_case("identifiers from one thread");
	work(true);
	begin_case("identifiers from eight threads");
	vector<std::thread> threads;
	for (int i = 0; i < 8; ++i) {
		threads.emplace_back(work, false);
	}
	for (auto& i: threads) {
		i.join();
	}
	EXPECT(ids.size() == made, "identifier-repeats", made << " made, " << ids.size() << " different");
	EXPECT(keys.size() == 9 * ((per + 7) / 8), "key-repeats", keys.size() << " different");
	for (auto const& i: ids) {
		EXPECT(is_v4(i), "identifier-form", i);
	}
	for (auto const& i: keys) {
		EXPECT(i.length() == 32, "key-length", i);
	}
	count("identifiers", made);

	/* urn:uuid: and comparison of identifiers */
	for (size_t i = 0; i < budget(500, 5000); ++i) {
		auto const id = dcp::make_uuid();
		auto const another = dcp::make_uuid();
		begin_case("urn " + std::to_string(i));
		EXPECT(dcp::remove_urn_uuid("urn:uuid:" + id) == id, "urn", id);
		bool accepted = true;
		try {
			dcp::remove_urn_uuid(rng.pick({string(""), id, "urn:" + id, "urn:uuid" + id, " urn:uuid:" + id, string("urn:uui"), string("uuid:") + id}));
		} catch (std::exception&) {
			accepted = false;
		}
		EXPECT(!accepted, "urn-malformed-accepted", id);
		EXPECT(!dcp::remove_urn_uuid(boost::optional<string>()), "urn-none", id);
		EXPECT(dcp::ids_equal(id, upper(id)) && dcp::ids_equal(" " + id + "\n", id), "ids-equal", id);
		EXPECT(!dcp::ids_equal(id, another) && !dcp::ids_equal(id, id.substr(1)), "ids-differ", id);
	}
}

KIT_CHECK("C22", c22);

/* ---------- C23 ---------- */

string
sha1(string const& s)
{
	unsigned char d[20];
	unsigned int n = 0;
	EVP_Digest(s.data(), s.length(), d, &n, EVP_sha1(), nullptr);
	return encode64(vector<uint8_t>(d, d + n));
}

void
c23()
{
	rule("digests of files and blocks of boundary and random lengths against OpenSSL's EVP digest; every progress call checked");
	auto const dir = fresh_dir("digests");
	vector<size_t> sizes = {
		0, 1, 2, 3, 19, 20, 55, 56, 57, 63, 64, 65, 119, 127, 128, 4095, 4096, 4097, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 65538, 131071, 131072, 131073, 196608, 300000
	};
	auto const extra = budget(150, 4000);
	for (size_t i = 0; i < extra; ++i) {
		sizes.push_back(rng.chance(0.3) ? rng.below(400000) : rng.chance(0.5) ? rng.below(5) * 65536 + rng.below(5) : rng.below(3000));
	}
	if (opt.shard == 0) {
		sizes.push_back(3 << 20);
	}
	for (size_t i = 0; i < sizes.size(); ++i) {
		auto const b = rng.bytes(sizes[i]);
		string content(b.begin(), b.end());
		auto const want = sha1(content);
		begin_case("digest " + std::to_string(sizes[i]) + " " + want, sizes[i] > 0);
		auto const path = dir + "/f" + std::to_string(i % 4) + (i % 3 ? "" : " \xc3\xa9");
		write_file(path, content);

		EXPECT(dcp::make_digest(path, {}) == want, "file-digest", sizes[i] << " bytes");
		vector<std::pair<int64_t, int64_t>> calls;
		EXPECT(dcp::make_digest(path, [&](int64_t d, int64_t t) { calls.push_back({d, t}); }) == want, "file-digest-with-progress", sizes[i] << " bytes");
		int64_t last = 0;
		for (auto const& c: calls) {
			EXPECT(c.second == static_cast<int64_t>(sizes[i]), "progress-total", c.second << " rather than " << sizes[i]);
			EXPECT(c.first >= last && c.first <= c.second, "progress-range", c.first << " after " << last << " of " << c.second);
			last = c.first;
		}
		if (sizes[i]) {
			EXPECT(!calls.empty() && last == static_cast<int64_t>(sizes[i]), "progress-end", "finished at " << last << " of " << sizes[i]);
		}
		count("progress calls", calls.size());

		dcp::ArrayData const data(reinterpret_cast<uint8_t const*>(content.data()), content.size());
		EXPECT(dcp::make_digest(data) == want, "block-digest", sizes[i] << " bytes");

		/* one bit matters */
		if (sizes[i]) {
			auto const at = rng.chance(0.5) ? sizes[i] - 1 : rng.below(sizes[i]);
			content[at] ^= 1 << rng.below(8);
			write_file(path, content);
			EXPECT(dcp::make_digest(path, {}) == sha1(content), "changed-file-digest", "byte " << at << " of " << sizes[i]);
		}
	}

	/* A progress function which throws must not be swallowed */
	{
		struct Stop {};
		write_file(dir + "/stop", string(200000, 'x'));
		begin_case("progress throws");
		bool stopped = false;
		try {
			dcp::make_digest(dir + "/stop", [](int64_t, int64_t) { throw Stop(); });
		} catch (Stop&) {
			stopped = true;
		}
		EXPECT(stopped, "progress-exception", "exception from progress function was lost");
	}

	/* Things with no digest */
	write_file(dir + "/secret", "secret");
	chmod((dir + "/secret").c_str(), 0);
	mkdir((dir + "/directory").c_str(), 0777);
	if (symlink("nowhere", (dir + "/dangling").c_str())) {
		harness_error("could not make symlink");
	}
	for (auto const& bad: { dir + "/missing", dir + "/secret", dir + "/directory", dir + "/dangling", dir + "/missing/below", string(""), string("/proc/self/mem") }) {
		begin_case("no digest " + bad.substr(bad.rfind('/') + 1));
		string got;
		bool threw = false;
		try {
			got = dcp::make_digest(bad, {});
		} catch (std::exception&) {
			threw = true;
		}
		EXPECT(threw, "digest-of-unreadable", bad << " gave " << got);
	}
	chmod((dir + "/secret").c_str(), 0600);

	/* Concurrently */
	vector<std::pair<string, string>> files;
	for (int i = 0; i < 8; ++i) {
		auto const b = rng.bytes(100000 + rng.below(200000));
		string const content(b.begin(), b.end());
		files.push_back({dir + "/c" + std::to_string(i), sha1(content)});
		write_file(files.back().first, content);
	}
	auto const rounds = budget(10, 100);
	begin_case("concurrent digests");
	std::atomic<int> wrong(0), right(0);
	vector<std::thread> threads;
	for (int t = 0; t < 8; ++t) {
		threads.emplace_back([&, t]() {
			for (size_t r = 0; r < rounds; ++r) {
				auto const& f = files[(t + r) % 8];
				(dcp::make_digest(f.first, {}) == f.second ? right : wrong)++;
			}
		});
	}
	for (auto& t: threads) {
		t.join();
	}
	observed(right + wrong);
	EXPECT(wrong == 0, "concurrent-digest", wrong << " wrong");
	remove_tree(dir);
}

KIT_CHECK("C23", c23);

/* ---------- C24 ---------- */

typedef dcp::LanguageTag LT;

std::map<string, vector<string>> registry;

void
read_registry()
{
	for (auto const& name: { "language", "script", "region", "variant", "extlang", "dcnc" }) {
		std::ifstream f(opt.repo + "/tags/" + name);
		string a, b;
		while (std::getline(f, a) && std::getline(f, b)) {
			registry[name].push_back(a);
		}
		if (registry[name].size() < 50) {
			harness_error(string("could not read the list of registered subtags for ") + name);
		}
	}
}

string
lower(string s)
{
	for (auto& c: s) {
		c = tolower(c);
	}
	return s;
}

bool
registered(string const& list, string const& word)
{
	static std::map<string, std::set<string>> sets;
	auto& s = sets[list];
	if (s.empty()) {
		for (auto const& i: registry[list]) {
			s.insert(lower(i));
		}
	}
	return s.count(lower(word));
}

struct Parts
{
	string language, script, region;
	vector<string> variants, extlangs;

	string text() const {
		auto s = language;
		if (!script.empty()) {
			s += "-" + script;
		}
		if (!region.empty()) {
			s += "-" + region;
		}
		for (auto const& v: variants) {
			s += "-" + v;
		}
		for (auto const& e: extlangs) {
			s += "-" + e;
		}
		return s;
	}
};

Parts
random_parts(bool extlangs)
{
	Parts p;
	p.language = rng.pick(registry["language"]);
	if (rng.coin()) {
		p.script = rng.pick(registry["script"]);
	}
	if (rng.coin()) {
		p.region = rng.pick(registry["region"]);
	}
	auto distinct = [](vector<string> const& list, size_t n) {
		std::set<string> seen;
		vector<string> out;
		while (out.size() < n) {
			auto const w = rng.pick(list);
			if (seen.insert(lower(w)).second) {
				out.push_back(w);
			}
		}
		return out;
	};
	p.variants = distinct(registry["variant"], rng.chance(0.5) ? 0 : rng.below(4));
	if (extlangs) {
		p.extlangs = distinct(registry["extlang"], rng.below(3));
	}
	return p;
}

template <class T>
vector<string>
names(vector<T> const& v)
{
	vector<string> s;
	for (auto const& i: v) {
		s.push_back(i.subtag());
	}
	return s;
}

/** Independent decision: is this text, under the library's order of subtags, a tag of registered subtags? */
bool
acceptable(string const& text)
{
	vector<string> parts(1);
	for (auto c: text) {
		if (c == '-') {
			parts.push_back("");
		} else {
			parts.back() += c;
		}
	}
	size_t p = 0;
	if (!registered("language", parts[p++])) {
		return false;
	}
	if (p < parts.size() && registered("script", parts[p])) {
		++p;
	}
	if (p < parts.size() && registered("region", parts[p])) {
		++p;
	}
	std::set<string> seen;
	while (p < parts.size() && registered("variant", parts[p])) {
		if (!seen.insert(parts[p]).second) {
			return false;
		}
		++p;
	}
	while (p < parts.size() && registered("extlang", parts[p])) {
		if (!seen.insert(parts[p]).second) {
			return false;
		}
		++p;
	}
	return p == parts.size();
}

void
c24()
{
	rule("tags built from every registered subtag; parsed parts, printing, setters, ordering; mutated and reordered tags must be rejected");
	assumption("the registered subtags are those in the repository's tags directory");
	read_registry();
	dcp::load_language_tag_lists(opt.repo + "/tags");

	struct List { string name; LT::SubtagType type; };
	vector<List> const lists = {
		{"language", LT::SubtagType::LANGUAGE}, {"script", LT::SubtagType::SCRIPT}, {"region", LT::SubtagType::REGION}, {"variant", LT::SubtagType::VARIANT}, {"extlang", LT::SubtagType::EXTLANG}
	};
	if (opt.shard == 0) {
		for (auto const& l: lists) {
			auto const& all = LT::get_all(l.type);
			begin_case("registry " + l.name);
			EXPECT(all.size() == registry[l.name].size(), "registry-size", l.name << " has " << all.size());
			std::set<string> have;
			for (auto const& i: all) {
				have.insert(i.subtag);
			}
			for (size_t i = 0; i < registry[l.name].size(); i += l.name == "language" ? 37 : 3) {
				auto const& w = registry[l.name][i];
				EXPECT(have.count(w), "registry-entry", l.name << " " << w);
				auto const d = LT::get_subtag_data(l.type, rng.coin() ? w : lower(w));
				EXPECT(d && d->subtag == w, "registry-lookup", l.name << " " << w);
				EXPECT(LT::get_subtag_description(l.type, w) && d && *LT::get_subtag_description(l.type, w) == d->description, "registry-description", w);
			}
		}
	}

	vector<LT> tags;
	auto const n = budget(2500, 60000);
	for (size_t i = 0; i < n; ++i) {
		auto const p = random_parts(true);
		auto const text = p.text();
		begin_case("tag " + text, text != p.language);
		try {
			LT const tag(text);
			EXPECT(tag.as_string() == text, "print", text << " printed as " << tag.as_string());
			EXPECT(tag.language() && tag.language()->subtag() == p.language, "parsed-language", text);
			EXPECT(bool(tag.script()) == !p.script.empty() && (!tag.script() || tag.script()->subtag() == p.script), "parsed-script", text);
			EXPECT(bool(tag.region()) == !p.region.empty() && (!tag.region() || tag.region()->subtag() == p.region), "parsed-region", text);
			EXPECT(names(tag.variants()) == p.variants, "parsed-variants", text);
			EXPECT(names(tag.extlangs()) == p.extlangs, "parsed-extlangs", text);
			auto const sub = tag.subtags();
			EXPECT(sub.size() == 1 + !p.script.empty() + !p.region.empty() + p.variants.size() + p.extlangs.size(), "subtags", text << " has " << sub.size());
			string joined;
			for (auto const& s: sub) {
				joined += (joined.empty() ? "" : "-") + s.second.subtag;
			}
			EXPECT(joined == text, "subtags-order", text << " gives " << joined);
			EXPECT(!tag.description().empty(), "description", text);

			/* built with setters, in any order */
			LT built;
			vector<int> order = {0, 1, 2, 3, 4};
			rng.shuffle(order);
			bool const one_by_one = rng.coin();
			for (auto o: order) {
				switch (o) {
				case 0: built.set_language(p.language); break;
				case 1: if (!p.script.empty()) { built.set_script(p.script); } break;
				case 2: if (!p.region.empty()) { built.set_region(p.region); } break;
				case 3: {
					if (one_by_one) {
						for (auto const& v: p.variants) { built.add_variant(v); }
					} else {
						vector<LT::VariantSubtag> v;
						for (auto const& x: p.variants) { v.push_back(x); }
						built.set_variants(v);
					}
					break;
				}
				case 4: {
					if (one_by_one) {
						for (auto const& v: p.extlangs) { built.add_extlang(v); }
					} else {
						vector<LT::ExtlangSubtag> v;
						for (auto const& x: p.extlangs) { v.push_back(x); }
						built.set_extlangs(v);
					}
					break;
				}
				}
			}
			EXPECT(built == tag && !(built != tag) && built.as_string() == text, "setters", text << " built as " << built.as_string());

			/* duplicates refused by every route */
			if (!p.variants.empty()) {
				auto const v = rng.pick(p.variants);
				bool threw = false;
				try { built.add_variant(v); } catch (std::exception&) { threw = true; }
				EXPECT(threw && built == tag, "duplicate-variant-added", text << " and " << v);
				vector<LT::VariantSubtag> twice(built.variants());
				twice.insert(twice.begin() + rng.below(twice.size() + 1), v);
				threw = false;
				try { built.set_variants(twice); } catch (std::exception&) { threw = true; }
				EXPECT(threw && built == tag, "duplicate-variant-set", text << " and " << v);
				auto q = p;
				q.variants.insert(q.variants.begin() + rng.below(q.variants.size() + 1), v);
				threw = false;
				try { LT t(q.text()); } catch (std::exception&) { threw = true; }
				EXPECT(threw, "duplicate-variant-parsed", q.text());
			}
			if (!p.extlangs.empty()) {
				auto const v = rng.pick(p.extlangs);
				bool threw = false;
				try { built.add_extlang(v); } catch (std::exception&) { threw = true; }
				EXPECT(threw && built == tag, "duplicate-extlang-added", text << " and " << v);
				auto q = p;
				q.extlangs.push_back(v);
				threw = false;
				try { LT t(q.text()); } catch (std::exception&) { threw = true; }
				EXPECT(threw, "duplicate-extlang-parsed", q.text());
			}

			if (!tags.empty()) {
				auto const& o = rng.chance(0.1) ? tag : rng.pick(tags);
				EXPECT((o == tag) == (o.as_string() == text) && (o != tag) == (o.as_string() != text), "equality", o.as_string() << " and " << text);
				EXPECT((o < tag) == (o.as_string() < text), "ordering", o.as_string() << " and " << text);
			}
			tags.push_back(tag);
		} catch (std::exception& e) {
			violation("well-formed-rejected", text + ": " + e.what());
		}

		/* Mutations */
		auto m = text;
		switch (rng.below(7)) {
		case 0: m += "-"; break;
		case 1: m = "-" + m; break;
		case 2: m.insert(rng.below(m.length() + 1), rng.from("abcXYZ019-_ .", 1)); break;
		case 3: m.erase(rng.below(m.length()), 1); break;
		case 4: m[rng.below(m.length())] = rng.from("abcdefghijklmnopqrstuvwxyzABC0123456789-_ ", 1)[0]; break;
		case 5: m = p.script + "-" + p.language + "-" + p.region; break;
		default: m = p.language + "-" + rng.pick(registry["region"]) + "-" + rng.pick(registry["script"]); break;
		}
		bool accepted = true;
		string became;
		try {
			became = LT(m).as_string();
		} catch (std::exception&) {
			accepted = false;
		}
		bool const want = acceptable(m);
		EXPECT(accepted == want, want ? "mutant-rejected" : "malformed-accepted", m << " became " << became);
		if (accepted) {
			EXPECT(became == m, "mutant-print", m << " printed as " << became);
		}
		count(want ? "mutants still well formed" : "malformed tags");
	}

	for (auto const& bad: { "", "-", "x", "qqqq", "en--GB", "en-", " en", "en ", "en_GB", "en-GB-US", "en-Latn-Cyrl", "GB" }) {
		bool accepted = true;
		try {
			LT t((string(bad)));
		} catch (std::exception&) {
			accepted = false;
		}
		EXPECT(!accepted, "malformed-accepted", bad);
	}
	{
		LT empty;
		bool threw = false;
		try { empty.as_string(); } catch (std::exception&) { threw = true; }
		EXPECT(threw, "no-language", "tag without a language printed");
	}
	/* RFC 5646 puts extended language subtags straight after the language */
	for (auto const& t: { "zh-cmn-Hans-CN", "ar-afb-Arab", "zh-yue-HK" }) {
		begin_case(string("extlang ") + t);
		bool accepted = true;
		try {
			LT x((string(t)));
		} catch (std::exception&) {
			accepted = false;
		}
		EXPECT(accepted, "extlang-position", t << " rejected");
	}
}

KIT_CHECK("C24", c24);

}
