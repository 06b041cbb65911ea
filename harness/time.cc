/* C08, C09, C10: LocalTime against an independent calendar. */
#include "kit.h"
#include "local_time.h"
#include "utc_offset.h"
#include <boost/date_time/posix_time/posix_time.hpp>
#include <boost/date_time/gregorian/gregorian.hpp>
#include <algorithm>
#include <cstdio>

using namespace kit;
using std::string;
using std::vector;

namespace {

/* An independent model: plain civil fields, days-from-civil arithmetic */

int64_t days_from_civil(int64_t y, int m, int d)
{
	y -= m <= 2;
	int64_t const era = (y >= 0 ? y : y - 399) / 400;
	int64_t const yoe = y - era * 400;
	int64_t const doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
	int64_t const doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	return era * 146097 + doe - 719468;
}

void civil_from_days(int64_t z, int& y, int& m, int& d)
{
	z += 719468;
	int64_t const era = (z >= 0 ? z : z - 146096) / 146097;
	int64_t const doe = z - era * 146097;
	int64_t const yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
	int64_t const doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
	int64_t const mp = (5 * doy + 2) / 153;
	d = doy - (153 * mp + 2) / 5 + 1;
	m = mp + (mp < 10 ? 3 : -9);
	y = yoe + era * 400 + (m <= 2);
}

bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
int month_length(int y, int m) { static int const n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : n[m - 1]; }

struct Model
{
	int year, month, day, hour, minute, second, ms;
	/** signed offset in minutes */
	int offset;

	int64_t local_ms() const { return ((((days_from_civil(year, month, day) * 24 + hour) * 60) + minute) * 60 + second) * 1000 + ms; }
	int64_t utc_ms() const { return local_ms() - int64_t(offset) * 60000; }
	void set_local(int64_t t) {
		int64_t day_ms = 86400000;
		int64_t days = t / day_ms;
		int64_t rem = t % day_ms;
		if (rem < 0) { rem += day_ms; --days; }
		civil_from_days(days, year, month, day);
		hour = rem / 3600000; minute = rem / 60000 % 60; second = rem / 1000 % 60; ms = rem % 1000;
	}
	string offset_text() const { char b[16]; snprintf(b, sizeof(b), "%c%02d:%02d", offset < 0 ? '-' : '+', abs(offset) / 60, abs(offset) % 60); return b; }
	string date() const { char b[32]; snprintf(b, sizeof(b), "%04d-%02d-%02d", year, month, day); return b; }
	string tod(bool s, bool m) const {
		char b[32];
		if (m) { snprintf(b, sizeof(b), "%02d:%02d:%02d.%03d", hour, minute, second, ms); }
		else if (s) { snprintf(b, sizeof(b), "%02d:%02d:%02d", hour, minute, second); }
		else { snprintf(b, sizeof(b), "%02d:%02d", hour, minute); }
		return b;
	}
	string text(bool with_ms = true, bool tz = true) const { return date() + "T" + tod(true, with_ms) + (tz ? offset_text() : ""); }
	dcp::UTCOffset utc_offset() const { return dcp::UTCOffset(offset / 60, offset % 60); }
	boost::posix_time::ptime ptime() const {
		return boost::posix_time::ptime(boost::gregorian::date(year, month, day), boost::posix_time::time_duration(hour, minute, second, ms * 1000));
	}
	dcp::LocalTime via_ptime() const { return dcp::LocalTime(ptime(), utc_offset()); }
};

vector<int> const interesting_years = {1970, 1999, 2000, 2001, 2004, 2012, 2019, 2023, 2024, 2038, 2049, 2050, 2069, 2100, 2199, 2399, 2400};

int random_offset()
{
	switch (rng.below(7)) {
	case 0: return 0;
	case 1: return int(rng.range(-12, 14)) * 60;
	case 2: return rng.pick({-30, 30, -15, 15, -59, 59, -1, 1});
	case 3: return rng.pick({-570, 330, 345, 525, 765, -210, -479, 570, 630, 765, -150});
	default: return int(rng.range(-12 * 60, 14 * 60));
	}
}

Model random_model()
{
	Model m;
	m.year = rng.chance(0.4) ? rng.pick(interesting_years) : int(rng.range(1975, 2300));
	m.month = rng.chance(0.4) ? rng.pick({1, 2, 3, 12}) : int(rng.range(1, 12));
	int const len = month_length(m.year, m.month);
	m.day = rng.chance(0.4) ? rng.pick({1, len, len - 1, std::min(len, 28)}) : int(rng.range(1, len));
	m.hour = rng.chance(0.4) ? rng.pick({0, 23, 11, 12}) : int(rng.range(0, 23));
	m.minute = rng.chance(0.4) ? rng.pick({0, 59, 29, 30, 31}) : int(rng.range(0, 59));
	m.second = rng.chance(0.4) ? rng.pick({0, 59}) : int(rng.range(0, 59));
	m.ms = rng.chance(0.5) ? rng.pick({0, 1, 5, 10, 99, 100, 999, 500}) : int(rng.range(0, 999));
	m.offset = random_offset();
	return m;
}

/** @return a model near to another, so that field-by-field comparison is decided late */
Model near(Model m)
{
	static int64_t const steps[] = {0, 1, 500, 999, 1000, 59000, 60000, 1800000, 3600000, 86400000, 86400000LL * 31, 86400000LL * 365};
	int64_t const k = steps[rng.below(12)] * rng.range(-2, 2);
	int64_t t = m.utc_ms() + k;
	if (rng.chance(0.7)) {
		m.offset = random_offset();
	}
	m.set_local(t + int64_t(m.offset) * 60000);
	return m;
}

/** Make a LocalTime from a model, by one of several routes */
dcp::LocalTime make(Model const& m, int how)
{
	switch (how) {
	case 0:
		return m.via_ptime();
	case 1:
		return dcp::LocalTime(m.text());
	default:
	{
		/* fields + offset constructor, then add the rest */
		dcp::LocalTime t(m.year, m.month, m.day, m.hour, m.minute, m.utc_offset());
		t.add(boost::posix_time::seconds(m.second));
		t.add(boost::posix_time::milliseconds(m.ms));
		return t;
	}
	}
}

void fields(dcp::LocalTime const& t, Model const& m, string key)
{
	EXPECT(t.year() == m.year && t.month() == m.month && t.day() == m.day, key + ":date", t.as_string(true) << " expected " << m.text());
	EXPECT(t.hour() == m.hour && t.minute() == m.minute && t.second() == m.second && t.millisecond() == m.ms, key + ":time", t.as_string(true) << " expected " << m.text());
}

/** Every so often pretend that the machine is somewhere else, which must make no difference */
void travel(size_t n)
{
	if (n % 500 == 0) {
		setenv("TZ", rng.pick({"UTC", "XXX-13", "XXX+11", "XXX-5:30", "XXX+3:30", "XXX+0:30", "XXX-12:45"}), 1);
		tzset();
	}
}

void c08()
{
	rule("Random and near-coincident time pairs/triples with offsets from -12:00 to +14:00 incl. sub-hour ones; non-trivial = the two times have different offsets or fields. Oracle: all six operators against the difference of independently computed UTC milliseconds; sort of 40 times per round against model order.");
	size_t const N = budget(60000, 3000000);
	for (size_t n = 0; n < N; ++n) {
		travel(n);
		auto const a = random_model();
		auto const b = rng.chance(0.8) ? near(a) : random_model();
		begin_case("compare " + a.text() + " with " + b.text(), a.text() != b.text());
		auto const ta = make(a, rng.below(3)), tb = make(b, rng.below(3));
		auto const d = a.utc_ms() - b.utc_ms();
		EXPECT((ta == tb) == (d == 0), "order:==", a.text() << " == " << b.text() << " gave " << (ta == tb));
		EXPECT((ta != tb) == (d != 0), "order:!=", a.text() << " != " << b.text());
		EXPECT((ta < tb) == (d < 0), "order:<", a.text() << " < " << b.text() << " gave " << (ta < tb) << " but difference is " << d << " ms");
		EXPECT((ta > tb) == (d > 0), "order:>", a.text() << " > " << b.text() << " gave " << (ta > tb) << " but difference is " << d << " ms");
		EXPECT((ta <= tb) == (d <= 0), "order:<=", a.text() << " <= " << b.text());
		EXPECT((ta >= tb) == (d >= 0), "order:>=", a.text() << " >= " << b.text());
		/* Comparing must not change the times */
		EXPECT(ta.as_string(true) == a.text() && tb.as_string(true) == b.text(), "order:side-effect", ta.as_string(true) << " " << tb.as_string(true));
		if (a.year >= 1970) {
			auto const s = days_from_civil(a.year, a.month, a.day) * 86400 + a.hour * 3600 + a.minute * 60 + a.second;
			EXPECT(ta.as_time_t() == s, "time_t", a.text() << " gave " << ta.as_time_t() << " expected " << s);
		}
		dcp::UTCOffset const oa(a.offset / 60, a.offset % 60), ob(b.offset / 60, b.offset % 60);
		EXPECT((oa == ob) == (a.offset == b.offset), "offset:==", a.text() << " and " << b.text());
		EXPECT((oa != ob) == (a.offset != b.offset), "offset:!=", a.text() << " and " << b.text());
		count(d == 0 ? "same_instant" : (std::abs(d) < 60000 ? "within_a_minute" : "apart"));
	}
	size_t const R = budget(60, 3000);
	for (size_t n = 0; n < R; ++n) {
		travel(n);
		vector<std::pair<dcp::LocalTime, Model>> v;
		auto const base = random_model();
		for (int i = 0; i < 40; ++i) {
			auto const m = near(base);
			v.push_back({make(m, rng.below(2)), m});
		}
		begin_case("sort 40 around " + base.text());
		std::stable_sort(v.begin(), v.end(), [](std::pair<dcp::LocalTime, Model> const& x, std::pair<dcp::LocalTime, Model> const& y) { return x.first < y.first; });
		for (size_t i = 1; i < v.size(); ++i) {
			EXPECT(v[i - 1].second.utc_ms() <= v[i].second.utc_ms(), "order:sort", v[i - 1].second.text() << " before " << v[i].second.text());
		}
	}
}

void c09()
{
	rule("Random times (years 1975-2399, boundary fields over-weighted, offsets -12:00..+14:00) printed in all four forms and re-parsed; grammar-generated texts with 1-9 fraction digits and Z/none/numeric zone; single edits of valid texts that leave the grammar. Oracle: independent formatter/parser. Every case is non-trivial except zero offset with zero milliseconds.");
	size_t const N = budget(40000, 2000000);
	for (size_t n = 0; n < N; ++n) {
		travel(n);
		auto const m = random_model();
		begin_case("print " + m.text(), m.offset != 0 || m.ms != 0);
		auto const t = m.via_ptime();
		fields(t, m, "construct");
		EXPECT(t.date() == m.date(), "print:date", t.date() << " expected " << m.date());
		EXPECT(t.time_of_day(true, true) == m.tod(true, true), "print:tod", t.time_of_day(true, true) << " expected " << m.tod(true, true));
		EXPECT(t.time_of_day(true, false) == m.tod(true, false), "print:tod", t.time_of_day(true, false) << " expected " << m.tod(true, false));
		EXPECT(t.time_of_day(false, false) == m.tod(false, false), "print:tod", t.time_of_day(false, false) << " expected " << m.tod(false, false));
		for (int ms = 0; ms < 2; ++ms) {
			for (int tz = 0; tz < 2; ++tz) {
				auto const s = t.as_string(ms, tz);
				EXPECT(s == m.text(ms, tz), "print:as_string", s << " expected " << m.text(ms, tz));
				try {
					dcp::LocalTime back(s);
					Model e = m;
					if (!ms) { e.ms = 0; }
					if (!tz) { e.offset = 0; }
					fields(back, e, "roundtrip");
					EXPECT(back.as_string(true, true) == e.text(), "roundtrip:offset", back.as_string(true, true) << " expected " << e.text());
					EXPECT(back == make(e, 0), "roundtrip:equal", s);
				} catch (std::exception& e) {
					observed();
					violation("roundtrip:rejected", s + " was rejected: " + e.what());
				}
			}
		}
		std::ostringstream o;
		o << t;
		EXPECT(o.str() == m.text(false, true), "print:stream", o.str());
	}

	size_t const G = budget(40000, 2000000);
	for (size_t n = 0; n < G; ++n) {
		travel(n);
		auto m = random_model();
		string frac;
		if (rng.coin()) {
			frac = rng.from("0123456789", rng.range(1, rng.chance(0.2) ? 12 : 4));
			string f3 = (frac + "000").substr(0, 3);
			m.ms = atoi(f3.c_str());
		} else {
			m.ms = 0;
		}
		int const zone = rng.below(3);
		if (zone < 2) { m.offset = 0; }
		string const s = m.text(false, false) + (frac.empty() ? "" : "." + frac) + (zone == 0 ? "" : zone == 1 ? "Z" : m.offset_text());
		begin_case("parse " + s);
		try {
			dcp::LocalTime t(s);
			fields(t, m, "parse");
			EXPECT(t.as_string(true, true) == m.text(), "parse:text", s << " read as " << t.as_string(true, true) << " expected " << m.text());
			count("parsed");
		} catch (std::exception& e) {
			observed();
			violation("parse:rejected", s + " was rejected: " + e.what());
		}
	}

	/* Texts which are not of the required shape */
	size_t const B = budget(40000, 1000000);
	for (size_t n = 0; n < B; ++n) {
		travel(n);
		auto m = random_model();
		int const zone = rng.below(3);
		string s = m.text(rng.coin(), false) + (zone == 0 ? "" : zone == 1 ? "Z" : m.offset_text());
		switch (rng.below(5)) {
		case 0:
			s[rng.below(s.length())] = rng.pick({'x', ' ', '-', '+', ':', '.', 'T', 'Z', '/', '\0', char(0xc3), '0'});
			break;
		case 1:
			s.erase(rng.below(s.length()), 1);
			break;
		case 2:
			s.insert(rng.below(s.length() + 1), 1, rng.pick({'x', ' ', '-', '+', ':', '.', '0', '9', 'Z'}));
			break;
		case 3:
			s = s.substr(0, rng.below(s.length()));
			break;
		case 4:
			/* An offset which cannot be */
			if (zone == 2) {
				s.replace(s.length() - (rng.coin() ? 5 : 2), 2, std::to_string(rng.range(60, 99)));
			}
			break;
		}
		/* recogniser for the grammar */
		auto ok = [](string const& x) {
			auto digits = [&x](size_t p, size_t n) { for (size_t i = p; i < p + n; ++i) { if (i >= x.length() || !isdigit((unsigned char) x[i])) { return false; } } return true; };
			if (!(digits(0, 4) && digits(5, 2) && digits(8, 2) && digits(11, 2) && digits(14, 2) && digits(17, 2))) { return false; }
			if (x[4] != '-' || x[7] != '-' || x[10] != 'T' || x[13] != ':' || x[16] != ':') { return false; }
			size_t p = 19;
			if (p < x.length() && x[p] == '.') {
				size_t k = 0;
				while (p + 1 + k < x.length() && isdigit((unsigned char) x[p + 1 + k])) { ++k; }
				if (k == 0) { return false; }
				p += 1 + k;
			}
			if (p == x.length()) { return true; }
			if (x[p] == 'Z') { return p + 1 == x.length(); }
			return (x[p] == '+' || x[p] == '-') && x.length() == p + 6 && digits(p + 1, 2) && x[p + 3] == ':' && digits(p + 4, 2) && x[p + 1] < '6' && x[p + 4] < '6';
		};
		bool const valid = ok(s);
		begin_case("reject " + s, !valid);
		try {
			dcp::LocalTime t(s);
			EXPECT(valid, "parse:accepted-malformed", "accepted [" << printable(s) << "] as " << t.as_string(true, true));
			count(valid ? "edited_still_valid" : "accepted_malformed");
		} catch (std::exception& e) {
			observed();
			count("rejected");
		}
	}

	/* ASN.1 */
	size_t const A = budget(20000, 500000);
	for (size_t n = 0; n < A; ++n) {
		travel(n);
		auto m = random_model();
		m.ms = 0; m.offset = 0;
		char b[64];
		if (rng.coin()) {
			snprintf(b, sizeof(b), "%04d%02d%02d%02d%02d%02d%s", m.year, m.month, m.day, m.hour, m.minute, m.second, rng.coin() ? "Z" : "");
			begin_case(string("generalized ") + b);
			auto t = dcp::LocalTime::from_asn1_generalized_time(b);
			EXPECT(t.as_string(true) == m.text(), "asn1:generalized", b << " gave " << t.as_string(true));
		} else {
			m.year = 1970 + rng.below(100);
			m.day = std::min(m.day, month_length(m.year, m.month));
			snprintf(b, sizeof(b), "%02d%02d%02d%02d%02d%02d%s", m.year % 100, m.month, m.day, m.hour, m.minute, m.second, rng.coin() ? "Z" : "");
			begin_case(string("utctime ") + b);
			auto t = dcp::LocalTime::from_asn1_utc_time(b);
			EXPECT(t.as_string(true) == m.text(), "asn1:utc", b << " gave " << t.as_string(true));
		}
	}

	/* The machine's own time zone: a time made from a tm or ptime prints that zone's offset and can be read back */
	for (auto zone: {"UTC", "XXX-13", "XXX+11", "XXX-5:30", "XXX+3:30", "XXX-14", "XXX+12", "XXX-0:30", "XXX+0:30", "XXX-12:45"}) {
		setenv("TZ", zone, 1);
		tzset();
		begin_case(string("zone ") + zone);
		auto const m = random_model();
		dcp::LocalTime t(m.ptime());
		time_t now = time(nullptr);
		struct tm tm;
		localtime_r(&now, &tm);
		auto e = m;
		e.offset = tm.tm_gmtoff / 60;
		EXPECT(t.as_string(true) == e.text(), "zone:offset", zone << ": " << t.as_string(true) << " expected " << e.text());
		try {
			EXPECT(dcp::LocalTime(t.as_string(true)) == t, "zone:roundtrip", t.as_string(true));
		} catch (std::exception& x) {
			violation("zone:rejected", t.as_string(true) + " was rejected: " + x.what());
		}
		struct tm u = tm;
		u.tm_year = m.year - 1900; u.tm_mon = m.month - 1; u.tm_mday = m.day; u.tm_hour = m.hour; u.tm_min = m.minute; u.tm_sec = m.second;
		e.ms = 0;
		EXPECT(dcp::LocalTime(u).as_string(true) == e.text(), "zone:tm", zone << ": " << dcp::LocalTime(u).as_string(true) << " expected " << e.text());
		time_t const before = time(nullptr);
		dcp::LocalTime cur;
		time_t const after = time(nullptr);
		dcp::LocalTime lo(boost::posix_time::from_time_t(before), dcp::UTCOffset()), hi(boost::posix_time::from_time_t(after), dcp::UTCOffset());
		EXPECT(lo <= cur && cur <= hi, "zone:now", zone << ": now is " << cur.as_string(true));
	}
	setenv("TZ", "UTC", 1);
	tzset();
}

void c10()
{
	rule("Histories of 1-6 additions (days, minutes, months, durations; positive, zero, negative; boundary-seeking amounts) from random times. Oracle: independent civil calendar (months keep the day clamped to the month's length, the last day of a month staying the last). Non-trivial = at least one non-zero amount.");
	size_t const N = budget(40000, 2000000);
	for (size_t n = 0; n < N; ++n) {
		travel(n);
		auto m = random_model();
		auto t = make(m, rng.below(2));
		string desc = m.text();
		bool nontrivial = false;
		int const ops = rng.range(1, 6);
		std::ostringstream o;
		vector<std::pair<int, int64_t>> todo;
		for (int i = 0; i < ops; ++i) {
			int const op = rng.below(4);
			int64_t amount = 0;
			switch (op) {
			case 0: amount = rng.chance(0.5) ? rng.pick({0, 1, -1, 28, 30, 31, 365, 366, -365, -31}) : rng.range(-40000, 40000) / (rng.coin() ? 1 : 100); break;
			case 1: amount = rng.chance(0.5) ? rng.pick({0, 1, -1, 59, 60, -60, 1440, -1440, 1439}) : rng.range(-2000000, 2000000); break;
			case 2: amount = rng.chance(0.5) ? rng.pick({0, 1, -1, 11, 12, 13, -12, -13}) : rng.range(-600, 600); break;
			case 3: amount = rng.chance(0.5) ? rng.pick({0, 1, -1, 999, -999, 1000}) : rng.range(-90000000000LL, 90000000000LL) / rng.pick({1, 1000, 1000000}); break;
			}
			todo.push_back({op, amount});
			o << " " << "dnMs"[op] << (amount >= 0 ? "+" : "") << amount;
			nontrivial = nontrivial || amount;
		}
		begin_case(desc + o.str(), nontrivial);
		for (auto const& i: todo) {
			Model e = m;
			int64_t const a = i.second;
			switch (i.first) {
			case 0: e.set_local(m.local_ms() + a * 86400000); break;
			case 1: e.set_local(m.local_ms() + a * 60000); break;
			case 2:
			{
				int64_t const months = int64_t(m.year) * 12 + (m.month - 1) + a;
				e.year = months / 12;
				e.month = months % 12 + 1;
				int const len = month_length(e.year, e.month);
				bool const last = m.day == month_length(m.year, m.month);
				e.day = last ? len : std::min(m.day, len);
				break;
			}
			case 3: e.set_local(m.local_ms() + a); break;
			}
			if (e.year < 1450 || e.year > 9900) { break; }
			switch (i.first) {
			case 0: t.add_days(a); break;
			case 1: t.add_minutes(a); break;
			case 2: t.add_months(a); break;
			case 3: t.add(boost::posix_time::milliseconds(a)); break;
			}
			static char const* names[] = {"days", "minutes", "months", "duration"};
			EXPECT(t.as_string(true) == e.text(), string("add:") + names[i.first], m.text() << " plus " << a << " gave " << t.as_string(true) << " expected " << e.text());
			m = e;
			t = t.as_string(true) == e.text() ? t : make(e, 0);
			count(string("add_") + names[i.first]);
		}
	}
}

KIT_CHECK("C08", c08);
KIT_CHECK("C09", c09);
KIT_CHECK("C10", c10);

}
