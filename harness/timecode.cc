/* C11: DCP timecodes against exact integer arithmetic */
#include "kit.h"
#include "dcp_time.h"
#include "types.h"
#include "exceptions.h"
#include <cmath>

using namespace kit;
using std::string;
using std::vector;
typedef __int128 i128;

namespace {

vector<int> const usual = { 1, 2, 10, 24, 25, 30, 48, 50, 60, 96, 100, 120, 125, 240, 250, 299, 500, 999, 1000 };

int
rate(int limit = 1000)
{
	if (rng.chance(0.7)) {
		return rng.pick(usual);
	}
	return 1 + rng.below(limit);
}

/** A timecode as an exact rational number of seconds: units / tcr */
struct Exact
{
	i128 units;
	i128 tcr;
};

Exact
exact(dcp::Time const& t)
{
	return { (i128(t.h) * 3600 + i128(t.m) * 60 + t.s) * t.tcr + t.e, t.tcr };
}

int
compare(Exact a, Exact b)
{
	auto const l = a.units * b.tcr;
	auto const r = b.units * a.tcr;
	return l < r ? -1 : (l > r ? 1 : 0);
}

string
show(dcp::Time const& t)
{
	std::ostringstream o;
	o << t.h << ":" << t.m << ":" << t.s << ":" << t.e << "@" << t.tcr;
	return o.str();
}

bool
normal(dcp::Time const& t, bool negative = false)
{
	return (negative || t.h >= 0) && t.m >= 0 && t.m < 60 && t.s >= 0 && t.s < 60 && t.e >= 0 && t.e < t.tcr;
}

/** A number biased to the ends of 0..n-1 */
int
field(int n)
{
	switch (rng.below(5)) {
	case 0: return 0;
	case 1: return n - 1;
	case 2: return std::min(n - 1, 1);
	default: return rng.below(n);
	}
}

dcp::Time
random_time(int tcr, int hours = 99)
{
	return dcp::Time(rng.chance(0.5) ? field(3) : field(hours + 1), field(60), field(60), field(tcr), tcr);
}

dcp::Time
near(dcp::Time const& t, int tcr)
{
	/* the same instant (or next to it) at another rate */
	auto units = i128(t.h * 3600 + t.m * 60 + t.s) * tcr + i128(t.e) * tcr / t.tcr + rng.range(-1, 1);
	if (units < 0) {
		units = 0;
	}
	int64_t const seconds = units / tcr;
	return dcp::Time(seconds / 3600, seconds / 60 % 60, seconds % 60, units % tcr, tcr);
}

void
comparisons(dcp::Time const& a, dcp::Time const& b)
{
	int const c = compare(exact(a), exact(b));
	auto const d = show(a) + " and " + show(b) + " exact comparison " + std::to_string(c);
	EXPECT((a < b) == (c < 0), "less", d);
	EXPECT((a > b) == (c > 0), "greater", d);
	EXPECT((a == b) == (c == 0), "equal", d);
	EXPECT((a != b) == (c != 0), "not-equal", d);
	EXPECT((a <= b) == (c <= 0), "less-or-equal", d);
	EXPECT((a >= b) == (c >= 0), "greater-or-equal", d);
	count(c == 0 ? "compared equal" : "compared unequal");
}

void
arithmetic(dcp::Time const& a, dcp::Time const& b)
{
	auto const ea = exact(a), eb = exact(b);
	auto const d = show(a) + " and " + show(b);

	auto const sum = a + b;
	Exact const es = { ea.units * eb.tcr + eb.units * ea.tcr, ea.tcr * eb.tcr };
	EXPECT(compare(exact(sum), es) == 0, "sum", d << " gives " << show(sum));
	EXPECT(normal(sum), "sum-normalised", d << " gives " << show(sum));

	auto const difference = a - b;
	Exact const ed = { ea.units * eb.tcr - eb.units * ea.tcr, ea.tcr * eb.tcr };
	EXPECT(compare(exact(difference), ed) == 0, "difference", d << " gives " << show(difference));
	EXPECT(normal(difference, ed.units < 0), "difference-normalised", d << " gives " << show(difference));

	EXPECT(a + b == b + a, "sum-commutes", d);
	EXPECT((a + b) - b == a, "sum-then-difference", d);

	if (eb.units > 0) {
		double const want = double(ea.units) * double(eb.tcr) / (double(eb.units) * double(ea.tcr));
		double const got = a / b;
		EXPECT(std::fabs(got - want) <= 1e-5 * std::max(1.0, std::fabs(want)), "ratio", d << " gives " << got << " rather than " << want);
	}
}

void
units(dcp::Time const& t)
{
	auto const e = exact(t);
	EXPECT(t.as_editable_units() == int64_t(e.units), "units", show(t) << " gives " << t.as_editable_units());
	int const r = rate(48000);
	i128 const floor = e.units * r / e.tcr;
	i128 const ceil = (e.units * r + e.tcr - 1) / e.tcr;
	EXPECT(t.as_editable_units_floor(r) == int64_t(floor), "units-floor", show(t) << " at " << r << " gives " << t.as_editable_units_floor(r));
	EXPECT(t.as_editable_units_ceil(r) == int64_t(ceil), "units-ceil", show(t) << " at " << r << " gives " << t.as_editable_units_ceil(r));
	double const seconds = double(e.units) / double(e.tcr);
	EXPECT(std::fabs(t.as_seconds() - seconds) < 1e-8, "seconds", show(t) << " gives " << t.as_seconds());
}

void
rebase(dcp::Time const& t)
{
	int const r = rate();
	auto const n = t.rebase(r);
	EXPECT(n.tcr == r, "rebase-rate", show(t) << " to " << r << " gives " << show(n));
	EXPECT(normal(n), "rebase-normalised", show(t) << " to " << r << " gives " << show(n));
	/* |n - t| <= 1 / r */
	auto const e = exact(t), f = exact(n);
	i128 d = f.units * e.tcr - e.units * f.tcr;
	if (d < 0) {
		d = -d;
	}
	EXPECT(d <= e.tcr, "rebase-time", show(t) << " to " << r << " gives " << show(n));
	if (t.tcr && r % t.tcr == 0) {
		EXPECT(n == t, "rebase-exact", show(t) << " to multiple " << r << " gives " << show(n));
	}
}

void
text(dcp::Time const& t)
{
	auto const s = t.as_string(dcp::Standard::SMPTE);
	auto digits = [](int v, size_t n) { auto x = std::to_string(v); return x.length() < n ? string(n - x.length(), '0') + x : x; };
	EXPECT(s == digits(t.h, 2) + ":" + digits(t.m, 2) + ":" + digits(t.s, 2) + ":" + digits(t.e, 2), "smpte-form", show(t) << " printed " << s);
	dcp::Time const back(s, t.tcr);
	EXPECT(back == t && back.h == t.h && back.m == t.m && back.s == t.s && back.e == t.e && back.tcr == t.tcr, "smpte-text", show(t) << " printed " << s << " read as " << show(back));
	if (t.tcr == 250) {
		auto const i = t.as_string(dcp::Standard::INTEROP);
		EXPECT(i == digits(t.h, 2) + ":" + digits(t.m, 2) + ":" + digits(t.s, 2) + ":" + digits(t.e, 3), "interop-form", show(t) << " printed " << i);
		dcp::Time const back(i, boost::none);
		EXPECT(back == t && back.tcr == 250, "interop-text", show(t) << " printed " << i << " read as " << show(back));
	}

	/* Text written here, with or without leading zeros */
	auto two = [](int v) { string x = std::to_string(v); return v < 10 && rng.chance(0.8) ? "0" + x : x; };
	auto unit = [](int v) { string x = std::to_string(v); while (x.length() < 3 && rng.coin()) { x = "0" + x; } return x; };
	if (t.e < 1000) {
		auto const mine = two(t.h) + ":" + two(t.m) + ":" + two(t.s) + ":" + unit(t.e);
		dcp::Time const parsed(mine, t.tcr);
		EXPECT(show(parsed) == show(t), "parse-smpte", mine << " at " << t.tcr << " read as " << show(parsed));
		if (t.e < 250) {
			dcp::Time const interop(mine, boost::none);
			EXPECT(show(interop) == show(dcp::Time(t.h, t.m, t.s, t.e, 250)), "parse-interop", mine << " read as " << show(interop));
		}
		char ms[8];
		snprintf(ms, sizeof(ms), "%03d", t.e);
		auto const decimal = two(t.h) + ":" + two(t.m) + ":" + two(t.s) + "." + ms;
		dcp::Time const dotted(decimal, boost::none);
		EXPECT(show(dotted) == show(dcp::Time(t.h, t.m, t.s, t.e, 1000)), "parse-interop-milliseconds", decimal << " read as " << show(dotted));

		/* Text which is not a timecode */
		vector<string> parts = { two(t.h), two(t.m), two(t.s), unit(t.e) };
		bool const dots = rng.coin();
		bool smpte = !dots && rng.coin();
		switch (rng.below(4)) {
		case 0:
			parts[rng.below(4)] = "";
			break;
		case 1:
		{
			auto& x = parts[rng.below(4)];
			x = string(&x == &parts[3] ? rng.range(4, 6) : rng.range(3, 5), '1');
			break;
		}
		case 2:
			parts.pop_back();
			break;
		case 3:
			parts.push_back("00");
			break;
		}
		string bad;
		for (size_t i = 0; i < parts.size(); ++i) {
			bad += (i ? (dots && i == 3 ? "." : ":") : "") + parts[i];
		}
		bool refused = false;
		try {
			dcp::Time const wrong(bad, smpte ? boost::optional<int>(t.tcr) : boost::none);
			bad += " read as " + show(wrong);
		} catch (std::exception&) {
			refused = true;
		}
		EXPECT(refused, "parse-malformed", bad << (smpte ? " (SMPTE)" : " (Interop)"));
	}
}

void
construct()
{
	/* From a count of units at the same rate: exact */
	int const tcr = rate();
	int64_t const seconds = rng.chance(0.5) ? field(7200) : field(99 * 3600);
	int64_t const frame = std::min<int64_t>(seconds * tcr + field(tcr), INT32_MAX);
	dcp::Time const t(static_cast<int>(frame), double(tcr), tcr);
	auto const d = std::to_string(frame) + " at " + std::to_string(tcr);
	EXPECT(t.as_editable_units() == frame, "from-units", d << " gives " << show(t));
	EXPECT(normal(t), "from-units-normalised", d << " gives " << show(t));

	/* At another rate: nearest unit */
	int const fps = rng.pick({24, 25, 30, 48, 50, 60, 96, 100, 120});
	int64_t const f = rng.chance(0.3) ? field(fps * 10) : rng.below(fps * 36000);
	dcp::Time const u(static_cast<int>(f), double(fps), tcr);
	i128 gap = exact(u).units * fps - i128(f) * tcr;
	gap = gap < 0 ? -gap : gap;
	auto const g = std::to_string(f) + " at " + std::to_string(fps) + " to " + std::to_string(tcr);
	EXPECT(gap * 2 <= fps, "from-frames", g << " gives " << show(u));
	EXPECT(normal(u), "from-frames-normalised", g << " gives " << show(u));

	/* From seconds: nearest unit, and fields in range even just below a whole second */
	double sec = rng.below(36000);
	switch (rng.below(4)) {
	case 0: sec += rng.real(); break;
	case 1: sec += 1 - std::pow(10, -rng.real(0, 9)); break;
	case 2: sec += double(rng.below(tcr)) / tcr; break;
	default: break;
	}
	dcp::Time const v(sec, tcr);
	std::ostringstream h;
	h.precision(17);
	h << sec << " s at " << tcr << " gives " << show(v);
	EXPECT(normal(v), "from-seconds-normalised", h.str());
	EXPECT(std::fabs(double(exact(v).units) / tcr - sec) <= 0.5 / tcr + 1e-9, "from-seconds", h.str());
}

void
c11()
{
	rule("comparison, sum, difference, ratio, unit counts, rebasing and text against exact 128-bit rational arithmetic");
	assumption("rates up to 1000 units per second (48000 for counts), up to 99 hours; sums between rates whose product fits an int");
	auto const cases = budget(60000, 1500000);
	for (size_t i = 0; i < cases; ++i) {
		int const ra = rate(), rb = rng.chance(0.3) ? ra : rate();
		auto const a = random_time(ra);
		auto const b = rng.chance(0.5) ? near(a, rb) : random_time(rb);
		begin_case(show(a) + " " + show(b), ra != rb || compare(exact(a), exact(b)));
		if (ra != rb) {
			count("pairs at different rates");
		}
		comparisons(a, b);
		arithmetic(a, b);
		/* sums have large rates; compare those too */
		comparisons(a + b, rng.coin() ? near(a + b, rate()) : near(a + b, ra * rb));
		units(a);
		rebase(b);
		text(a);
		construct();
	}
}

KIT_CHECK("C11", c11);

}
