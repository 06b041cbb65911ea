/* C12, C14: transfer functions and colour conversion matrices against independent formulae. */
#include "kit.h"
#include "chromaticity.h"
#include "colour_conversion.h"
#include "piecewise_lut.h"
#include "gamma_transfer_function.h"
#include "identity_transfer_function.h"
#include "modified_gamma_transfer_function.h"
#include "s_gamut3_transfer_function.h"
#include "transfer_function.h"
#include <algorithm>
#include <cmath>
#include <functional>
#include <limits>
#include <memory>

using namespace kit;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;
typedef long double real;

namespace {

struct Curve
{
	string name;
	shared_ptr<dcp::TransferFunction> fn;
	std::function<real (real)> forward;
	std::function<real (real)> inverse;
	/** the points where the formula changes, forward and inverse; values within rounding of them may go either way */
	real break_forward = -1000;
	real break_inverse = -1000;
	/** size of the jump at the break points */
	real jump = 0;
	/** range of x for which forward and inverse are defined */
	real min = 0;
	real max = 1;
};

Curve gamma_curve(double g)
{
	Curve c;
	std::ostringstream o;
	o.precision(17);
	o << "gamma " << g;
	c.name = o.str();
	c.fn = make_shared<dcp::GammaTransferFunction>(g);
	c.forward = [g](real x) { return powl(x, g); };
	c.inverse = [g](real x) { return powl(x, 1 / real(g)); };
	c.max = 4;
	return c;
}

Curve modified_curve(double power, double threshold, double A, double B)
{
	Curve c;
	std::ostringstream o;
	o.precision(17);
	o << "modified " << power << " " << threshold << " " << A << " " << B;
	c.name = o.str();
	c.fn = make_shared<dcp::ModifiedGammaTransferFunction>(power, threshold, A, B);
	c.forward = [=](real x) { return x <= threshold ? x / B : powl((x + A) / (1 + real(A)), power); };
	c.inverse = [=](real y) { return y <= real(threshold) / B ? y * B : (1 + real(A)) * powl(y, 1 / real(power)) - A; };
	c.break_forward = threshold;
	c.break_inverse = real(threshold) / B;
	c.jump = fabsl(powl((real(threshold) + A) / (1 + real(A)), power) - real(threshold) / B);
	c.max = 4;
	return c;
}

/** Modified gamma with the linear part meeting the power part */
Curve random_modified()
{
	double const power = rng.real(1.2, 3);
	double const threshold = rng.real(0.005, 0.2);
	double const A = rng.real(0.01, 0.3);
	double const B = threshold / pow((threshold + A) / (1 + A), power);
	return modified_curve(power, threshold, A, B);
}

Curve slog3_curve()
{
	Curve c;
	c.name = "s-log3";
	c.fn = make_shared<dcp::SGamut3TransferFunction>();
	c.forward = [](real x) {
		return x >= 171.2102946929L / 1023 ? powl(10, (x * 1023 - 420) / 261.5L) * (0.18L + 0.01L) - 0.01L : (x * 1023 - 95) * 0.01125L / (171.2102946929L - 95);
	};
	c.inverse = [](real x) {
		return x >= 0.01125L ? (420 + log10l((x + 0.01L) / (0.18L + 0.01L)) * 261.5L) / 1023 : (x * (171.2102946929L - 95) / 0.01125L + 95) / 1023;
	};
	c.break_forward = 171.2102946929L / 1023;
	c.break_inverse = 0.01125L;
	c.jump = 1e-9;
	return c;
}

Curve identity_curve()
{
	Curve c;
	c.name = "identity";
	c.fn = make_shared<dcp::IdentityTransferFunction>();
	c.forward = c.inverse = [](real x) { return x; };
	c.max = 4;
	return c;
}

Curve random_curve()
{
	switch (rng.below(8)) {
	case 0: return gamma_curve(rng.pick({2.2, 2.4, 2.6, 1.0, 1.8}));
	case 1: return gamma_curve(rng.real(0.3, 4));
	case 2: return modified_curve(2.4, 0.04045, 0.055, 12.92);
	case 3: case 4: return random_modified();
	case 5: case 6: return slog3_curve();
	default: return identity_curve();
	}
}

void check_table(Curve const& c, double from, double to, int bits, bool inverse, vector<double> const& lut)
{
	size_t const n = size_t(1) << bits;
	EXPECT(lut.size() == n, "lut:size", c.name << ": " << lut.size() << " entries for " << bits << " bits");
	if (lut.size() != n) {
		return;
	}
	auto const& f = inverse ? c.inverse : c.forward;
	auto const brk = inverse ? c.break_inverse : c.break_forward;
	real worst = 0;
	for (size_t i = 0; i < n; ++i) {
		real const x = from + (real(to) - from) * i / (n - 1);
		real const e = f(x);
		real const tolerance = 1e-9L + 1e-9L * fabsl(e) + (fabsl(x - brk) < 1e-12L ? 2 * c.jump + 1e-6L : 0);
		real const err = fabsl(lut[i] - e);
		worst = std::max(worst, err);
		EXPECT(err <= tolerance, string("lut:value:") + (inverse ? "inverse" : "forward"), c.name << " from " << from << " to " << to << " bits " << bits << " entry " << i << " is " << lut[i] << " expected " << double(e));
		if (!(err <= tolerance)) {
			break;
		}
	}
	note_max("largest_table_error", worst);
	if (to >= from) {
		for (size_t i = 1; i < n; ++i) {
			EXPECT(lut[i] >= lut[i - 1] - c.jump - 1e-12, "lut:monotonic", c.name << " entry " << i << " " << lut[i - 1] << " > " << lut[i]);
		}
	}
}

void c12()
{
	rule("Tables of every function kind (standard and random parameters), both directions, depths 1-16 bits, ranges within and beyond 0..1 (whole, split at a boundary, reversed, single point); every entry compared with a long double evaluation of the documented curve, integer tables with the rounded scaled value, inverse(forward(x)) with x, and look-ups in two-part tables with the entry for the nearest point. Every case is non-trivial except the identity function.");
	size_t const N = budget(700, 12000);
	for (size_t n = 0; n < N; ++n) {
		auto const c = random_curve();
		int const bits = rng.chance(0.1) ? 16 : int(rng.range(1, 12));
		bool const inverse = rng.coin();
		double from = 0, to = 1;
		switch (rng.below(6)) {
		case 0: case 1: break;
		case 2: to = rng.real(0.01, 1); break;
		case 3: from = rng.real(0, 0.99); break;
		case 4: from = rng.real(0, 1); to = rng.real(0, double(c.max)); break;
		case 5: from = to = rng.real(0, 1); break;
		}
		std::ostringstream o;
		o.precision(17);
		o << c.name << (inverse ? " inverse " : " forward ") << from << ".." << to << " " << bits << " bits";
		begin_case(o.str(), c.name != "identity");
		auto const& lut = c.fn->double_lut(from, to, bits, inverse);
		check_table(c, from, to, bits, inverse, lut);

		int const scale = rng.pick({1, 255, 1023, 4095, 65535, 2, 1000000, int(rng.range(1, 1 << 20))});
		auto const& ints = c.fn->int_lut(from, to, bits, inverse, scale);
		EXPECT(ints.size() == size_t(1) << bits, "lut:int-size", ints.size());
		for (size_t i = 0; i < ints.size() && ints.size() == lut.size(); ++i) {
			real const x = from + (real(to) - from) * i / ((size_t(1) << bits) - 1);
			real const e = (inverse ? c.inverse(x) : c.forward(x)) * scale;
			if (!(fabsl(e) < 2147483000.0L)) {
				continue;
			}
			real const tolerance = 0.5L + 1e-6L + 1e-9L * fabsl(e) + (fabsl(x - (inverse ? c.break_inverse : c.break_forward)) < 1e-12L ? 1e-6L * scale + 2 * c.jump * scale : 0);
			EXPECT(fabsl(ints[i] - e) <= tolerance, "lut:int-value", c.name << " scale " << scale << " entry " << i << " is " << ints[i] << " expected " << double(e));
			if (!(fabsl(ints[i] - e) <= tolerance)) {
				break;
			}
		}
		count(inverse ? "inverse_tables" : "forward_tables");

		/* Look-up in a table of two parts */
		{
			double const boundary = rng.pick({0.062, 0.5, 0.01, rng.real(0.02, 0.98)});
			int const low_bits = rng.range(1, 12), high_bits = rng.range(1, 12);
			dcp::PiecewiseLUT2 const two(c.fn, boundary, low_bits, high_bits, inverse, scale);
			auto const& low = c.fn->int_lut(0, boundary, low_bits, inverse, scale);
			auto const& high = c.fn->int_lut(boundary, 1, high_bits, inverse, scale);
			for (int i = 0; i < 60; ++i) {
				double x = rng.chance(0.3) ? boundary + rng.real(-1e-3, 1e-3) : rng.real(0, 1);
				if (rng.chance(0.1)) {
					x = rng.pick({0.0, 1.0, boundary, std::nextafter(boundary, 0.0), std::nextafter(boundary, 1.0)});
				}
				auto const& part = x < boundary ? low : high;
				real const place = (x < boundary ? real(x) / boundary : (real(x) - boundary) / (1 - real(boundary))) * (part.size() - 1);
				auto const got = two.lookup(x);
				bool good = false;
				for (auto nearest: {floorl(place + 0.5L - 1e-6L), floorl(place + 0.5L + 1e-6L)}) {
					good = good || got == part[std::max(0.0L, std::min(real(part.size() - 1), nearest))];
				}
				EXPECT(good, "lut:two-part", c.name << " boundary " << boundary << " bits " << low_bits << "," << high_bits << " scale " << scale << " at " << x << " gave " << got);
			}
			count("two_part_tables");
		}

		/* round trip at points between those of any one table: one-point tables */
		for (int i = 0; i < 40; ++i) {
			double x = rng.chance(0.3) ? rng.real(0, 0.05) : rng.real(0, 1);
			if (rng.chance(0.1)) {
				x = rng.pick({0.0, 1.0, double(c.break_forward > 0 ? c.break_forward : 0.5L), 1e-6, 1 - 1e-9});
			}
			double const y = c.fn->double_lut(x, x, 1, false)[rng.below(2)];
			double const back = c.fn->double_lut(y, y, 1, true)[rng.below(2)];
			/* a jump in the curve at its break point is magnified by the inverse's slope there */
			double const tolerance = 1e-8 + (fabsl(y - c.break_inverse) < 1e-6L ? 1e-4 : 0);
			EXPECT(fabs(back - x) <= tolerance, "lut:inverse", c.name << " takes " << x << " to " << y << " and back to " << back);
			double const z = c.fn->double_lut(x, x, 1, true)[0];
			double const fwd = c.fn->double_lut(z, z, 1, false)[1];
			EXPECT(fabs(fwd - x) <= 1e-8 + (fabsl(z - c.break_forward) < 1e-4L ? 1e-6 : 0), "lut:inverse", c.name << " inverse takes " << x << " to " << z << " and back to " << fwd);
		}
	}
}


typedef boost::numeric::ublas::matrix<double> Matrix;

struct M3 { real v[3][3]; };

M3 inverse(M3 const& m)
{
	auto const& a = m.v;
	real const det = a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
	M3 r;
	for (int i = 0; i < 3; ++i) {
		for (int j = 0; j < 3; ++j) {
			int const p = (j + 1) % 3, q = (j + 2) % 3, s = (i + 1) % 3, t = (i + 2) % 3;
			r.v[i][j] = (a[p][s] * a[q][t] - a[p][t] * a[q][s]) / det;
		}
	}
	return r;
}

M3 mul(M3 const& a, M3 const& b)
{
	M3 r;
	for (int i = 0; i < 3; ++i) {
		for (int j = 0; j < 3; ++j) {
			r.v[i][j] = 0;
			for (int k = 0; k < 3; ++k) {
				r.v[i][j] += a.v[i][k] * b.v[k][j];
			}
		}
	}
	return r;
}

M3 from(Matrix const& m)
{
	M3 r;
	for (int i = 0; i < 3; ++i) {
		for (int j = 0; j < 3; ++j) {
			r.v[i][j] = m(i, j);
		}
	}
	return r;
}

void xyz(dcp::Chromaticity const& c, real out[3])
{
	out[0] = c.x / real(c.y);
	out[1] = 1;
	out[2] = (1 - real(c.x) - c.y) / c.y;
}

M3 expected_rgb_to_xyz(dcp::ColourConversion const& c)
{
	/* columns are the primaries, scaled so that (1, 1, 1) gives white */
	M3 p;
	dcp::Chromaticity const prim[] = { c.red(), c.green(), c.blue() };
	for (int i = 0; i < 3; ++i) {
		p.v[0][i] = prim[i].x;
		p.v[1][i] = prim[i].y;
		p.v[2][i] = 1 - real(prim[i].x) - prim[i].y;
	}
	real w[3];
	xyz(c.white(), w);
	auto const inv = inverse(p);
	for (int i = 0; i < 3; ++i) {
		real s = 0;
		for (int k = 0; k < 3; ++k) {
			s += inv.v[i][k] * w[k];
		}
		for (int k = 0; k < 3; ++k) {
			p.v[k][i] *= s;
		}
	}
	return p;
}

string describe(dcp::ColourConversion const& c)
{
	std::ostringstream o;
	o << "R(" << c.red().x << "," << c.red().y << ") G(" << c.green().x << "," << c.green().y << ") B(" << c.blue().x << "," << c.blue().y << ") W(" << c.white().x << "," << c.white().y << ")";
	if (c.adjusted_white()) {
		o << " A(" << c.adjusted_white()->x << "," << c.adjusted_white()->y << ")";
	}
	return o.str();
}

real largest(M3 const& m)
{
	real l = 0;
	for (auto const& i: m.v) {
		for (auto j: i) {
			l = std::max(l, fabsl(j));
		}
	}
	return l;
}

void check_matrices(dcp::ColourConversion const& c)
{
	auto const a = from(c.rgb_to_xyz());
	auto const b = from(c.xyz_to_rgb());
	auto const e = expected_rgb_to_xyz(c);
	auto const scale = largest(e);
	auto const cond = largest(e) * largest(inverse(e));
	real w[3];
	xyz(c.white(), w);
	for (int i = 0; i < 3; ++i) {
		real sum = 0;
		for (int j = 0; j < 3; ++j) {
			EXPECT(fabsl(a.v[i][j] - e.v[i][j]) < 1e-10L * (1 + cond) * scale, "matrix:rgb_to_xyz", describe(c) << " [" << i << "][" << j << "] is " << double(a.v[i][j]) << " expected " << double(e.v[i][j]));
			sum += a.v[i][j];
		}
		EXPECT(fabsl(sum - w[i]) < 1e-9L * (1 + cond), "matrix:white", describe(c) << " white component " << i << " is " << double(sum) << " expected " << double(w[i]));
	}
	auto const p = mul(a, b), q = mul(b, a);
	for (int i = 0; i < 3; ++i) {
		for (int j = 0; j < 3; ++j) {
			EXPECT(fabsl(p.v[i][j] - (i == j)) < 1e-11L * (1 + cond) && fabsl(q.v[i][j] - (i == j)) < 1e-11L * (1 + cond), "matrix:inverse", describe(c) << " product [" << i << "][" << j << "] is " << double(p.v[i][j]));
		}
	}

	static M3 const bm = {{{ 0.8951L, 0.2664L, -0.1614L }, { -0.7502L, 1.7135L, 0.0367L }, { 0.0389L, -0.0685L, 1.0296L }}};
	M3 expect = {{{ 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }}};
	auto const br = from(c.bradford());
	if (c.adjusted_white()) {
		real g[3], h[3];
		xyz(c.white(), g);
		xyz(*c.adjusted_white(), h);
		M3 d = {{{ 0, 0, 0 }, { 0, 0, 0 }, { 0, 0, 0 }}};
		for (int i = 0; i < 3; ++i) {
			real gi = 0, hi = 0;
			for (int k = 0; k < 3; ++k) {
				gi += bm.v[i][k] * g[k];
				hi += bm.v[i][k] * h[k];
			}
			d.v[i][i] = hi / gi;
		}
		expect = mul(inverse(bm), mul(d, bm));
		for (int i = 0; i < 3; ++i) {
			real got = 0;
			for (int k = 0; k < 3; ++k) {
				got += br.v[i][k] * g[k];
			}
			EXPECT(fabsl(got - h[i]) < 1e-7L * (1 + fabsl(h[0]) + fabsl(h[2]) + largest(br)), "bradford:white", describe(c) << " component " << i << " is " << double(got) << " expected " << double(h[i]));
		}
	}
	for (int i = 0; i < 3; ++i) {
		for (int j = 0; j < 3; ++j) {
			EXPECT(fabsl(br.v[i][j] - expect.v[i][j]) < 1e-7L * (1 + largest(expect)), "bradford:matrix", describe(c) << " [" << i << "][" << j << "] is " << double(br.v[i][j]) << " expected " << double(expect.v[i][j]));
		}
	}
}

shared_ptr<const dcp::TransferFunction> random_fn()
{
	switch (rng.below(4)) {
	case 0: return make_shared<dcp::GammaTransferFunction>(rng.real(1, 3));
	case 1: return make_shared<dcp::ModifiedGammaTransferFunction>(rng.real(1, 3), rng.real(0.01, 0.1), rng.real(0.01, 0.1), rng.real(1, 20));
	case 2: return make_shared<dcp::SGamut3TransferFunction>();
	default: return make_shared<dcp::IdentityTransferFunction>();
	}
}

dcp::Chromaticity near(double x, double y, double d) { return dcp::Chromaticity(x + rng.real(-d, d), y + rng.real(-d, d)); }

dcp::ColourConversion random_conversion()
{
	boost::optional<dcp::Chromaticity> adjusted;
	auto const white = near(0.32, 0.335, 0.05);
	if (rng.chance(0.6)) {
		adjusted = rng.chance(0.2) ? white : near(0.32, 0.335, 0.06);
	}
	return dcp::ColourConversion(
		random_fn(), static_cast<dcp::YUVToRGB>(rng.below(3)),
		near(0.66, 0.31, 0.07), near(0.2, 0.7, 0.12), near(0.13, 0.05, 0.06), white, adjusted, random_fn()
		);
}

/** Change one parameter of a conversion by d */
bool change(dcp::ColourConversion& c, int what, double d)
{
	auto tweak = [d](dcp::Chromaticity v, int axis) { (axis ? v.y : v.x) += d; return v; };
	auto tweak_fn = [d](shared_ptr<const dcp::TransferFunction> f, int param) -> shared_ptr<const dcp::TransferFunction> {
		if (auto g = std::dynamic_pointer_cast<const dcp::GammaTransferFunction>(f)) {
			return make_shared<dcp::GammaTransferFunction>(g->gamma() + d);
		}
		if (auto m = std::dynamic_pointer_cast<const dcp::ModifiedGammaTransferFunction>(f)) {
			return make_shared<dcp::ModifiedGammaTransferFunction>(m->power() + (param == 0) * d, m->threshold() + (param == 1) * d, m->A() + (param == 2) * d, m->B() + (param == 3) * d);
		}
		return {};
	};
	switch (what) {
	case 0: case 1: c.set_red(tweak(c.red(), what)); return true;
	case 2: case 3: c.set_green(tweak(c.green(), what - 2)); return true;
	case 4: case 5: c.set_blue(tweak(c.blue(), what - 4)); return true;
	case 6: case 7: c.set_white(tweak(c.white(), what - 6)); return true;
	case 8: case 9: if (!c.adjusted_white()) { return false; } c.set_adjusted_white(tweak(*c.adjusted_white(), what - 8)); return true;
	case 10: case 11: case 12: case 13: { auto f = tweak_fn(c.in(), what - 10); if (!f) { return false; } c.set_in(f); return true; }
	case 14: case 15: case 16: case 17: { auto f = tweak_fn(c.out(), what - 14); if (!f) { return false; } c.set_out(f); return true; }
	}
	return false;
}

void c14()
{
	rule("All built-in conversions plus random user-specified ones (primaries, white, with/without adjusted white). Oracle: matrices recomputed from the primaries in long double, inverse products, white mapping, Bradford from its definition; approximate equality against every single-parameter change above/below epsilon; built-ins against the published constants. Random conversions are the non-trivial cases, and each built-in.");

	struct Standard { char const* name; dcp::ColourConversion const& c; double r[2], g[2], b[2], w[2]; double in_gamma; dcp::YUVToRGB yuv; double out_gamma; };
	Standard const standards[] = {
		{ "srgb", dcp::ColourConversion::srgb_to_xyz(), {0.64, 0.33}, {0.3, 0.6}, {0.15, 0.06}, {0.3127, 0.329}, -1, dcp::YUVToRGB::REC601, 2.6 },
		{ "rec601", dcp::ColourConversion::rec601_to_xyz(), {0.64, 0.33}, {0.3, 0.6}, {0.15, 0.06}, {0.3127, 0.329}, 2.2, dcp::YUVToRGB::REC601, 2.6 },
		{ "rec709", dcp::ColourConversion::rec709_to_xyz(), {0.64, 0.33}, {0.3, 0.6}, {0.15, 0.06}, {0.3127, 0.329}, 2.2, dcp::YUVToRGB::REC709, 2.6 },
		{ "p3_dci", dcp::ColourConversion::p3_dci_to_xyz(), {0.68, 0.32}, {0.265, 0.69}, {0.15, 0.06}, {0.314, 0.351}, 2.6, dcp::YUVToRGB::REC709, 2.6 },
		{ "p3_d65", dcp::ColourConversion::p3_d65_to_xyz(), {0.68, 0.32}, {0.265, 0.69}, {0.15, 0.06}, {0.3127, 0.329}, 2.6, dcp::YUVToRGB::REC709, 2.6 },
		{ "p3_d60", dcp::ColourConversion::p3_d60_to_xyz(), {0.68, 0.32}, {0.265, 0.69}, {0.15, 0.06}, {0.32168, 0.33767}, 2.6, dcp::YUVToRGB::REC709, 2.6 },
		{ "rec1886", dcp::ColourConversion::rec1886_to_xyz(), {0.64, 0.33}, {0.3, 0.6}, {0.15, 0.06}, {0.3127, 0.329}, 2.4, dcp::YUVToRGB::REC709, 2.6 },
		{ "rec2020", dcp::ColourConversion::rec2020_to_xyz(), {0.708, 0.292}, {0.17, 0.797}, {0.131, 0.046}, {0.3127, 0.329}, 2.4, dcp::YUVToRGB::REC2020, 2.6 },
		{ "s_gamut3", dcp::ColourConversion::s_gamut3_to_xyz(), {0.73, 0.28}, {0.14, 0.855}, {0.1, -0.05}, {0.3127, 0.329}, -2, dcp::YUVToRGB::REC709, -3 },
	};
	auto same = [](dcp::Chromaticity const& c, double const* v) { return fabs(c.x - v[0]) < 1e-9 && fabs(c.y - v[1]) < 1e-9; };
	auto is_gamma = [](shared_ptr<const dcp::TransferFunction> f, double g) {
		if (g == -1) {
			auto m = std::dynamic_pointer_cast<const dcp::ModifiedGammaTransferFunction>(f);
			return m && fabs(m->power() - 2.4) < 1e-9 && fabs(m->threshold() - 0.04045) < 1e-9 && fabs(m->A() - 0.055) < 1e-9 && fabs(m->B() - 12.92) < 1e-9;
		} else if (g == -2) {
			return bool(std::dynamic_pointer_cast<const dcp::SGamut3TransferFunction>(f));
		} else if (g == -3) {
			return bool(std::dynamic_pointer_cast<const dcp::IdentityTransferFunction>(f));
		}
		auto m = std::dynamic_pointer_cast<const dcp::GammaTransferFunction>(f);
		return m && fabs(m->gamma() - g) < 1e-9;
	};
	for (auto const& s: standards) {
		begin_case(string("built-in ") + s.name);
		check_matrices(s.c);
		EXPECT(same(s.c.red(), s.r) && same(s.c.green(), s.g) && same(s.c.blue(), s.b) && same(s.c.white(), s.w), "builtin:primaries", s.name << " " << describe(s.c));
		EXPECT(is_gamma(s.c.in(), s.in_gamma) && is_gamma(s.c.out(), s.out_gamma), "builtin:transfer", s.name);
		EXPECT(s.c.yuv_to_rgb() == s.yuv, "builtin:yuv", s.name);
		EXPECT(!s.c.adjusted_white(), "builtin:adjusted", s.name);
		for (auto const& t: standards) {
			EXPECT(s.c.about_equal(t.c, 1e-6) == (&s == &t), "equal:builtin", s.name << " and " << t.name);
		}
		for (int i = 0; i < 20; ++i) {
			auto c = s.c;
			c.set_adjusted_white(near(0.32, 0.335, 0.06));
			check_matrices(c);
			EXPECT(!c.about_equal(s.c, 1e-6) && !s.c.about_equal(c, 1e-6), "equal:adjusted", s.name);
			c.unset_adjusted_white();
			EXPECT(c.about_equal(s.c, 1e-6), "equal:adjusted", s.name);
			check_matrices(c);
		}
	}

	size_t const N = budget(3000, 100000);
	for (size_t n = 0; n < N; ++n) {
		auto const c = random_conversion();
		begin_case(describe(c));
		check_matrices(c);
		float const epsilon = rng.pick({1e-6f, 1e-4f, 1e-3f});
		EXPECT(c.about_equal(c, epsilon), "equal:reflexive", describe(c));
		auto copy = c;
		EXPECT(c.about_equal(copy, epsilon) && copy.about_equal(c, epsilon), "equal:copy", describe(c));
		for (int what = 0; what < 18; ++what) {
			for (double factor: {0.3, 3.0, -0.3, -3.0, 1000.0}) {
				auto d = c;
				if (!change(d, what, factor * epsilon)) {
					continue;
				}
				if (what >= 10) {
					auto const param = (what - 10) % 4;
					auto const f = what < 14 ? c.in() : c.out();
					if (param > 0 && !std::dynamic_pointer_cast<const dcp::ModifiedGammaTransferFunction>(f)) {
						continue;
					}
				}
				bool const expect = fabs(factor) < 1;
				EXPECT(c.about_equal(d, epsilon) == expect && d.about_equal(c, epsilon) == expect, "equal:sensitive", describe(c) << " parameter " << what << " changed by " << factor << " epsilon gave " << c.about_equal(d, epsilon) << d.about_equal(c, epsilon));
			}
		}
		{
			auto d = c;
			d.set_yuv_to_rgb(static_cast<dcp::YUVToRGB>((int(c.yuv_to_rgb()) + 1 + rng.below(2)) % 3));
			EXPECT(!c.about_equal(d, epsilon) && !d.about_equal(c, epsilon), "equal:yuv", describe(c));
			d = c;
			d.set_out({});
			EXPECT(!c.about_equal(d, epsilon) && !d.about_equal(c, epsilon), "equal:no-out", describe(c));
			EXPECT(d.about_equal(d, epsilon), "equal:no-out", describe(c));
			d = c;
			shared_ptr<const dcp::TransferFunction> other = make_shared<dcp::IdentityTransferFunction>();
			if (std::dynamic_pointer_cast<const dcp::IdentityTransferFunction>(c.in())) {
				other = make_shared<dcp::SGamut3TransferFunction>();
			}
			d.set_in(other);
			EXPECT(!c.about_equal(d, epsilon) && !d.about_equal(c, epsilon), "equal:in-kind", describe(c));
			d = c;
			other = make_shared<dcp::IdentityTransferFunction>();
			if (std::dynamic_pointer_cast<const dcp::IdentityTransferFunction>(c.out())) {
				other = make_shared<dcp::GammaTransferFunction>(1);
			}
			d.set_out(other);
			EXPECT(!c.about_equal(d, epsilon) && !d.about_equal(c, epsilon), "equal:out-kind", describe(c));
		}
	}
}

KIT_CHECK("C12", c12);
KIT_CHECK("C14", c14);

}
