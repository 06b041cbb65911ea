/* C15: conversion of images between RGB and XYZ; C16: JPEG2000 */

#include "kit.h"
#include "array_data.h"
#include "chromaticity.h"
#include "colour_conversion.h"
#include "exceptions.h"
#include "gamma_transfer_function.h"
#include "gen.h"
#include "identity_transfer_function.h"
#include "j2k_transcode.h"
#include "modified_gamma_transfer_function.h"
#include "openjpeg_image.h"
#include "rgb_xyz.h"
#include "s_gamut3_transfer_function.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <memory>
#include <thread>

using namespace kit;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;

namespace {

struct Curve
{
	string name;
	shared_ptr<dcp::TransferFunction> fn;
	std::function<double (double)> forward, inverse;
};

Curve
gamma_curve(double g)
{
	return { "gamma " + std::to_string(g), make_shared<dcp::GammaTransferFunction>(g), [g](double x) { return pow(x, g); }, [g](double x) { return pow(std::max(x, 0.0), 1 / g); } };
}

Curve
random_curve(bool in)
{
	switch (rng.below(in ? 6 : 3)) {
	case 0:
	case 1:
		return gamma_curve(2.6);
	case 2:
		return gamma_curve(rng.pick({2.2, 2.4, rng.real(1, 3)}));
	case 3:
		return { "identity", make_shared<dcp::IdentityTransferFunction>(), [](double x) { return x; }, [](double x) { return x; } };
	case 4:
		return {
			"srgb", make_shared<dcp::ModifiedGammaTransferFunction>(2.4, 0.04045, 0.055, 12.92),
			[](double x) { return x <= 0.04045 ? x / 12.92 : pow((x + 0.055) / 1.055, 2.4); },
			[](double x) { return x <= 0.04045 / 12.92 ? x * 12.92 : 1.055 * pow(x, 1 / 2.4) - 0.055; }
		};
	default:
		return {
			"s-log3", make_shared<dcp::SGamut3TransferFunction>(),
			[](double x) { return x >= 171.2102946929 / 1023 ? pow(10, (x * 1023 - 420) / 261.5) * 0.19 - 0.01 : (x * 1023 - 95) * 0.01125 / (171.2102946929 - 95); },
			[](double x) { return x >= 0.01125 ? (420 + log10((x + 0.01) / 0.19) * 261.5) / 1023 : (x * (171.2102946929 - 95) / 0.01125 + 95) / 1023; }
		};
	}
}

struct Conversion
{
	Curve in, out;
	dcp::ColourConversion conversion;
	double to_xyz[3][3];
	double to_rgb[3][3];
	bool adjusted = false;
	string name;
};

double const dci = 48.0 / 52.37;

Conversion
random_conversion()
{
	Conversion c;
	c.in = random_curve(true);
	c.out = random_curve(false);
	struct { double rx, ry, gx, gy, bx, by, wx, wy; } const primaries[] = {
		{ 0.64, 0.33, 0.3, 0.6, 0.15, 0.06, 0.3127, 0.329 },
		{ 0.68, 0.32, 0.265, 0.69, 0.15, 0.06, 0.314, 0.351 },
		{ 0.68, 0.32, 0.265, 0.69, 0.15, 0.06, 0.3127, 0.329 },
		{ 0.708, 0.292, 0.17, 0.797, 0.131, 0.046, 0.3127, 0.329 },
		{ 0.73, 0.28, 0.14, 0.855, 0.1, -0.05, 0.3127, 0.329 }
	};
	int const which = rng.below(5);
	auto p = primaries[which];
	if (rng.chance(0.3)) {
		for (auto i: {&p.rx, &p.ry, &p.gx, &p.gy, &p.bx, &p.by}) {
			*i += rng.real(-0.02, 0.02);
		}
	}
	boost::optional<dcp::Chromaticity> white;
	if (rng.chance(0.3)) {
		white = dcp::Chromaticity(rng.real(0.28, 0.36), rng.real(0.3, 0.37));
		c.adjusted = true;
	}
	c.conversion = dcp::ColourConversion(
		c.in.fn, dcp::YUVToRGB::REC709, dcp::Chromaticity(p.rx, p.ry), dcp::Chromaticity(p.gx, p.gy), dcp::Chromaticity(p.bx, p.by), dcp::Chromaticity(p.wx, p.wy), white, c.out.fn
		);
	auto const m = c.conversion.rgb_to_xyz();
	auto const b = c.conversion.bradford();
	auto const n = c.conversion.xyz_to_rgb();
	for (int i = 0; i < 3; ++i) {
		for (int j = 0; j < 3; ++j) {
			c.to_xyz[i][j] = 0;
			for (int k = 0; k < 3; ++k) {
				c.to_xyz[i][j] += b(i, k) * m(k, j) * dci;
			}
			c.to_rgb[i][j] = n(i, j);
		}
	}
	c.name = c.in.name + " -> primaries " + std::to_string(which) + (c.adjusted ? " adjusted" : "") + " -> " + c.out.name;
	return c;
}

double
clamp01(double x)
{
	return std::min(1.0, std::max(0.0, x));
}

typedef vector<uint16_t> Pixel16;

uint16_t
random_16()
{
	switch (rng.below(6)) {
	case 0:
		return rng.pick({0, 1, 15, 16, 17, 65535, 65534, 65519, 65520, 32768});
	case 1:
		return rng.below(2000);
	default:
		return rng.below(65536);
	}
}

int
random_12()
{
	switch (rng.below(6)) {
	case 0:
		return rng.pick({0, 1, 2, 4094, 4095, 2048});
	case 1:
		return rng.below(100);
	default:
		return rng.below(4096);
	}
}

/** Rows of 16-bit RGB with nothing after the last pixel, so that reading beyond any end is seen */
struct Source
{
	int w, h, stride;
	std::unique_ptr<uint8_t[]> data;
	vector<uint16_t> pixels;
	Source(int w_, int h_)
		: w(w_)
		, h(h_)
		, stride(w_ * 6 + (rng.coin() ? 0 : 2 * rng.below(20)))
		, data(new uint8_t[size_t(stride) * (h_ - 1) + w_ * 6])
	{
		auto junk = rng.bytes(size_t(stride) * (h - 1) + w * 6);
		memcpy(data.get(), junk.data(), junk.size());
		pixels.resize(w * h * 3);
		for (auto& i: pixels) {
			i = random_16();
		}
		for (int y = 0; y < h; ++y) {
			memcpy(data.get() + size_t(y) * stride, pixels.data() + y * w * 3, w * 6);
		}
	}
};

int
random_size()
{
	return rng.pick({1, 2, 3, 7, 16, 31, int(rng.range(1, 60))});
}

void
check_xyz(Conversion const& c, uint16_t const* rgb, int const* xyz, string const& what)
{
	double in[3];
	for (int i = 0; i < 3; ++i) {
		in[i] = c.in.forward((rgb[i] >> 4) / 4095.0);
	}
	for (int i = 0; i < 3; ++i) {
		auto const d = clamp01(c.to_xyz[i][0] * in[0] + c.to_xyz[i][1] * in[1] + c.to_xyz[i][2] * in[2]);
		/* The tables which do the last step have steps of no more than these */
		auto const step = d < 0.0617 ? 1e-6 : 0.00024;
		auto const low = c.out.inverse(clamp01(d - step)) * 4095 - 0.51;
		auto const high = c.out.inverse(clamp01(d + step)) * 4095 + 0.51;
		EXPECT(xyz[i] >= low && xyz[i] <= high && xyz[i] >= 0 && xyz[i] <= 4095, what + "-value", "component " << i << " of " << rgb[0] << " " << rgb[1] << " " << rgb[2] << " gave " << xyz[i] << " rather than " << low << " to " << high);
	}
	observed(3);
}

void
to_xyz_case(size_t n)
{
	auto const c = random_conversion();
	Source s(random_size(), random_size());
	dcp::Size const size(s.w, s.h);
	begin_case("rgb to xyz " + std::to_string(n) + " " + std::to_string(s.w) + "x" + std::to_string(s.h) + " stride " + std::to_string(s.stride) + " " + c.name);

	auto image = dcp::rgb_to_xyz(s.data.get(), size, s.stride, c.conversion);
	EXPECT(image->size() == size, "size", image->size().width << "x" << image->size().height);
	std::unique_ptr<uint16_t[]> packed(new uint16_t[s.w * s.h * 3]);
	dcp::rgb_to_xyz(s.data.get(), packed.get(), size, s.stride, c.conversion);
	for (int i = 0; i < s.w * s.h; ++i) {
		int const xyz[3] = { image->data(0)[i], image->data(1)[i], image->data(2)[i] };
		check_xyz(c, &s.pixels[i * 3], xyz, "xyz");
		for (int j = 0; j < 3; ++j) {
			EXPECT(packed[i * 3 + j] == xyz[j], "packed", "pixel " << i << " component " << j << ": " << packed[i * 3 + j] << " rather than " << xyz[j]);
		}
	}
	/* On their own */
	for (int k = 0; k < 5; ++k) {
		int const i = rng.below(s.w * s.h);
		std::unique_ptr<uint8_t[]> one(new uint8_t[6]);
		memcpy(one.get(), &s.pixels[i * 3], 6);
		auto alone = dcp::rgb_to_xyz(one.get(), dcp::Size(1, 1), 6, c.conversion);
		for (int j = 0; j < 3; ++j) {
			EXPECT(alone->data(j)[0] == image->data(j)[i], "alone", "pixel " << i << " differs when converted alone");
		}
	}
	/* An image made directly from XYZ, and a copy */
	dcp::OpenJPEGImage direct(s.data.get(), size, s.stride);
	dcp::OpenJPEGImage copy(direct);
	EXPECT(copy.size() == size && direct.size() == size, "direct-size", "size differs");
	for (int i = 0; i < s.w * s.h; ++i) {
		for (int j = 0; j < 3; ++j) {
			EXPECT(direct.data(j)[i] == s.pixels[i * 3 + j] >> 4, "direct", "pixel " << i << " component " << j);
			EXPECT(copy.data(j)[i] == direct.data(j)[i], "copy", "pixel " << i << " component " << j);
		}
	}
	direct.data(0)[0] ^= 1;
	EXPECT(copy.data(0)[0] != direct.data(0)[0], "copy-shared", "a copy shares its data");

	if (!c.adjusted && rng.coin()) {
		/* And back */
		vector<uint8_t> back(s.w * s.h * 6);
		dcp::xyz_to_rgb(image, c.conversion, back.data(), s.w * 6);
		for (int i = 0; i < s.w * s.h; ++i) {
			bool suitable = c.in.name != "s-log3" && c.in.name != "identity";
			double in[3];
			for (int j = 0; j < 3; ++j) {
				suitable = suitable && s.pixels[i * 3 + j] > 65535 * 0.3;
				in[j] = c.in.forward((s.pixels[i * 3 + j] >> 4) / 4095.0);
			}
			for (int j = 0; j < 3; ++j) {
				auto const v = c.to_xyz[j][0] * in[0] + c.to_xyz[j][1] * in[1] + c.to_xyz[j][2] * in[2];
				suitable = suitable && v > 0.01 && v < 1;
			}
			if (!suitable) {
				continue;
			}
			uint16_t r[3];
			memcpy(r, &back[i * 6], 6);
			for (int j = 0; j < 3; ++j) {
				auto const e = std::abs(r[j] - s.pixels[i * 3 + j]) / 65535.0;
				note_max("round trip error ppm", e * 1e6);
				EXPECT(e < 0.02, "round-trip", s.pixels[i * 3 + j] << " came back as " << r[j]);
			}
			observed(3);
			count("round trips");
		}
	}
}

void
to_rgb_case(size_t n)
{
	auto const c = random_conversion();
	int const w = random_size(), h = random_size();
	auto image = make_shared<dcp::OpenJPEGImage>(dcp::Size(w, h));
	bool const outside = rng.chance(0.3);
	int64_t bad = 0;
	for (int i = 0; i < w * h; ++i) {
		for (int j = 0; j < 3; ++j) {
			int v = random_12();
			if (outside && rng.chance(0.05)) {
				v = rng.pick({-1, 4096, 65535, -100000, 5000, int(rng.range(-9000, 9000))});
			}
			if (v < 0 || v > 4095) {
				++bad;
			}
			image->data(j)[i] = v;
		}
	}
	int const pad16 = rng.coin() ? 0 : 2 * rng.below(20);
	int const stride = w * 6 + pad16;
	begin_case("xyz to rgb " + std::to_string(n) + " " + std::to_string(w) + "x" + std::to_string(h) + " stride " + std::to_string(stride) + " bad " + std::to_string(bad) + " " + c.name);

	std::unique_ptr<uint8_t[]> rgb(new uint8_t[size_t(stride) * (h - 1) + w * 6]);
	memset(rgb.get(), 0xa5, size_t(stride) * (h - 1) + w * 6);
	int64_t notes = 0;
	bool const listen = rng.coin();
	boost::optional<dcp::NoteHandler> handler;
	if (listen) {
		handler = dcp::NoteHandler([&notes](dcp::NoteType, string) { ++notes; });
	}
	dcp::xyz_to_rgb(image, c.conversion, rgb.get(), stride, handler);
	if (listen) {
		EXPECT(notes == bad, "notes", notes << " notes for " << bad << " values out of range");
	}

	int const stride8 = w * 4 + (rng.coin() ? 0 : rng.below(20));
	std::unique_ptr<uint8_t[]> rgba(new uint8_t[size_t(stride8) * (h - 1) + w * 4]);
	memset(rgba.get(), 0x5a, size_t(stride8) * (h - 1) + w * 4);
	bool have8 = true;
	try {
		dcp::xyz_to_rgba(image, c.conversion, rgba.get(), stride8);
		EXPECT(bad == 0, "rgba-range", "values out of range converted");
	} catch (std::exception& e) {
		EXPECT(bad != 0, "rgba-refused", e.what());
		have8 = false;
	}

	for (int y = 0; y < h; ++y) {
		for (int x = 0; x < w; ++x) {
			double in[3];
			for (int j = 0; j < 3; ++j) {
				in[j] = c.out.forward(std::min(4095, std::max(0, image->data(j)[y * w + x])) / 4095.0) / dci;
			}
			uint16_t p[3];
			memcpy(p, rgb.get() + size_t(y) * stride + x * 6, 6);
			for (int j = 0; j < 3; ++j) {
				auto const d = clamp01(c.to_rgb[j][0] * in[0] + c.to_rgb[j][1] * in[1] + c.to_rgb[j][2] * in[2]);
				auto const step = 0.51 / 65535;
				auto const low = c.in.inverse(clamp01(d - step)), high = c.in.inverse(clamp01(d + step));
				EXPECT(p[j] >= low * 65535 - 0.51 && p[j] <= high * 65535 + 0.51, "rgb-value", "pixel " << x << "," << y << " component " << j << " is " << p[j] << " rather than " << low * 65535 << " to " << high * 65535);
				if (have8) {
					int const v = rgba[size_t(y) * stride8 + x * 4 + 2 - j];
					EXPECT(v >= low * 255 - 1.01 && v <= high * 255 + 0.51, "rgba-value", "pixel " << x << "," << y << " component " << j << " is " << v << " rather than " << low * 255 << " to " << high * 255);
				}
			}
			if (have8) {
				EXPECT(rgba[size_t(y) * stride8 + x * 4 + 3] == 0xff, "rgba-alpha", "alpha is not 255");
			}
			observed(6);
		}
		if (y < h - 1) {
			for (int i = w * 6; i < stride; ++i) {
				EXPECT(rgb[size_t(y) * stride + i] == 0xa5, "rgb-padding", "padding of row " << y << " written");
			}
			for (int i = w * 4; i < stride8; ++i) {
				EXPECT(rgba[size_t(y) * stride8 + i] == 0x5a, "rgba-padding", "padding of row " << y << " written");
			}
		}
	}
	count(bad ? "images with values out of range" : "images in range");
}

void
concurrent_case(size_t n)
{
	/* The first uses of a conversion, all at the same time */
	auto const c = random_conversion();
	Source s(40, 20);
	dcp::Size const size(40, 20);
	begin_case("concurrent conversions " + std::to_string(n) + " " + c.name);
	int const threads = 4;
	vector<vector<uint16_t>> out(threads, vector<uint16_t>(40 * 20 * 3));
	vector<std::thread> t;
	for (int i = 0; i < threads; ++i) {
		t.push_back(std::thread([&, i]() {
			dcp::rgb_to_xyz(s.data.get(), out[i].data(), size, s.stride, c.conversion);
		}));
	}
	for (auto& i: t) {
		i.join();
	}
	vector<uint16_t> alone(40 * 20 * 3);
	dcp::rgb_to_xyz(s.data.get(), alone.data(), size, s.stride, c.conversion);
	for (int i = 0; i < threads; ++i) {
		EXPECT(out[i] == alone, "concurrent", "thread " << i << " gave another result");
	}
	observed(threads);
	count("concurrent");
}

void
c15()
{
	rule("random images, strides and conversions; each pixel against formulae in double precision with the width of one table step; images have no memory after their last pixel so that the sanitizer sees any over-run; padding holds a known value");
	assumption("Curves and matrices of the conversion itself are checked by C12 and C14");
	auto const n = budget(8000, 80000);
	for (size_t i = 0; i < n; ++i) {
		to_xyz_case(i);
		to_rgb_case(i);
		if (i % 16 == 0) {
			concurrent_case(i);
		}
	}
}

/* ---------- C16 ---------- */

struct Picture
{
	int w, h;
	double fx, fy, gx, gy;
	int base, amplitude;
	bool noisy = false;
	vector<int> noise;
	int at(int c, double x, double y) const {
		/* Smooth, and different at every place */
		auto const v = base + c * 150 + amplitude * (sin(fx * x / w * 6.28 + c) + cos(fy * y / h * 6.28 + c * 2)) + gx * 900 * x / w + gy * 900 * y / h;
		return std::min(4095.0, std::max(0.0, rint(v)));
	}
	int value(int c, int x, int y) const {
		auto v = at(c, x, y);
		if (noisy) {
			v = (v + noise[(c * 7919 + y * w + x) % noise.size()]) & 4095;
		}
		return v;
	}
};

Picture
random_picture(bool noisy)
{
	Picture p;
	p.w = rng.chance(0.2) ? rng.range(32, 600) : rng.range(32, 200);
	p.h = rng.chance(0.2) ? rng.range(32, 400) : rng.range(32, 200);
	p.fx = rng.real(0.3, 1.5);
	p.fy = rng.real(0.3, 1.5);
	p.gx = rng.real(-1, 1);
	p.gy = rng.real(-1, 1);
	p.base = rng.range(1400, 2400);
	p.amplitude = rng.range(100, 300);
	p.noisy = noisy;
	if (noisy) {
		for (int i = 0; i < 9973; ++i) {
			p.noise.push_back(rng.below(4096));
		}
	}
	return p;
}

shared_ptr<dcp::OpenJPEGImage>
image_of(Picture const& p)
{
	auto image = make_shared<dcp::OpenJPEGImage>(dcp::Size(p.w, p.h));
	for (int c = 0; c < 3; ++c) {
		for (int y = 0; y < p.h; ++y) {
			for (int x = 0; x < p.w; ++x) {
				image->data(c)[y * p.w + x] = p.value(c, x, y);
			}
		}
	}
	return image;
}

/** Put a codestream into a JP2 file */
dcp::ArrayData
boxed(dcp::Data const& j2k, int w, int h)
{
	string out;
	auto number = [&](uint32_t v, int bytes) {
		for (int i = bytes - 1; i >= 0; --i) {
			out += char(v >> (i * 8));
		}
	};
	auto box = [&](uint32_t size, string const& type) {
		number(size, 4);
		out += type;
	};
	box(12, "jP  ");
	number(0x0d0a870a, 4);
	box(20, "ftyp");
	out += "jp2 ";
	number(0, 4);
	out += "jp2 ";
	box(8 + 22 + 15, "jp2h");
	box(22, "ihdr");
	number(h, 4);
	number(w, 4);
	number(3, 2);
	number(11, 1);
	number(7, 1);
	number(0, 2);
	box(15, "colr");
	number(1, 1);
	number(0, 2);
	number(16, 4);
	box(j2k.size() + 8, "jp2c");
	out.append(reinterpret_cast<char const*>(j2k.data()), j2k.size());
	return dcp::ArrayData(reinterpret_cast<uint8_t const*>(out.data()), out.size());
}

int
ceil_shift(int64_t x, int r)
{
	return (x + (int64_t(1) << r) - 1) >> r;
}

/** Read all of an image, so that the sanitizer sees if its size is wrong */
uint64_t
sum(dcp::OpenJPEGImage const& image)
{
	uint64_t s = 0;
	for (int c = 0; c < 3; ++c) {
		for (int64_t i = 0; i < int64_t(image.size().width) * image.size().height; ++i) {
			s += uint32_t(image.data(c)[i]);
		}
	}
	return s;
}

void
good_case(size_t n)
{
	auto const p = random_picture(n % 4 == 3);
	int const fps = rng.pick({24, 25, 30, 48, 60, int(rng.range(24, 60))});
	bool const threed = rng.coin();
	bool const fourk = p.w >= 64 && p.h >= 64 && rng.chance(0.3);
	/* Small pictures need only a small number of bits to make a limit that matters */
	int const bandwidth = p.noisy ? int(rng.range(2, 40)) * 1000000 : rng.pick({100000000, 250000000, 500000000});
	begin_case("j2k " + std::to_string(n) + " " + std::to_string(p.w) + "x" + std::to_string(p.h) + " " + std::to_string(bandwidth) + " bit/s " + std::to_string(fps) + " fps" + (threed ? " 3D" : "") + (fourk ? " 4K" : "") + (p.noisy ? " noise" : ""));
	auto const comment = rng.pick({string("libdcp"), string("x"), string("A much longer comment than usual")});
	auto const j2k = dcp::compress_j2k(image_of(p), bandwidth, fps, threed, fourk, comment);
	int64_t const limit = bandwidth / 8 / fps / (threed ? 2 : 1);
	note_max(p.noisy ? "size against limit, noise (%)" : "size against limit (%)", j2k.size() * 100.0 / limit);
	EXPECT(j2k.size() <= limit * 1.05 + 256, "bandwidth", j2k.size() << " bytes; limit is " << limit);
	string const text(reinterpret_cast<char const*>(j2k.data()), j2k.size());
	EXPECT(text.find(comment) != string::npos, "comment", "the comment is not in the codestream");

	/* The buffer has nothing after its end */
	int const levels = fourk ? 6 : 5;
	for (int reduce = 0; reduce <= std::min(levels, 4); ++reduce) {
		if (reduce > 0 && rng.chance(0.3)) {
			continue;
		}
		auto image = rng.coin() ? dcp::decompress_j2k(j2k, reduce) : dcp::decompress_j2k(make_shared<dcp::ArrayData>(j2k), reduce);
		auto const size = image->size();
		dcp::Size const want(ceil_shift(p.w, reduce), ceil_shift(p.h, reduce));
		EXPECT(size == want, reduce ? "reduced-size" : "size", size.width << "x" << size.height << " rather than " << want.width << "x" << want.height << " reduced by " << reduce);
		sum(*image);
		EXPECT(image->precision(0) == 12, "precision", image->precision(0));
		if (rng.chance(0.4)) {
			/* The same in a JP2 file */
			auto const other = dcp::decompress_j2k(boxed(j2k, p.w, p.h), reduce);
			bool same = other->size() == size;
			for (int c = 0; c < 3 && same; ++c) {
				same = std::equal(image->data(c), image->data(c) + size.width * size.height, other->data(c));
			}
			EXPECT(same, "jp2", "a JP2 file gives a different picture from its codestream, reduced by " << reduce);
			count("JP2 files");
		}
		if (p.noisy || !(size == want)) {
			continue;
		}
		double worst = 0, total = 0;
		for (int c = 0; c < 3; ++c) {
			for (int y = 0; y < size.height; ++y) {
				for (int x = 0; x < size.width; ++x) {
					/* Samples of the reduced picture are at multiples of its factor in the whole one */
					auto const e = std::abs(image->data(c)[y * size.width + x] - p.at(c, x << reduce, y << reduce));
					worst = std::max<double>(worst, e);
					total += e;
				}
			}
		}
		total /= size.width * size.height * 3;
		note_max("mean error reduced by " + std::to_string(reduce), total * 100);
		note_max("worst error reduced by " + std::to_string(reduce), worst);
		EXPECT(total < 10 + 12 * reduce * reduce, "picture", "mean error " << total << " reduced by " << reduce);
		observed(3);
	}
	count(p.noisy ? "noisy pictures" : "smooth pictures");
	observed();
}

uint32_t
get_32(vector<uint8_t> const& d, size_t at)
{
	return d[at] << 24 | d[at + 1] << 16 | d[at + 2] << 8 | d[at + 3];
}

void
put_32(vector<uint8_t>& d, size_t at, uint32_t v)
{
	for (int i = 0; i < 4; ++i) {
		d[at + i] = v >> (24 - i * 8);
	}
}

void
damaged_case(size_t n)
{
	static vector<dcp::ArrayData> good;
	if (good.size() < 4) {
		auto p = random_picture(good.size() % 2);
		p.w = rng.range(64, 100);
		p.h = rng.range(64, 100);
		good.push_back(dcp::compress_j2k(image_of(p), 100000000, 24, false, good.size() == 3, "libdcp"));
	}
	auto const g = rng.pick(good);
	vector<uint8_t> d(g.data(), g.data() + g.size());
	string what;
	/* SIZ: ff4f ff51 Lsiz(2) Rsiz(2) Xsiz Ysiz XOsiz YOsiz XTsiz YTsiz XTOsiz YTOsiz Csiz(2) */
	switch (rng.below(9)) {
	case 0:
		what = "cut";
		d.resize(rng.coin() ? rng.below(d.size()) : rng.below(200));
		break;
	case 1:
		what = "cut near end";
		d.resize(d.size() - 1 - rng.below(30));
		break;
	case 2:
		what = "bytes in header";
		for (int i = 0, m = rng.range(1, 3); i < m; ++i) {
			d[48 + rng.below(150)] = rng.below(256);
		}
		break;
	case 3:
		what = "bytes in data";
		for (int i = 0, m = rng.range(1, 30); i < m; ++i) {
			d[200 + rng.below(d.size() - 200)] = rng.below(256);
		}
		break;
	case 4:
	{
		what = "offset";
		int const which = rng.below(2);
		put_32(d, 16 + which * 4, rng.below(40));
		break;
	}
	case 5:
	{
		what = "sampling";
		int const c = rng.below(3);
		d[42 + c * 3 - 2 + rng.range(0, 2)] = rng.pick({0, 1, 2, 3, 7, 11, 200});
		break;
	}
	case 6:
		what = "size";
		put_32(d, 8 + 4 * rng.below(2), rng.below(400));
		break;
	case 7:
		what = "tile";
		put_32(d, 24 + 4 * rng.below(4), rng.below(400));
		break;
	default:
		what = "components";
		d[41] = rng.below(6);
		break;
	}
	int const reduce = rng.pick({0, 0, 1, 2, 6});
	begin_case("damaged j2k " + std::to_string(n) + " " + what + " reduce " + std::to_string(reduce) + " " + std::to_string(d.size()) + " bytes " + std::to_string(hash(string(d.begin(), d.end()))));
	std::unique_ptr<uint8_t[]> exact(new uint8_t[d.size()]);
	memcpy(exact.get(), d.data(), d.size());
	try {
		auto image = dcp::decompress_j2k(exact.get(), d.size(), reduce);
		auto const size = image->size();
		sum(*image);
		dcp::OpenJPEGImage copy(*image);
		sum(copy);
		vector<uint8_t> rgb(int64_t(size.width) * size.height * 6);
		dcp::xyz_to_rgb(image, dcp::ColourConversion::srgb_to_xyz(), rgb.data(), size.width * 6);
		/* Component sampling is not considered: such pictures are not for us */
		bool plain = d[43] == 1 && d[44] == 1;
		if (plain) {
			auto const x0 = get_32(d, 16), y0 = get_32(d, 20), x1 = get_32(d, 8), y1 = get_32(d, 12);
			dcp::Size const want(ceil_shift(x1, reduce) - ceil_shift(x0, reduce), ceil_shift(y1, reduce) - ceil_shift(y0, reduce));
			/* Decoders differ about the rounding of offsets */
			bool const near = std::abs(size.width - want.width) <= (x0 ? 1 : 0) && std::abs(size.height - want.height) <= (y0 ? 1 : 0);
			EXPECT(near, "damaged-size", what << ": " << size.width << "x" << size.height << " rather than " << want.width << "x" << want.height);
		}
		count("damaged but decoded: " + what);
	} catch (std::exception& e) {
		count("damaged and refused: " + what);
	}
	observed();
}

void
c16()
{
	rule("random smooth or noisy pictures of 32 to 600 pixels a side; size of codestream against bit rate, size and samples of decoded pictures at each reduction against the formula that made them; damaged codestreams");
	assumption("OpenJPEG's rate control may exceed its limit by up to 5% and 256 bytes on small pictures");
	assumption("sampling positions of reduced pictures are multiples of the reduction, with a tolerance for the low-pass filter");
	auto const n = budget(240, 5000);
	for (size_t i = 0; i < n; ++i) {
		good_case(i);
	}
	auto const m = budget(4000, 80000);
	for (size_t i = 0; i < m; ++i) {
		damaged_case(i);
	}
}

KIT_CHECK("C15", c15);
KIT_CHECK("C16", c16);

}
