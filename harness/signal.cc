/* C17, C18 (waveform part): bit streams, CRCs and frequency-shift keying. */
#include "kit.h"
#include "bitstream.h"
#include "fsk.h"
#include <cmath>

using namespace kit;
using std::string;
using std::vector;

namespace {

/** CRC-16 as a bit-at-a-time long division: no initial value, no reflection */
struct Crc
{
	uint32_t poly = 0, value = 0;
	void bit(bool b) {
		bool const top = ((value >> 15) & 1) != b;
		value = (value << 1) & 0xffff;
		if (top) { value ^= poly; }
	}
};

void c17()
{
	rule("Random histories of 1-60 bit/byte/word writes of every width, checksum starts and ends (several polynomials, nested/missing ones expected to be refused), copies of the stream mid-way. Oracle: a plain list of bits and a bit-at-a-time CRC. Non-trivial = history has at least one checksum.");
	size_t const N = budget(8000, 400000);
	for (size_t n = 0; n < N; ++n) {
		std::ostringstream o;
		dcp::Bitstream s;
		vector<bool> model;
		Crc crc;
		bool running = false;
		int checksums = 0;
		int const ops = rng.range(1, 60);
		vector<std::function<void ()>> todo;
		auto put = [&](bool b) { model.push_back(b); if (running) { crc.bit(b); } };
		string bad;
		for (int i = 0; i < ops; ++i) {
			int const op = rng.below(16);
			if (op < 4) {
				bool const b = rng.coin();
				o << (b ? "1" : "0");
				s.write_bit(b);
				put(b);
			} else if (op < 7) {
				int const bits = rng.chance(0.5) ? 8 : int(rng.range(0, 8));
				uint8_t const v = rng.chance(0.3) ? rng.pick({0, 255, 128, 1}) : int(rng.below(256));
				o << " b" << int(v) << "/" << bits;
				if (bits == 8 && rng.coin()) {
					s.write_from_byte(v);
				} else {
					s.write_from_byte(v, bits);
				}
				for (int k = bits - 1; k >= 0; --k) { put((v >> k) & 1); }
			} else if (op < 10) {
				int const bits = rng.chance(0.3) ? 32 : int(rng.range(0, 32));
				uint32_t const v = rng.chance(0.2) ? rng.pick({0u, 0xffffffffu, 0x80000000u, 1u, 0x7fffffffu}) : uint32_t(rng.next());
				o << " w" << v << "/" << bits;
				if (bits == 32 && rng.coin()) {
					s.write_from_word(v);
				} else {
					s.write_from_word(v, bits);
				}
				for (int k = bits - 1; k >= 0; --k) { put((v >> k) & 1); }
			} else if (op < 13) {
				uint16_t const poly = rng.pick({0x1021, 0x8005, 0x8bb7, 0xa097, 0x3d65, 0x0001, 0xffff, int(rng.below(65536))});
				o << " start" << poly;
				bool refused = false;
				try {
					s.start_crc(poly);
				} catch (std::exception&) {
					refused = true;
				}
				EXPECT(refused == running, "crc:start", "starting a checksum " << (running ? "inside another was accepted" : "was refused"));
				if (!running) {
					running = true;
					crc.poly = poly;
					crc.value = 0;
				}
			} else if (op < 15) {
				o << " crc";
				bool refused = false;
				try {
					s.write_crc();
				} catch (std::exception&) {
					refused = true;
				}
				EXPECT(refused == !running, "crc:write", "writing a checksum " << (running ? "was refused" : "which was not started was accepted"));
				if (running) {
					running = false;
					for (int k = 15; k >= 0; --k) { model.push_back((crc.value >> k) & 1); }
					++checksums;
				}
			} else {
				o << " copy";
				dcp::Bitstream t = s;
				t.write_bit(true);
				auto const before = s.get();
				EXPECT(before == model, "bits:copy", "writing to a copy changed the original or bits are wrong");
				auto expect = model;
				expect.push_back(true);
				EXPECT(t.get() == expect, "bits:copy", "copy does not continue from the original");
			}
		}
		begin_case(o.str(), checksums > 0);
		auto const got = s.get();
		size_t d = 0;
		while (d < got.size() && d < model.size() && got[d] == model[d]) { ++d; }
		EXPECT(got == model, checksums ? "bits:with-crc" : "bits:plain", got.size() << " bits, expected " << model.size() << ", first difference at " << d);
		count("checksums", checksums);
		count("bits", model.size());
	}
}

void c18()
{
	rule("Waveform: random, constant and boundary bit patterns in 1-5 successive blocks on one generator. Oracle: signs decode back to the bits, sign changes at every bit boundary (continuous phase, also across blocks), magnitude is 0.1 full scale times the sine of the stated phase. Sync channel: see the other half of this check.");
	double const full = 8388608;
	size_t const N = budget(4000, 200000);
	for (size_t n = 0; n < N; ++n) {
		dcp::FSK fsk;
		int const blocks = rng.range(1, 5);
		bool first = true;
		bool last_positive = false;
		string desc;
		vector<std::pair<vector<bool>, size_t>> todo;
		for (int b = 0; b < blocks; ++b) {
			int const len = rng.chance(0.3) ? 128 : int(rng.range(1, 300));
			int const pattern = rng.below(5);
			vector<bool> bits;
			for (int i = 0; i < len; ++i) {
				bits.push_back(pattern == 0 ? false : pattern == 1 ? true : pattern == 2 ? i & 1 : rng.coin());
			}
			/* not all of a block is necessarily used before the next one is set */
			size_t const used = rng.chance(0.8) ? bits.size() : 1 + rng.below(bits.size());
			for (auto i: bits) { desc += i ? '1' : '0'; }
			desc += "/" + std::to_string(used) + " ";
			todo.push_back({bits, used});
		}
		begin_case(desc);
		for (auto const& t: todo) {
			fsk.set_data(t.first);
			for (size_t i = 0; i < t.second; ++i) {
				int32_t s[4];
				for (auto& k: s) { k = fsk.get(); }
				bool const p0 = s[0] > 0;
				EXPECT(s[0] != 0 && s[1] != 0 && s[2] != 0 && s[3] != 0, "fsk:zero", "zero sample in bit " << i);
				EXPECT((s[1] > 0) == p0 && (s[2] > 0) == (s[3] > 0), "fsk:shape", "bit " << i << ": " << s[0] << " " << s[1] << " " << s[2] << " " << s[3]);
				bool const decoded = (s[1] > 0) != (s[2] > 0);
				EXPECT(decoded == t.first[i], "fsk:bit", "bit " << i << " decodes as " << decoded);
				if (!first) {
					EXPECT(p0 != last_positive, "fsk:phase", "phase jump at start of bit " << i);
				}
				first = false;
				last_positive = s[3] > 0;
				for (int k = 0; k < 4; ++k) {
					double const phase = t.first[i] ? (k + 0.5) / 2 : (k + 0.5) / 4;
					double const e = fabs(0.1 * sin(M_PI * phase)) * full;
					EXPECT(fabs(fabs(double(s[k])) - e) < 1e-5 * full, "fsk:level", "sample " << k << " of bit " << i << " is " << s[k] << " expected magnitude " << e);
				}
				count("bits");
			}
		}
	}
}

KIT_CHECK("C17", c17);
KIT_CHECK("C18", c18);

}
