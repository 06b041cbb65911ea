/* Small kit shared by all harnesses: seeded randomness, case book-keeping,
   violation recording and crash reporting. */
#ifndef KIT_H
#define KIT_H

#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace kit {

/** splitmix64-seeded xorshift; every random choice comes from one of these */
class Rng
{
public:
	explicit Rng(uint64_t seed) { reseed(seed); }
	void reseed(uint64_t seed) {
		for (auto& i: _s) {
			seed += 0x9e3779b97f4a7c15ull;
			uint64_t z = seed;
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
			z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
			i = z ^ (z >> 31);
		}
	}
	uint64_t next() {
		auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
		uint64_t const r = rotl(_s[1] * 5, 7) * 9;
		uint64_t const t = _s[1] << 17;
		_s[2] ^= _s[0]; _s[3] ^= _s[1]; _s[1] ^= _s[2]; _s[0] ^= _s[3];
		_s[2] ^= t; _s[3] = rotl(_s[3], 45);
		return r;
	}
	/** 0 <= x < n */
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	/** a <= x <= b */
	int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a) + 1)); }
	bool chance(double p) { return real() < p; }
	bool coin() { return next() & 1; }
	double real() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	double real(double a, double b) { return a + (b - a) * real(); }
	template <class C> auto pick(C const& c) -> decltype(c[0]) { return c[below(c.size())]; }
	template <class T> T const& pick(std::initializer_list<T> const& c) { return *(c.begin() + below(c.size())); }
	std::vector<uint8_t> bytes(size_t n) { std::vector<uint8_t> v(n); for (auto& i: v) { i = next(); } return v; }
	std::string from(std::string const& alphabet, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) { s += alphabet[below(alphabet.size())]; } return s; }
	template <class C> void shuffle(C& c) { for (size_t i = c.size(); i > 1; --i) { std::swap(c[i - 1], c[below(i)]); } }
private:
	uint64_t _s[4];
};

struct Options
{
	std::string prop;
	/** for C42: the check whose work is to be done while watching for leaks */
	std::string work;
	uint64_t seed = 1;
	bool thorough = false;
	std::string scratch;
	std::string repo;
	std::string verif;
	int shard = 0;
	int shards = 1;
};

extern Options opt;
extern Rng rng;

/** quick ? q : t, divided over the shards */
size_t budget(size_t quick, size_t thorough);

/** Note the start of one case.  @param desc identifies the case (distinct cases have distinct descriptions);
    @param nontrivial true if the case exercises the property beyond its trivial form. */
void begin_case(std::string const& desc, bool nontrivial = true);
std::string current_case();
/** Seed a case's randomness so that it can be replayed alone */
void observed(uint64_t n = 1);
void count(std::string const& what, uint64_t n = 1);
void note_max(std::string const& what, double v);
void violation(std::string const& key, std::string const& detail);
/** number of violations so far */
size_t violations();
/** A harness-side failure: the check could not decide (exit code 3) */
[[noreturn]] void harness_error(std::string const& why);
void rule(std::string const& text);
void assumption(std::string const& text);

uint64_t hash(std::string const& s);
std::string printable(std::string const& s, size_t limit = 300);
std::string hex(std::vector<uint8_t> const& v, size_t limit = 64);
std::string type_name(std::exception const& e);

struct Registration { Registration(char const* prop, void (*fn)()); };

/** Write all of some text to a file (harness-side, with checks) */
void write_file(std::string const& path, std::string const& content);
std::string read_file(std::string const& path);
bool file_exists(std::string const& path);
/** make a fresh empty directory inside the scratch directory */
std::string fresh_dir(std::string const& name);
void remove_tree(std::string const& path);

}

#define KIT_CHECK(id, fn) static kit::Registration kit_reg_##fn(id, fn)

#define EXPECT(cond, key, detail) do { \
		kit::observed(); \
		if (!(cond)) { \
			std::ostringstream kit_o_; \
			kit_o_ << detail; \
			kit::violation(key, kit_o_.str()); \
		} \
	} while (0)

#endif
