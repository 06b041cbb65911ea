#include "kit.h"
#include <cxxabi.h>
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <signal.h>
#include <cstdio>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <mutex>
#include <set>
#include <typeinfo>
#include <unordered_set>

extern "C" int __lsan_do_recoverable_leak_check() __attribute__((weak));
extern "C" void __sanitizer_set_death_callback(void (*callback)(void)) __attribute__((weak));

namespace kit {

Options opt;
Rng rng(1);

struct Violation { std::string key, detail, desc; };

static std::map<std::string, std::vector<void (*)()>>& registry() { static std::map<std::string, std::vector<void (*)()>> r; return r; }
static std::mutex mutex;
static uint64_t evaluations = 0, observations = 0, nontrivial_cases = 0;
static std::unordered_set<uint64_t> distinct;
static std::map<std::string, uint64_t> counters;
static std::map<std::string, double> maxima;
static std::vector<Violation> found;
static std::map<std::string, int> found_by_key;
static std::vector<std::string> samples;
static std::vector<std::string> rules, assumptions;
static char case_buffer[4096];
static int out_fd = -1, hash_fd = -1;
static bool finished = false;

Registration::Registration(char const* prop, void (*fn)()) { registry()[prop].push_back(fn); }

size_t budget(size_t quick, size_t thorough)
{
	size_t const n = opt.thorough ? thorough : quick;
	return std::max<size_t>(1, n / opt.shards);
}

uint64_t hash(std::string const& s)
{
	uint64_t h = 1469598103934665603ull;
	for (unsigned char c: s) { h = (h ^ c) * 1099511628211ull; }
	h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 29;
	return h;
}

static void add_violation(std::string const& key, std::string const& detail);
static void put(int fd, char const* p, size_t n);
static std::string start_directory;

static std::string link_of(std::string const& path)
{
	char b[4096];
	auto const n = readlink(path.c_str(), b, sizeof(b) - 1);
	return n < 0 ? std::string() : std::string(b, n);
}

static std::vector<std::string> names_in(std::string const& dir)
{
	std::vector<std::string> out;
	if (auto d = opendir(dir.c_str())) {
		while (auto e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") { out.push_back(n); } }
		closedir(d);
	}
	return out;
}

/** Look for things that earlier cases have not given back: memory that nothing points to, open files, temporary files, the current directory */
static void watch_leaks()
{
	if (__lsan_do_recoverable_leak_check()) {
		fprintf(stderr, "\nKIT death in case [%s]\n", printable(case_buffer, 2000).c_str());
		_exit(23);
	}
	/* Something may be in use now, but not the same thing this time and last time */
	static std::set<std::string> last_open, last_temporary;
	std::set<std::string> now_open, now_temporary;
	for (auto const& n: names_in("/proc/self/fd")) {
		auto const target = link_of("/proc/self/fd/" + n);
		if (target.compare(0, opt.scratch.size(), opt.scratch) == 0) { now_open.insert(n + " " + target); }
	}
	if (auto t = getenv("TMPDIR")) {
		for (auto const& n: names_in(t)) { now_temporary.insert(n); }
	}
	for (auto const& i: now_open) { if (last_open.count(i)) { add_violation("descriptor", "descriptor and file still open: " + i); } }
	for (auto const& i: now_temporary) { if (last_temporary.count(i)) { add_violation("temporary-file", "temporary file or directory still there: " + i); } }
	last_open = now_open;
	last_temporary = now_temporary;
	auto const directory = link_of("/proc/self/cwd");
	/* The work of C06 itself moves about */
	if (opt.work != "C06" && directory != start_directory) {
		add_violation("current-directory", "the current directory was changed to " + directory);
		if (chdir(opt.scratch.c_str()) != 0) { harness_error("cannot go back"); }
	}
	observed(4);
	counters["looks for things not given back"]++;
}

void begin_case(std::string const& desc, bool nontrivial)
{
	if (!opt.work.empty() && evaluations && evaluations % (opt.work == "C01" ? 200 : 20) == 0) { watch_leaks(); }
	std::lock_guard<std::mutex> lm(mutex);
	++evaluations;
	snprintf(case_buffer, sizeof(case_buffer), "%s", desc.c_str());
	if (nontrivial) {
		++nontrivial_cases;
		bool const fresh = distinct.insert(hash(desc)).second;
		/* keep a few spread-out samples */
		if (fresh && samples.size() < 12 && (evaluations < 4 || (evaluations & (evaluations - 1)) == 0)) {
			samples.push_back(printable(desc, 400));
		}
	}
}

std::string current_case() { return case_buffer; }
void observed(uint64_t n) { __atomic_add_fetch(&observations, n, __ATOMIC_RELAXED); }
void count(std::string const& what, uint64_t n) { std::lock_guard<std::mutex> lm(mutex); counters[what] += n; }
void note_max(std::string const& what, double v) { std::lock_guard<std::mutex> lm(mutex); auto i = maxima.find(what); if (i == maxima.end()) { maxima[what] = v; } else if (v > i->second) { i->second = v; } }

void violation(std::string const& key, std::string const& detail)
{
	/* When watching for leaks the results themselves are not of interest */
	if (opt.work.empty()) { add_violation(key, detail); }
}

static void add_violation(std::string const& key, std::string const& detail)
{
	std::lock_guard<std::mutex> lm(mutex);
	if (found_by_key[key]++ < 3 && found.size() < 60) {
		found.push_back({key, detail, case_buffer});
		fprintf(stderr, "KIT violation key=%s case=[%s] %s\n", key.c_str(), printable(case_buffer).c_str(), printable(detail, 600).c_str());
	}
}

size_t violations() { std::lock_guard<std::mutex> lm(mutex); size_t n = 0; for (auto const& i: found_by_key) { n += i.second; } return n; }
void rule(std::string const& text) { rules.push_back(text); }
void assumption(std::string const& text) { assumptions.push_back(text); }

std::string printable(std::string const& s, size_t limit)
{
	std::string o;
	for (unsigned char c: s) {
		if (o.size() > limit) { o += "..."; break; }
		if (c >= 32 && c < 127 && c != '\\') { o += c; } else { char b[8]; snprintf(b, sizeof(b), "\\x%02x", c); o += b; }
	}
	return o;
}

std::string hex(std::vector<uint8_t> const& v, size_t limit)
{
	std::string o;
	for (size_t i = 0; i < v.size() && i < limit; ++i) { char b[4]; snprintf(b, sizeof(b), "%02x", v[i]); o += b; }
	if (v.size() > limit) { o += "..."; }
	return o;
}

std::string type_name(std::exception const& e)
{
	int status = 0;
	char* d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &status);
	std::string r = d ? d : typeid(e).name();
	free(d);
	return r;
}

static std::string json(std::string const& s)
{
	std::string o = "\"";
	for (unsigned char c: s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
		else { o += c; }
	}
	return o + "\"";
}

static void put(int fd, char const* p, size_t n)
{
	while (n > 0) {
		ssize_t const r = ::write(fd, p, n);
		if (r <= 0) { break; }
		p += r; n -= r;
	}
}

static void finish(bool complete)
{
	if (finished) { return; }
	finished = true;
	std::ostringstream o;
	o << "{\"complete\":" << (complete ? "true" : "false") << ",\"evaluations\":" << evaluations << ",\"observations\":" << observations
	  << ",\"nontrivial\":" << nontrivial_cases << ",\"distinct\":" << distinct.size() << ",\"current_case\":" << json(case_buffer);
	o << ",\"counters\":{";
	bool first = true;
	for (auto const& i: counters) { o << (first ? "" : ",") << json(i.first) << ":" << i.second; first = false; }
	o << "},\"maxima\":{";
	first = true;
	o.precision(17);
	for (auto const& i: maxima) { o << (first ? "" : ",") << json(i.first) << ":" << i.second; first = false; }
	auto list = [&o](char const* name, std::vector<std::string> const& v) {
		o << ",\"" << name << "\":[";
		for (size_t i = 0; i < v.size(); ++i) { o << (i ? "," : "") << json(v[i]); }
		o << "]";
	};
	o << "}";
	list("samples", samples); list("rules", rules); list("assumptions", assumptions);
	o << ",\"violations\":[";
	for (size_t i = 0; i < found.size(); ++i) {
		o << (i ? "," : "") << "{\"key\":" << json(found[i].key) << ",\"detail\":" << json(printable(found[i].detail, 2000)) << ",\"case\":" << json(printable(found[i].desc, 3000)) << ",\"times\":" << found_by_key[found[i].key] << "}";
	}
	o << "]}\n";
	auto const s = o.str();
	if (out_fd >= 0) { put(out_fd, s.data(), s.size()); close(out_fd); }
	if (hash_fd >= 0) {
		std::vector<uint64_t> v(distinct.begin(), distinct.end());
		if (v.size() > 3000000) { v.resize(3000000); }
		put(hash_fd, reinterpret_cast<char const*>(v.data()), v.size() * 8);
		close(hash_fd);
	}
}

static void death()
{
	fprintf(stderr, "\nKIT death in case [%s]\n", printable(case_buffer, 2000).c_str());
	/* Avoid allocation-heavy work here; the runner takes the case from this line */
}

static void on_signal(int s)
{
	char const* m = "\nKIT signal death in case [";
	put(2, m, strlen(m));
	put(2, case_buffer, strlen(case_buffer));
	put(2, "]\n", 2);
	signal(s, SIG_DFL);
	raise(s);
}

void harness_error(std::string const& why)
{
	fprintf(stderr, "KIT harness error: %s (case [%s])\n", why.c_str(), printable(case_buffer, 500).c_str());
	finish(false);
	_exit(3);
}

void write_file(std::string const& path, std::string const& content)
{
	int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd < 0) { harness_error("cannot create " + path); }
	put(fd, content.data(), content.size());
	close(fd);
}

std::string read_file(std::string const& path)
{
	std::ifstream f(path, std::ios::binary);
	if (!f) { harness_error("cannot read " + path); }
	std::ostringstream o;
	o << f.rdbuf();
	return o.str();
}

bool file_exists(std::string const& path) { struct stat st; return lstat(path.c_str(), &st) == 0; }

void remove_tree(std::string const& path)
{
	if (path.compare(0, opt.scratch.size(), opt.scratch) != 0 || path.find("..") != std::string::npos) { harness_error("refusing to remove " + path); }
	struct stat st;
	if (lstat(path.c_str(), &st) != 0) { return; }
	if (S_ISDIR(st.st_mode)) {
		chmod(path.c_str(), 0755);
		if (auto d = opendir(path.c_str())) {
			std::vector<std::string> names;
			while (auto e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") { names.push_back(n); } }
			closedir(d);
			for (auto const& n: names) { remove_tree(path + "/" + n); }
		}
		rmdir(path.c_str());
	} else {
		unlink(path.c_str());
	}
}

std::string fresh_dir(std::string const& name)
{
	auto p = opt.scratch + "/" + name;
	remove_tree(p);
	if (mkdir(p.c_str(), 0755) != 0) { harness_error("cannot make " + p); }
	return p;
}

}

int main(int argc, char* argv[])
{
	using namespace kit;
	std::string out;
	for (int i = 1; i + 1 < argc; i += 2) {
		std::string const a = argv[i], v = argv[i + 1];
		if (a == "--prop") { opt.prop = v; }
		else if (a == "--seed") { opt.seed = strtoull(v.c_str(), nullptr, 10); }
		else if (a == "--tier") { opt.thorough = v == "thorough"; }
		else if (a == "--scratch") { opt.scratch = v; }
		else if (a == "--repo") { opt.repo = v; }
		else if (a == "--verif") { opt.verif = v; }
		else if (a == "--shard") { opt.shard = atoi(v.c_str()); }
		else if (a == "--shards") { opt.shards = atoi(v.c_str()); }
		else if (a == "--work") { opt.work = v; }
		else if (a == "--out") { out = v; }
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
	}
	if (opt.prop.empty() || opt.scratch.empty()) { fprintf(stderr, "need --prop and --scratch\n"); return 3; }
	if (!out.empty()) {
		out_fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
		hash_fd = open((out + ".hashes").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
		if (out_fd < 0 || hash_fd < 0) { fprintf(stderr, "cannot open %s\n", out.c_str()); return 3; }
	}
	/* The code under test deletes and overwrites files: run it as a user who owns nothing but the scratch directory */
	if (geteuid() == 0) {
		uid_t const uid = 64999;
		if (setgroups(0, nullptr) != 0 || setgid(uid) != 0 || setuid(uid) != 0 || geteuid() == 0) { fprintf(stderr, "cannot drop privileges\n"); return 3; }
		prctl(PR_SET_DUMPABLE, 1);
	}
	umask(022);
	if (chdir(opt.scratch.c_str()) != 0) { fprintf(stderr, "cannot enter %s\n", opt.scratch.c_str()); return 3; }
	rng.reseed(opt.seed * 1000003 + opt.shard * 7919 + hash(opt.prop) % 1000);
	if (__sanitizer_set_death_callback) { __sanitizer_set_death_callback(death); }
	if (!__sanitizer_set_death_callback) { signal(SIGSEGV, on_signal); signal(SIGFPE, on_signal); }
	signal(SIGABRT, on_signal);
	start_directory = link_of("/proc/self/cwd");
	if (!opt.work.empty() && !__lsan_do_recoverable_leak_check) { fprintf(stderr, "no leak detection here\n"); return 3; }
	auto i = registry().find(opt.work.empty() ? opt.prop : opt.work);
	if (i == registry().end()) { fprintf(stderr, "no check for %s here\n", opt.prop.c_str()); return 3; }
	for (auto fn: i->second) {
		try {
			fn();
		} catch (std::exception& e) {
			violation("uncaught:" + type_name(e), std::string("unexpected exception: ") + e.what());
		} catch (...) {
			violation("uncaught:unknown", "unexpected exception of unknown type");
		}
	}
	if (!opt.work.empty()) {
		watch_leaks();
		watch_leaks();
	}
	finish(true);
	fflush(stdout); fflush(stderr);
	_exit(0);
}
