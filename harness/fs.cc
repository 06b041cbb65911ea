/* C06: file-system wrappers against boost::filesystem on a twin tree. */
#include "kit.h"
#include "filesystem.h"
#include <algorithm>
#include <boost/filesystem.hpp>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <unistd.h>

using namespace kit;
using std::string;
using std::vector;
namespace bfs = boost::filesystem;
namespace dfs = dcp::filesystem;

namespace {

string dir;
string const unicode = "caf\xc3\xa9 \xe6\x98\xa0\xe7\x94\xbb";

string read_link(string const& p)
{
	char buffer[4096];
	auto const n = readlink(p.c_str(), buffer, sizeof(buffer));
	return n > 0 ? string(buffer, n) : "";
}

/** Everything visible under a directory, as text */
void snapshot(string const& root, string const& rel, vector<string>& out)
{
	vector<string> names;
	for (auto const& i: bfs::directory_iterator(root + rel)) {
		names.push_back(i.path().filename().string());
	}
	std::sort(names.begin(), names.end());
	for (auto const& n: names) {
		auto const r = rel + "/" + n;
		auto const p = root + r;
		struct stat st;
		if (lstat(p.c_str(), &st) != 0) {
			continue;
		}
		std::ostringstream o;
		o << r << " " << std::oct << st.st_mode << std::dec << " links " << (S_ISDIR(st.st_mode) ? 0 : st.st_nlink);
		if (S_ISREG(st.st_mode)) {
			o << " size " << st.st_size;
			if (st.st_mode & 0400) {
				o << " #" << kit::hash(read_file(p));
			}
		}
		if (S_ISLNK(st.st_mode)) {
			auto t = read_link(p);
			auto const at = t.find(root);
			o << " -> " << (at == 0 ? "ROOT" + t.substr(root.length()) : t);
		}
		out.push_back(o.str());
		if (S_ISDIR(st.st_mode) && (st.st_mode & 0500) == 0500) {
			snapshot(root, r, out);
		}
	}
}

void build(string const& root, uint64_t seed)
{
	Rng r(seed);
	auto p = [&](string const& s) { return root + "/" + s; };
	mkdir(root.c_str(), 0700);
	mkdir(p("d0").c_str(), 0700);
	mkdir(p("d0/sub").c_str(), 0750);
	mkdir(p("d1").c_str(), 0700);
	mkdir(p("empty").c_str(), 0700);
	mkdir(p(unicode).c_str(), 0700);
	mkdir(p("locked").c_str(), 0700);
	auto content = [&]() { return r.from("abc\n", r.below(3) == 0 ? 0 : r.below(9000)); };
	write_file(p("f0"), content());
	write_file(p("f1.tar.gz"), content());
	write_file(p("zero"), "");
	write_file(p("d0/f.txt"), content());
	write_file(p("d0/sub/deep"), content());
	write_file(p("d1/.hidden"), content());
	write_file(p(unicode + "/file"), content());
	write_file(p("locked/inside"), content());
	write_file(p("unreadable"), content());
	chmod(p("unreadable").c_str(), 0);
	if (symlink("f0", p("lf").c_str()) || symlink("d0", p("ld").c_str()) || symlink("nowhere", p("dangling").c_str()) || symlink("loop", p("loop").c_str()) || symlink("../d1", p("d0/up").c_str()) || link(p("f0").c_str(), p("hard").c_str())) {
		harness_error("cannot build tree");
	}
	if (mkfifo(p("fifo").c_str(), 0600)) {
		harness_error("cannot make fifo");
	}
	if (r.below(2)) {
		chmod(p("locked").c_str(), 0);
	}
}

void unbuild(string const& root)
{
	chmod((root + "/locked").c_str(), 0700);
}

string random_rel()
{
	static vector<string> const names = {
		"d0", "d0/sub", "d1", "empty", unicode, "locked", "f0", "f1.tar.gz", "zero", "d0/f.txt", "d0/sub/deep", "d1/.hidden", unicode + "/file", "locked/inside",
		"unreadable", "lf", "ld", "dangling", "loop", "d0/up", "hard", "fifo", "new", "new/deeper/still", "d0/new", "ld/f.txt", "ld/sub", "dangling/x", "loop/x", "f0/x",
		"d0/../f0", "./f0", "d0//f.txt", "d0/sub/../../d1", "d0/", "f0/", "ld/", "dangling/", "new/", "missing/../f0", "", "d0/up/.hidden", "ld/up/.hidden", string(255, 'n'), string(256, 'n')
	};
	return rng.pick(names);
}

/** What a call gave: a value as text, or an error */
struct Result
{
	string value;
	int error = 0;
	bool threw = false;
	bool other = false;
	bool operator==(Result const& o) const { return value == o.value && error == o.error && threw == o.threw && other == o.other; }
	string text() const { return threw ? "threw " + std::to_string(error) : "value " + value + " error " + std::to_string(error); }
};

Result attempt(std::function<string (boost::system::error_code&)> fn)
{
	Result r;
	/* what was there before the call must not show through */
	boost::system::error_code ec = boost::system::errc::make_error_code(boost::system::errc::address_in_use);
	bool used = true;
	try {
		r.value = fn(ec);
	} catch (bfs::filesystem_error& e) {
		r.threw = true;
		r.error = e.code().value();
		return r;
	} catch (boost::system::system_error& e) {
		r.threw = true;
		r.error = e.code().value();
		return r;
	} catch (std::exception&) {
		r.threw = r.other = true;
		return r;
	}
	r.error = ec.value();
	return r;
}

typedef boost::system::error_code EC;

template <class T> string show(T t) { std::ostringstream o; o << t; return o.str(); }

/** Express a path relative to a tree so that twins can be compared */
string strip(bfs::path const& p, string const& root)
{
	auto s = p.string();
	auto const at = s.find(root);
	return at == 0 ? "ROOT" + s.substr(root.length()) : s;
}

void compare(string const& name, std::function<string (string const&, EC&)> ours, std::function<string (string const&, EC&)> plain, bool effects, uint64_t seed, string const& args)
{
	string const A = dir + "/A/tree", B = dir + "/B/tree";
	for (auto const& t: {A, B}) {
		if (file_exists(t)) { unbuild(t); }
		remove_tree(t);
		build(t, seed);
	}
	begin_case(name + " " + args + " tree " + std::to_string(seed % 97));
	auto const a = attempt([&](EC& ec) { return ours(A, ec); });
	auto const b = attempt([&](EC& ec) { return plain(B, ec); });
	EXPECT(a == b, "wrapper:" + name, args << " gave " << printable(a.text()) << " instead of " << printable(b.text()));
	/* also when an operation is not meant to change anything */
	vector<string> sa, sb;
	snapshot(A, "", sa);
	snapshot(B, "", sb);
	size_t d = 0;
	while (d < sa.size() && d < sb.size() && sa[d] == sb[d]) { ++d; }
	EXPECT(sa == sb, "effect:" + name, args << " left [" << printable(d < sa.size() ? sa[d] : "nothing") << "] instead of [" << printable(d < sb.size() ? sb[d] : "nothing") << "]");
	count(b.threw || b.error ? "failing_calls" : "successful_calls");
	(void) effects;
}

string listing(vector<string> v, string const& root)
{
	std::sort(v.begin(), v.end());
	string s;
	for (auto const& i: v) {
		s += strip(i, root) + ";";
	}
	return s;
}

template <class I> vector<string> walk_plain(I i)
{
	vector<string> v;
	for (; i != I(); ++i) {
		v.push_back(i->path().string());
	}
	return v;
}

template <class I> vector<string> walk_for(I i)
{
	vector<string> v;
	for (auto const& e: i) {
		v.push_back(e.path().string());
		bfs::path const& conv = e;
		if (conv != e.path()) {
			v.push_back("conversion differs");
		}
	}
	return v;
}

template <class I> vector<string> walk_arrow(I i)
{
	vector<string> v;
	for (; i != I(); ++i) {
		v.push_back(i->path().string());
		auto const copy = *i;
		if (copy.path() != i->path()) {
			v.push_back("dereference differs");
		}
	}
	return v;
}

string unique_note(vector<string> v)
{
	std::sort(v.begin(), v.end());
	return std::adjacent_find(v.begin(), v.end()) == v.end() ? "" : " repeated entries";
}

void one(uint64_t seed)
{
	auto const x = random_rel(), y = random_rel();
	auto P = [x](string const& root) { return bfs::path(root + "/" + x); };
	auto Q = [y](string const& root) { return bfs::path(root + "/" + y); };
	auto const args = "[" + x + "]";
	auto const args2 = "[" + x + "] [" + y + "]";
	#define SAME(name, expr_d, expr_b) compare(name, [=](string const& root, EC& ec) -> string { (void) ec; namespace fs = dfs; return expr_d; }, [=](string const& root, EC& ec) -> string { (void) ec; namespace fs = bfs; return expr_b; }, true, seed, args)
	#define BOTH(name, expr) SAME(name, expr, expr)
	#define BOTH2(name, expr) compare(name, [=](string const& root, EC& ec) -> string { (void) ec; namespace fs = dfs; return expr; }, [=](string const& root, EC& ec) -> string { (void) ec; namespace fs = bfs; return expr; }, true, seed, args2)
	switch (rng.below(38)) {
	case 0: BOTH("exists", show(fs::exists(P(root)))); break;
	case 1: BOTH("exists_ec", show(fs::exists(P(root), ec))); break;
	case 2: BOTH("is_directory", show(fs::is_directory(P(root)))); break;
	case 3: if (x != "fifo") { BOTH("is_empty", show(fs::is_empty(P(root)))); } break;
	case 4: BOTH("is_regular_file", show(fs::is_regular_file(P(root)))); break;
	case 5: BOTH("create_directory", show(fs::create_directory(P(root)))); break;
	case 6: BOTH("create_directory_ec", show(fs::create_directory(P(root), ec))); break;
	case 7: BOTH("create_directories", show(fs::create_directories(P(root)))); break;
	case 8: BOTH("create_directories_ec", show(fs::create_directories(P(root), ec))); break;
	case 9: if (x != "fifo") { BOTH2("copy", (fs::copy(P(root), Q(root)), "")); } break;
	case 10: if (x != "fifo") { BOTH2("copy_file", (fs::copy_file(P(root), Q(root)), "")); } break;
	case 11: if (x != "fifo") { BOTH2("copy_file_ec", (fs::copy_file(P(root), Q(root), ec), "")); } break;
	case 12: if (x != "fifo" && y != "fifo") {
		compare("copy_file_overwrite", [=](string const& root, EC&) { dfs::copy_file(P(root), Q(root), dfs::CopyOptions::OVERWRITE_EXISTING); return string(); },
			[=](string const& root, EC&) { bfs::copy_file(P(root), Q(root), bfs::copy_options::overwrite_existing); return string(); }, true, seed, args2);
	} break;
	case 13: if (x != "fifo") {
		compare("copy_file_none", [=](string const& root, EC&) { dfs::copy_file(P(root), Q(root), dfs::CopyOptions::NONE); return string(); },
			[=](string const& root, EC&) { bfs::copy_file(P(root), Q(root), bfs::copy_options::none); return string(); }, true, seed, args2);
	} break;
	case 14: BOTH("remove", show(fs::remove(P(root)))); break;
	case 15: BOTH("remove_ec", show(fs::remove(P(root), ec))); break;
	case 16: if (!x.empty()) { BOTH("remove_all", show(fs::remove_all(P(root)))); } break;
	case 17: if (!x.empty()) { BOTH("remove_all_ec", show(fs::remove_all(P(root), ec))); } break;
	case 18: BOTH("file_size", show(fs::file_size(P(root)))); break;
	case 19: BOTH("file_size_ec", show(fs::file_size(P(root), ec))); break;
	case 20: BOTH2("create_hard_link", (fs::create_hard_link(P(root), Q(root)), "")); break;
	case 21: BOTH2("create_hard_link_ec", (fs::create_hard_link(P(root), Q(root), ec), "")); break;
	case 22: BOTH2("create_symlink_ec", (fs::create_symlink(P(root), Q(root), ec), "")); break;
	case 23: BOTH2("rename", (fs::rename(P(root), Q(root)), "")); break;
	case 24: BOTH2("rename_ec", (fs::rename(P(root), Q(root), ec), "")); break;
	case 25: BOTH("hard_link_count", show(fs::hard_link_count(P(root)))); break;
	case 26: case 27: {
		/* times: set the same on both trees first */
		auto stamp = [=](string const& root) {
			struct timespec t[2] = { { 1000000, 0 }, { time_t(1400000000 + seed % 1000000), 0 } };
			utimensat(AT_FDCWD, P(root).c_str(), t, 0);
		};
		if (rng.coin()) {
			BOTH("last_write_time", (stamp(root), show(fs::last_write_time(P(root)))));
		} else {
			BOTH("last_write_time_ec", (stamp(root), show(fs::last_write_time(P(root), ec))));
		}
		break;
	}
	case 28: BOTH("absolute", strip(fs::absolute(P(root)), root)); break;
	case 29: case 30: BOTH("canonical", strip(fs::canonical(P(root)), root)); break;
	case 31: SAME("extension", dfs::extension(P(root)), P(root).extension().string()); break;
	case 32: {
		string const e = rng.pick({string(".xml"), string("xml"), string(""), string(".a.b"), string(".")});
		SAME("change_extension", strip(dfs::change_extension(P(root), e), root), strip(P(root).replace_extension(e), root));
		break;
	}
	case 33:
		compare("space", [=](string const& root, EC&) {
				/* free space changes all the time: ask in between two equal answers of the system, more than once */
				int wrong = 0;
				for (int tries = 0; tries < 200 && wrong < 20; ++tries) {
					struct statvfs x, y;
					bool const before = statvfs(P(root).c_str(), &x) == 0;
					auto s = dfs::space(P(root));
					if (before && statvfs(P(root).c_str(), &y) == 0 && x.f_bfree == y.f_bfree && x.f_bavail == y.f_bavail) {
						if (s.free == uintmax_t(x.f_bfree) * x.f_frsize && s.available == uintmax_t(x.f_bavail) * x.f_frsize) {
							count("free_spaces_compared");
							return show(s.capacity);
						}
						++wrong;
					}
				}
				if (wrong == 20) {
					return string("wrong free or available space");
				}
				return show(dfs::space(P(root)).capacity);
			},
			[=](string const& root, EC&) { auto s = bfs::space(P(root)); return show(s.capacity); }, false, seed, args);
		break;
	case 34: {
		/* the current directory is process-wide: put it back */
		auto const before = bfs::current_path();
		auto in = [=](string const& root, bool ours) {
			string r;
			try {
				if (ours) { dfs::current_path(P(root)); r = strip(dfs::current_path(), root); } else { bfs::current_path(P(root)); r = strip(bfs::current_path(), root); }
				char buffer[4096];
				r += "|" + strip(string(getcwd(buffer, sizeof(buffer)) ? buffer : ""), root);
				r += "|" + strip(ours ? dfs::absolute("some/thing") : bfs::absolute("some/thing"), root);
			} catch (...) {
				bfs::current_path(before);
				throw;
			}
			bfs::current_path(before);
			return r;
		};
		compare("current_path", [=](string const& root, EC&) { return in(root, true); }, [=](string const& root, EC&) { return in(root, false); }, false, seed, args);
		break;
	}
	case 35: {
		int const how = rng.below(2);
		compare("directory_iterator", [=](string const& root, EC&) { auto v = how ? walk_for(dfs::directory_iterator(P(root))) : walk_arrow(dfs::directory_iterator(P(root))); return listing(v, root) + unique_note(v); },
			[=](string const& root, EC&) { return listing(walk_plain(bfs::directory_iterator(P(root))), root); }, false, seed, args);
		break;
	}
	case 36:
		compare("directory_iterator_ec", [=](string const& root, EC& ec) { dfs::directory_iterator i(P(root), ec); return ec ? string("failed") : listing(walk_arrow(i), root); },
			[=](string const& root, EC& ec) { bfs::directory_iterator i(P(root), ec); return ec ? string("failed") : listing(walk_plain(i), root); }, false, seed, args);
		break;
	case 37: {
		int const how = rng.below(2);
		compare("recursive_directory_iterator", [=](string const& root, EC&) { auto v = how ? walk_for(dfs::recursive_directory_iterator(P(root))) : walk_arrow(dfs::recursive_directory_iterator(P(root))); return listing(v, root) + unique_note(v); },
			[=](string const& root, EC&) { return listing(walk_plain(bfs::recursive_directory_iterator(P(root))), root); }, false, seed, args);
		break;
	}
	}
}

vector<string> split(string const& s)
{
	vector<string> parts;
	string part;
	for (auto c: s + "/") {
		if (c == '/') {
			if (!part.empty()) { parts.push_back(part); }
			part.clear();
		} else {
			part += c;
		}
	}
	return parts;
}

string join(vector<string> const& parts)
{
	string s;
	for (auto const& i: parts) { s += "/" + i; }
	return s.empty() ? "/" : s;
}

void canonicalisation(size_t n)
{
	string const A = dir + "/A/tree";
	if (file_exists(A)) { unbuild(A); }
	remove_tree(A);
	build(A, 1);
	bfs::path const before = bfs::current_path();
	bfs::current_path(A);
	for (size_t i = 0; i < n; ++i) {
		string s;
		bool const absolute = rng.coin();
		if (absolute) {
			s = rng.chance(0.6) ? A : rng.pick({string(""), string("/tmp")});
			if (s.empty() || s != "/") { s += "/"; }
		}
		int const parts = rng.below(9);
		for (int k = 0; k < parts; ++k) {
			s += rng.pick({string("."), string(".."), string(".."), string("d0"), string("sub"), string("ld"), string("lf"), string("dangling"), string("f0"), unicode, string("none"), string("..."), string("up"), string(".hidden"), string("a b")});
			if (k < parts - 1 || rng.chance(0.2)) {
				s += rng.chance(0.1) ? "//" : "/";
			}
		}
		if (s.empty()) {
			continue;
		}
		begin_case("weakly_canonical [" + (s.find(A) == 0 ? "ROOT" + s.substr(A.length()) : s) + "]", s.find("..") != string::npos);
		vector<string> e;
		for (auto const& part: split(absolute ? s : A + "/" + s)) {
			if (part == "..") {
				struct stat st;
				auto const here = join(e);
				bool const is_link = !e.empty() && lstat(here.c_str(), &st) == 0 && S_ISLNK(st.st_mode);
				if (is_link || (!e.empty() && e.back() == "..")) {
					e.push_back(part);
				} else if (!e.empty()) {
					e.pop_back();
				}
			} else if (part != ".") {
				e.push_back(part);
			}
		}
		auto const got = dfs::weakly_canonical(s);
		EXPECT(got.is_absolute(), "canonical:relative", got.string());
		EXPECT(got.string().find("//") != 0, "canonical:root", got.string());
		EXPECT(split(got.string()) == e, "canonical:parts", "gave " << got.string() << " expected " << join(e));
		for (auto const& part: split(got.string())) {
			EXPECT(part != ".", "canonical:dot", got.string());
		}
		auto const twice = dfs::weakly_canonical(got);
		EXPECT(split(twice.string()) == e, "canonical:again", "gave " << twice.string() << " from " << got.string());
		auto const fixed = dfs::fix_long_path(s);
		EXPECT(dfs::unfix_long_path(fixed) == bfs::path(s) || dfs::unfix_long_path(fixed) == bfs::absolute(s), "long-path", fixed.string());
		EXPECT(dfs::unfix_long_path(s) == bfs::path(s), "long-path:plain", s);
	}
	bfs::current_path(before);
	unbuild(A);
}

void c06()
{
	rule("Each call of each wrapper (throwing and error-code forms, iterators in range-for and arrow form) on paths to files, directories, symlinks (good, dangling, looping), hard links, a FIFO, unreadable and locked entries, missing, over-long and non-ASCII names, with dots and trailing slashes, against the plain boost call on an identical twin tree: result, error, and a full snapshot of both trees. Canonicalisation against an independent walk over path parts. Non-trivial = every wrapper case; canonicalisation cases with a \"..\".");
	assumption("runs as an unprivileged user inside a scratch directory");
	dir = fresh_dir("c06");
	mkdir((dir + "/A").c_str(), 0700);
	mkdir((dir + "/B").c_str(), 0700);
	size_t const N = budget(5000, 150000);
	for (size_t n = 0; n < N; ++n) {
		one(rng.next());
	}
	canonicalisation(budget(20000, 400000));

	/* directories of many sizes, each entry once */
	for (int size: {0, 1, 2, 100, 1000}) {
		string const p = dir + "/many";
		remove_tree(p);
		mkdir(p.c_str(), 0700);
		vector<string> e;
		for (int i = 0; i < size; ++i) {
			e.push_back(p + "/" + std::to_string(i));
			write_file(e.back(), "");
		}
		begin_case("directory of " + std::to_string(size));
		std::sort(e.begin(), e.end());
		auto a = walk_for(dfs::directory_iterator(p)), b = walk_arrow(dfs::recursive_directory_iterator(p));
		std::sort(a.begin(), a.end());
		std::sort(b.begin(), b.end());
		EXPECT(a == e, "iterator:entries", a.size() << " of " << size);
		EXPECT(b == e, "iterator:recursive-entries", b.size() << " of " << size);
	}
	for (auto const& t: {dir + "/A/tree", dir + "/B/tree"}) {
		if (file_exists(t)) { unbuild(t); }
	}
	remove_tree(dir);
}

KIT_CHECK("C06", c06);

}
