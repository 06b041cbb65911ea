/* C03, C04, C05, C07: files, memory blocks and scope guards. */
#include "kit.h"
#include "interpose.h"
#include "tracer.h"
#include "array_data.h"
#include "data.h"
#include "exceptions.h"
#include "file.h"
#include "scope_guard.h"
#include <cerrno>
#include <fcntl.h>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>

using namespace interpose;
using namespace kit;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::unique_ptr;
using std::vector;

namespace {

string random_content(size_t n)
{
	string s(n, 0);
	bool const runs = rng.chance(0.2);
	for (size_t i = 0; i < n; ++i) {
		s[i] = runs ? char(n & 0xff) : char(rng.next());
	}
	return s;
}

size_t random_size()
{
	switch (rng.below(6)) {
	case 0: return rng.pick({0, 1, 2});
	case 1: return rng.pick({4095, 4096, 4097, 8191, 8192, 8193});
	case 2: return rng.below(200);
	case 3: return rng.below(70000);
	case 4: return 65536 + rng.range(-1, 1);
	default: return rng.below(20000);
	}
}

dcp::ArrayData to_data(string const& s) { return dcp::ArrayData(reinterpret_cast<uint8_t const*>(s.data()), s.size()); }

string describe_action(tracer::Plan const& p)
{
	static char const* names[] = { "none", "killed before", "killed after", "failed", "failed from", "short", "full" };
	return string(names[int(p.action)]) + " at call " + std::to_string(p.at) + (p.error ? " error " + std::to_string(p.error) : "");
}

void c03()
{
	rule("Each scenario (new size, destination absent or with other content, stale temporary or not, same or other directory) is first traced, then re-run once per file system call in it for each of: killed just before, killed just after, call fails with ENOSPC/EIO/EXDEV..., all later writes fail, write shortened, write shortened with all later writes failing. The destination is read by the tracing parent before and after every call. Non-trivial = a kill or failure was injected.");
	assumption("the process is killed or the storage fails; loss of power with unflushed caches is not simulated");
	if (!tracer::available()) {
		harness_error("ptrace is not available");
	}
	size_t const N = budget(120, 1500);
	for (size_t n = 0; n < N; ++n) {
		auto const dir = fresh_dir("c03");
		mkdir((dir + "/sub").c_str(), 0700);
		auto const fresh = random_content(n < 4 ? size_t(rng.pick({0, 1, 4096, 10000})) : random_size());
		int const had = rng.below(5);
		string old = had == 0 ? "" : had == 1 ? fresh.substr(0, fresh.size() / 2) : had == 2 ? fresh + "more" : random_content(random_size());
		bool const existing = rng.chance(0.75);
		bool const stale = rng.chance(0.4);
		string const temp = dir + rng.pick({string("/temp"), string("/sub/temp"), string("/final.tmp")});
		string const final = dir + rng.pick({string("/final"), string("/sub/final")});
		string const stale_content = random_content(random_size());
		auto const data = to_data(fresh);

		auto reset = [&]() {
			remove_tree(temp);
			remove_tree(final);
			if (existing) {
				write_file(final, old);
			}
			if (stale) {
				write_file(temp, stale_content);
			}
		};

		auto state_ok = [&]() {
			if (!file_exists(final)) {
				return !existing;
			}
			auto const c = read_file(final);
			return c == fresh || (existing && c == old);
		};

		std::ostringstream o;
		o << "new " << fresh.size() << (existing ? " old " + std::to_string(old.size()) : " absent") << (stale ? " stale " : " ") << temp.substr(dir.length()) << " -> " << final.substr(dir.length()) << " #" << hash(fresh) % 100000;

		auto attempt = [&](tracer::Plan plan) {
			reset();
			begin_case(o.str() + " " + describe_action(plan), plan.action != tracer::Action::NONE);
			auto const out = tracer::run(dir, [&]() { data.write_via_temp(temp, final); }, plan, [&](tracer::Call const& c, bool before) {
				EXPECT(state_ok(), "atomic:during", "destination is neither old nor new " << (before ? "before " : "after ") << c.name << " " << c.path);
			});
			EXPECT(!out.crashed, "atomic:crash", "died with signal " << out.signal);
			EXPECT(state_ok(), "atomic:after", "destination is neither old nor new at the end; " << out.what);
			if (out.returned) {
				EXPECT(file_exists(final) && read_file(final) == fresh, "atomic:success", "success reported but destination does not hold the data");
				EXPECT(!file_exists(temp), "atomic:temp", "temporary still there after success");
			}
			EXPECT(!out.threw || out.std_exception, "atomic:exception", "not a std::exception");
			return out;
		};

		auto const clean = attempt(tracer::Plan());
		EXPECT(clean.returned, "atomic:clean", "failed with nothing wrong: " << clean.what);
		note_max("calls_in_one_run", clean.calls.size());
		for (size_t i = 0; i < clean.calls.size(); ++i) {
			auto const name = clean.calls[i].name;
			tracer::Plan p;
			p.at = i;
			p.action = tracer::Action::KILL_BEFORE;
			attempt(p);
			p.action = tracer::Action::KILL_AFTER;
			attempt(p);
			for (auto e: name == "rename" ? vector<int>{EXDEV, EACCES, ENOSPC} : vector<int>{ENOSPC, EIO}) {
				p.action = tracer::Action::FAIL;
				p.error = e;
				attempt(p);
			}
			if (clean.calls[i].writes) {
				p.action = tracer::Action::FAIL_FROM;
				p.error = ENOSPC;
				attempt(p);
			}
			p.error = 0;
			if (name == "write") {
				p.action = tracer::Action::SHORT;
				attempt(p);
				p.action = tracer::Action::FILL;
				p.error = ENOSPC;
				attempt(p);
			}
			count("faulted_calls_" + name);
		}

		/* real refusals, with no tracing involved */
		reset();
		begin_case(o.str() + " temporary's directory missing");
		bool threw = false;
		try {
			data.write_via_temp(dir + "/missing/temp", final);
		} catch (std::exception&) {
			threw = true;
		}
		EXPECT(threw, "atomic:missing-dir", "no error");
		EXPECT(existing ? (file_exists(final) && read_file(final) == old) : !file_exists(final), "atomic:after", "destination changed");
		reset();
		begin_case(o.str() + " destination's directory missing");
		threw = false;
		try {
			data.write_via_temp(temp, dir + "/missing/final");
		} catch (std::exception&) {
			threw = true;
		}
		EXPECT(threw, "atomic:missing-dir", "no error");
		remove_tree(dir);
	}
}


/* ---- C04 ---- */

int open_fds()
{
	int n = 0;
	for (int i = 0; i < 256; ++i) {
		if (fcntl(i, F_GETFD) != -1) {
			++n;
		}
	}
	return n;
}

struct Track
{
	Track() { tracking = true; }
	~Track() { tracking = false; }
};

struct Model
{
	string path;
	bool open = false;
	int open_error = 0;
	FILE* twin = nullptr;
	bool writable = false, readable = false;
	/** 0 = neutral, 1 = last did a read, 2 = last did a write */
	int last = 0;
};

struct Slot
{
	unique_ptr<dcp::File> file;
	Model model;
};

FILE* plain_open(string const& p, string const& m)
{
	bool const t = tracking;
	tracking = false;
	auto f = fopen(p.c_str(), m.c_str());
	tracking = t;
	return f;
}

void plain_close(FILE* f)
{
	bool const t = tracking;
	tracking = false;
	fclose(f);
	tracking = t;
}

/** One operation on an open file and on its twin */
void operate(Slot& s, string& trace)
{
	auto& f = *s.file;
	auto& m = s.model;
	int op = rng.below(12);
	auto neutral = [&](int what) {
		if (m.last && m.last != what) {
			f.seek(0, SEEK_CUR);
			fseek(m.twin, 0, SEEK_CUR);
		}
		m.last = what;
	};
	switch (op) {
	case 0: case 1: {
		if (!m.writable) { return; }
		neutral(2);
		auto const c = random_content(rng.chance(0.1) ? rng.below(20000) : rng.below(60));
		size_t const size = rng.chance(0.5) ? 1 : 1 + rng.below(5);
		size_t const nmemb = c.size() / size;
		trace += " write" + std::to_string(size) + "x" + std::to_string(nmemb);
		auto const a = f.write(c.data(), size, nmemb);
		auto const b = fwrite(c.data(), size, nmemb, m.twin);
		EXPECT(a == b, "io:write", a << " instead of " << b);
		break;
	}
	case 2: case 3: {
		if (!m.readable) { return; }
		neutral(1);
		size_t const size = rng.chance(0.5) ? 1 : 1 + rng.below(5);
		size_t const nmemb = rng.below(100);
		trace += " read" + std::to_string(size) + "x" + std::to_string(nmemb);
		vector<char> p(size * nmemb + 1, 0), q(size * nmemb + 1, 0);
		auto const a = f.read(p.data(), size, nmemb);
		auto const b = fread(q.data(), size, nmemb, m.twin);
		EXPECT(a == b && p == q, "io:read", a << " instead of " << b);
		break;
	}
	case 4: {
		if (!m.readable) { return; }
		neutral(1);
		int const n = rng.range(1, 40);
		trace += " gets" + std::to_string(n);
		vector<char> p(n, 0), q(n, 0);
		auto const a = f.gets(p.data(), n);
		auto const b = fgets(q.data(), n, m.twin);
		EXPECT(bool(a) == bool(b) && p == q && (!a || a == p.data()), "io:gets", "differs");
		break;
	}
	case 5: {
		if (!m.writable) { return; }
		neutral(2);
		string const t = rng.pick({string("hello\n"), string(""), string("\xc3\xa9\n\n"), string("no newline")});
		trace += " puts";
		auto const a = f.puts(t.c_str());
		auto const b = fputs(t.c_str(), m.twin);
		EXPECT((a < 0) == (b < 0), "io:puts", a << " instead of " << b);
		break;
	}
	case 6: case 7: {
		int const whence = rng.pick({SEEK_SET, SEEK_CUR, SEEK_END});
		int64_t const offset = rng.chance(0.1) ? 3000000000ll + int64_t(rng.below(10)) : rng.range(-30, 200);
		trace += " seek" + std::to_string(offset) + "/" + std::to_string(whence);
		auto const a = f.seek(offset, whence);
		auto const b = fseek(m.twin, offset, whence);
		EXPECT((a == 0) == (b == 0), "io:seek", a << " instead of " << b);
		if (b == 0) {
			m.last = 0;
		}
		if (b == 0 && ftell(m.twin) > 100000) {
			/* look, and come back so that huge files are not made */
			EXPECT(f.tell() == ftell(m.twin), "io:tell", f.tell() << " instead of " << ftell(m.twin));
			f.seek(0, SEEK_SET);
			fseek(m.twin, 0, SEEK_SET);
		}
		break;
	}
	case 8:
		trace += " tell";
		EXPECT(f.tell() == ftell(m.twin), "io:tell", f.tell() << " instead of " << ftell(m.twin));
		break;
	case 9:
		trace += " flags";
		EXPECT(bool(f.eof()) == bool(feof(m.twin)), "io:eof", f.eof());
		EXPECT(bool(f.error()) == bool(ferror(m.twin)), "io:error", f.error());
		break;
	case 10: {
		if (!m.writable) { return; }
		neutral(2);
		auto const c = random_content(rng.below(300));
		trace += " checked_write" + std::to_string(c.size());
		bool threw = false;
		try {
			f.checked_write(c.data(), c.size());
		} catch (dcp::FileError&) {
			threw = true;
		}
		EXPECT(threw == (fwrite(c.data(), 1, c.size(), m.twin) != c.size()), "io:checked_write", "threw " << threw);
		break;
	}
	case 11: {
		if (!m.readable) { return; }
		neutral(1);
		size_t const n = rng.below(60);
		trace += " checked_read" + std::to_string(n);
		vector<char> p(n + 1, 0), q(n + 1, 0);
		bool threw = false;
		try {
			f.checked_read(p.data(), n);
		} catch (dcp::FileError&) {
			threw = true;
		}
		auto const b = fread(q.data(), 1, n, m.twin);
		EXPECT(threw == (b != n), "io:checked_read", "threw " << threw << " with " << b << " of " << n << " available");
		EXPECT(p == q, "io:checked_read", "content differs");
		if (threw) {
			/* nothing is promised about the position after an error */
			f.seek(0, SEEK_SET);
			fseek(m.twin, 0, SEEK_SET);
			m.last = 0;
		}
		break;
	}
	}
}

void check_slot(Slot const& s)
{
	if (!s.file) {
		return;
	}
	auto const& f = *s.file;
	EXPECT(bool(f) == s.model.open, "own:open", "object says " << bool(f) << " for " << s.model.path);
	EXPECT(f.path().string() == s.model.path, "own:path", f.path().string() << " instead of " << s.model.path);
	if (s.model.open_error) {
		EXPECT(f.open_error() == s.model.open_error, "own:open_error", f.open_error() << " instead of " << s.model.open_error);
	}
}

void c04()
{
	rule("Random histories of 5-80 operations over up to 6 file objects: open (existing, missing, directory, unreadable; r/w/a/+ modes), move-construct, move-assign (onto open and closed objects, onto itself), growing a vector of files, take, close, destroy, and reading/writing/seeking compared with a plain stdio twin on a copy of the same files. fopen and fclose are interposed: live streams must be exactly those owned; a second fclose is recorded, descriptors are counted. Non-trivial = the history has a move or take.");
	size_t const N = budget(2500, 60000);
	for (size_t n = 0; n < N; ++n) {
		auto const dir = fresh_dir("c04");
		string const A = dir + "/a", B = dir + "/b";
		for (auto const& d: {A, B}) {
			mkdir(d.c_str(), 0700);
			mkdir((d + "/directory").c_str(), 0700);
		}
		for (int i = 0; i < 3; ++i) {
			auto c = rng.chance(0.5) ? random_content(rng.below(400)) : string("line one\nline two is longer\n\nlast");
			write_file(A + "/f" + std::to_string(i), c);
			write_file(B + "/f" + std::to_string(i), c);
		}
		write_file(A + "/locked", "x");
		write_file(B + "/locked", "x");
		chmod((A + "/locked").c_str(), 0);
		chmod((B + "/locked").c_str(), 0);

		int const fds = open_fds();
		interpose::reset();
		string trace;
		bool moved = false;
		/* decide the history's length before so that the case can be named first */
		int const ops = rng.range(5, 80);
		auto const name = "history " + std::to_string(n) + " shard " + std::to_string(opt.shard) + " length " + std::to_string(ops);
		begin_case(name);
		{
			Track track;
			vector<Slot> slots(6);
			vector<std::pair<FILE*, Model>> taken;
			vector<dcp::File> row;
			vector<Model> row_model;

			auto drop = [&](Model& m) { if (m.twin) { plain_close(m.twin); m.twin = nullptr; } m.open = false; };
			auto check_live = [&]() {
				size_t expect = taken.size();
				for (auto const& s: slots) { expect += s.file && s.model.open; check_slot(s); }
				for (size_t i = 0; i < row.size(); ++i) {
					expect += row_model[i].open;
					EXPECT(bool(row[i]) == row_model[i].open && row[i].path().string() == row_model[i].path, "own:row", "element " << i);
				}
				EXPECT(live.size() == expect, "own:live", live.size() << " streams open for " << expect << " owners after" << trace);
				EXPECT(double_closes == 0, "own:double-close", "after" << trace);
				EXPECT(open_fds() == fds + int(expect) * 2, "own:descriptors", open_fds() - fds << " descriptors for " << expect << " owners after" << trace);
			};

			for (int i = 0; i < ops; ++i) {
				int const k = rng.below(6);
				auto& s = slots[k];
				int const op = rng.below(14);
				if (op < 3) {
					string const file = rng.pick({string("/f0"), string("/f1"), string("/f2"), string("/new"), string("/missing"), string("/directory"), string("/locked")});
					string const mode = rng.pick({string("r"), string("rb"), string("r+"), string("r+b"), string("w"), string("wb"), string("w+"), string("a"), string("a+"), string("ab")});
					if (file == "/missing" && mode[0] != 'r') { continue; }
					/* two writers of one file at once would depend on buffering */
					bool busy = false;
					auto const writes = mode[0] != 'r' || mode.find('+') != string::npos;
					for (auto const& t: slots) { busy = busy || (&t != &s && t.file && t.model.open && t.model.path == A + file && (writes || t.model.writable)); }
					for (auto const& t: taken) { busy = busy || (t.second.path == A + file && (writes || t.second.writable)); }
					for (auto const& t: row_model) { busy = busy || (t.open && t.path == A + file && (writes || t.writable)); }
					if (busy) { continue; }
					trace += " " + std::to_string(k) + ":open" + file + "," + mode;
					s.file.reset();
					drop(s.model);
					Model m;
					m.path = A + file;
					s.file.reset(new dcp::File(m.path, mode));
					errno = 0;
					m.twin = plain_open(B + file, mode);
					m.open_error = m.twin ? 0 : errno;
					m.open = bool(m.twin);
					m.readable = mode[0] == 'r' || mode.find('+') != string::npos;
					m.writable = writes;
					s.model = m;
				} else if (op < 7) {
					if (s.file && s.model.open) {
						operate(s, trace);
					}
				} else if (op == 7) {
					int const j = rng.below(6);
					if (j == k || !s.file) { continue; }
					trace += " " + std::to_string(j) + "=construct(" + std::to_string(k) + ")";
					moved = true;
					auto& d = slots[j];
					d.file.reset();
					drop(d.model);
					d.file.reset(new dcp::File(std::move(*s.file)));
					d.model = s.model;
					s.model.open = false;
					s.model.twin = nullptr;
					s.model.open_error = 0;
					s.model.path = s.file->path().string();
				} else if (op == 8 || op == 9) {
					int const j = rng.below(6);
					auto& d = slots[j];
					if (!s.file || !d.file) { continue; }
					trace += " " + std::to_string(j) + "=move(" + std::to_string(k) + ")";
					moved = true;
					auto& from = *s.file;
					*d.file = std::move(from);
					if (j == k) {
						continue;
					}
					auto const old = d.model;
					d.model = s.model;
					s.model = old;
					s.model.open_error = 0;
					s.model.path = from.path().string();
					if (!bool(from)) {
						/* the stream it had must now be closed */
						drop(s.model);
					}
				} else if (op == 10) {
					if (!s.file || !s.model.open) { continue; }
					trace += " " + std::to_string(k) + ":take";
					moved = true;
					auto const before = s.file->get();
					auto f = s.file->take();
					EXPECT(f && f == before, "own:take", "gave another stream");
					taken.push_back({f, s.model});
					s.model.open = false;
					s.model.twin = nullptr;
				} else if (op == 11) {
					if (!s.file) { continue; }
					trace += " " + std::to_string(k) + ":close";
					s.file->close();
					drop(s.model);
				} else if (op == 12) {
					trace += " " + std::to_string(k) + ":destroy";
					s.file.reset();
					drop(s.model);
				} else if (rng.coin()) {
					if (!s.file) { continue; }
					trace += " row+" + std::to_string(k);
					moved = true;
					row.push_back(std::move(*s.file));
					row_model.push_back(s.model);
					s.file.reset();
					s.model = Model();
				} else if (!row.empty()) {
					trace += " row-";
					size_t const at = rng.below(row.size());
					row.erase(row.begin() + at);
					drop(row_model[at]);
					row_model.erase(row_model.begin() + at);
				}
				check_live();
			}
			/* what was taken is the caller's to close */
			for (auto& t: taken) {
				EXPECT(live.count(t.first) == 1, "own:taken", "a taken stream was closed by the library");
				if (live.count(t.first)) {
					fclose(t.first);
				}
				drop(t.second);
			}
			taken.clear();
			check_live();
			for (auto& m: row_model) { drop(m); }
			for (auto& s: slots) { drop(s.model); }
			row.clear();
			slots.clear();
			EXPECT(live.empty(), "own:leak", live.size() << " streams still open at the end after" << trace);
			EXPECT(double_closes == 0, "own:double-close", trace);
		}
		EXPECT(open_fds() == fds, "own:leak", "descriptors leaked after" << trace);
		for (auto f: {"/f0", "/f1", "/f2", "/new"}) {
			bool const a = file_exists(A + f), b = file_exists(B + f);
			EXPECT(a == b && (!a || read_file(A + f) == read_file(B + f)), "io:content", f << " differs from its twin after" << trace);
		}
		count(moved ? "histories_with_moves" : "histories_without_moves");
		remove_tree(dir);
	}
}


/* ---- C05 ---- */

void c05()
{
	rule("Random histories over memory blocks: made empty / with a size / from bytes / from a file, resized, copied, written through; plus file round trips of every size from 0 to 300 and boundary sizes, and equality against blocks differing in one byte at each kind of position or in length only. Oracle: byte strings with explicit sharing. Non-trivial = size > 0.");
	auto const dir = fresh_dir("c05");

	auto same = [](dcp::Data const& a, string const& s) {
		return size_t(a.size()) == s.size() && string(reinterpret_cast<char const*>(a.data()), s.size()) == s;
	};

	auto equality = [&](string const& s) {
		auto const a = to_data(s), b = to_data(s);
		EXPECT(a == b && b == a && !(a != b), "equal:same", s.size());
		EXPECT(a == a && !(a != a), "equal:self", s.size());
		auto differs = [&](string const& t, string what) {
			auto const c = to_data(t);
			EXPECT(!(a == c) && !(c == a) && a != c && c != a, "equal:differs", what << " for size " << s.size());
		};
		differs(s + string(1, '\0'), "one byte longer");
		if (!s.empty()) {
			differs(s.substr(0, s.size() - 1), "one byte shorter");
			for (size_t at: {size_t(0), s.size() - 1, s.size() / 2, size_t(rng.below(s.size())), size_t(rng.below(s.size()))}) {
				auto t = s;
				t[at] = char(t[at] ^ (1 << rng.below(8)));
				differs(t, "byte " + std::to_string(at));
			}
			differs("", "empty");
		}
	};

	auto round_trip = [&](string const& s) {
		auto const p = dir + "/file";
		if (rng.chance(0.3)) {
			write_file(p, random_content(rng.below(1000)));
		}
		auto const a = to_data(s);
		a.write(p);
		EXPECT(read_file(p) == s, "file:write", "file does not hold the " << s.size() << " bytes");
		dcp::ArrayData const b{boost::filesystem::path(p)};
		EXPECT(same(b, s), "file:read", b.size() << " bytes read of " << s.size());
		EXPECT(a == b && !(a != b), "file:equal", s.size());
		unlink(p.c_str());
		a.write_via_temp(p + ".tmp", p);
		EXPECT(read_file(p) == s, "file:write", "file does not hold the " << s.size() << " bytes (via temporary)");
		unlink(p.c_str());
	};

	auto sizes = budget(300, 3000);
	for (size_t i = 0; i <= sizes; ++i) {
		auto const s = random_content(i);
		begin_case("size " + std::to_string(i) + " #" + std::to_string(hash(s)), i > 0);
		round_trip(s);
		equality(s);
	}
	for (size_t i: {4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1, 5000000}) {
		auto const s = random_content(i);
		begin_case("size " + std::to_string(i) + " #" + std::to_string(hash(s)), i > 0);
		round_trip(s);
		equality(s);
	}

	begin_case("missing and unreadable files");
	for (auto const& p: {dir + "/missing", dir, dir + "/file/below"}) {
		bool threw = false;
		try {
			dcp::ArrayData d{boost::filesystem::path(p)};
		} catch (std::exception&) {
			threw = true;
		}
		EXPECT(threw, "file:missing", p);
		threw = false;
		try {
			to_data("hello").write(p == dir ? dir : dir + "/nowhere/at/all");
		} catch (std::exception&) {
			threw = true;
		}
		EXPECT(threw, "file:unwritable", p);
	}

	size_t const N = budget(4000, 100000);
	for (size_t n = 0; n < N; ++n) {
		vector<dcp::ArrayData> blocks;
		vector<shared_ptr<string>> model;
		string trace;
		int const ops = rng.range(3, 30);
		begin_case("history " + std::to_string(n) + " shard " + std::to_string(opt.shard) + " length " + std::to_string(ops));
		for (int i = 0; i < ops; ++i) {
			int const op = rng.below(9);
			size_t const k = rng.below(blocks.size());
			if (blocks.empty() || op == 0) {
				int const size = rng.below(50);
				auto const s = random_content(size);
				switch (rng.below(4)) {
				case 0: blocks.push_back(dcp::ArrayData()); model.push_back(make_shared<string>()); break;
				case 1: {
					blocks.push_back(dcp::ArrayData(size));
					EXPECT(blocks.back().size() == size, "block:size", blocks.back().size());
					memcpy(blocks.back().data(), s.data(), size);
					model.push_back(make_shared<string>(s));
					break;
				}
				case 2: blocks.push_back(to_data(s)); model.push_back(make_shared<string>(s)); break;
				case 3: {
					write_file(dir + "/in", s);
					blocks.push_back(dcp::ArrayData(boost::filesystem::path(dir + "/in")));
					model.push_back(make_shared<string>(s));
					break;
				}
				}
				trace += " new";
			} else if (op == 1 || op == 2) {
				int const to = rng.below(80);
				auto const from = model[k]->size();
				trace += " resize" + std::to_string(k) + "/" + std::to_string(to);
				blocks[k].set_size(to);
				model[k]->resize(to);
				if (size_t(to) > from && blocks[k].size() == to) {
					/* the new part's content is not specified: give it one */
					for (size_t b = from; b < size_t(to); ++b) {
						blocks[k].data()[b] = (*model[k])[b] = char(rng.next());
					}
				}
			} else if (op == 3 || op == 4) {
				trace += " copy" + std::to_string(k);
				auto const c = blocks[k];
				blocks.push_back(c);
				model.push_back(model[k]);
			} else if (op == 5) {
				size_t const j = rng.below(blocks.size());
				trace += " assign" + std::to_string(j) + "=" + std::to_string(k);
				auto const c = blocks[k];
				blocks[j] = c;
				model[j] = model[k];
			} else if (op == 6) {
				if (!model[k]->empty()) {
					size_t const at = rng.below(model[k]->size());
					trace += " poke" + std::to_string(k);
					blocks[k].data()[at] = (*model[k])[at] = char(rng.next());
				}
			} else if (op == 7) {
				blocks[k].write(dir + "/out");
				EXPECT(read_file(dir + "/out") == *model[k], "file:write", trace);
			} else {
				size_t const j = rng.below(blocks.size());
				bool const e = *model[j] == *model[k];
				EXPECT((blocks[j] == blocks[k]) == e && (blocks[j] != blocks[k]) == !e, "equal:history", trace);
			}
			for (size_t j = 0; j < blocks.size(); ++j) {
				dcp::ArrayData const& c = blocks[j];
				EXPECT(same(c, *model[j]), "block:content", "block " << j << " after" << trace);
			}
		}
	}
	remove_tree(dir);
}


/* ---- C07 ---- */

struct Action
{
	int ran = 0;
	/** the guard which owns this action now */
	bool owner_alive = true;
	bool cancelled = false;
	bool early = false;
};

struct Boom : public std::runtime_error { Boom() : std::runtime_error("boom") {} };

void guard_scope(int depth, vector<shared_ptr<Action>>& actions, string& trace);

dcp::ScopeGuard make_guard(shared_ptr<Action> a)
{
	dcp::ScopeGuard g([a]() { ++a->ran; if (a->owner_alive) { a->early = true; } });
	return g;
}

dcp::ScopeGuard pass_on(dcp::ScopeGuard g) { return g; }

/** Moves a guard through several owners, maybe cancelling; at the end the last owner has gone out of scope */
void guard_life(int depth, vector<shared_ptr<Action>>& actions, string& trace)
{
	auto a = make_shared<Action>();
	actions.push_back(a);
	/* mark when the last owner goes: set just before destruction of the holder */
	struct Mark { shared_ptr<Action> a; ~Mark() { if (a) { a->owner_alive = false; } } };
	/* destroyed before the holder below: from then on the action may run */
	unique_ptr<dcp::ScopeGuard> holder;
	Mark mark{a};
	trace += " new";
	holder.reset(new dcp::ScopeGuard(make_guard(a)));
	int const steps = rng.below(6);
	for (int i = 0; i < steps; ++i) {
		switch (rng.below(6)) {
		case 0: {
			trace += " move";
			unique_ptr<dcp::ScopeGuard> next(new dcp::ScopeGuard(std::move(*holder)));
			/* the moved-from object goes out of scope now */
			holder.reset();
			EXPECT(a->ran == 0, "guard:moved-from", "ran when a moved-from guard was destroyed:" << trace);
			holder = std::move(next);
			break;
		}
		case 1:
			trace += " pass";
			holder.reset(new dcp::ScopeGuard(pass_on(std::move(*holder))));
			break;
		case 2: {
			trace += " vector";
			vector<dcp::ScopeGuard> v;
			v.push_back(std::move(*holder));
			vector<shared_ptr<Action>> others;
			int const more = rng.below(5);
			for (int k = 0; k < more; ++k) {
				auto b = make_shared<Action>();
				others.push_back(b);
				actions.push_back(b);
				v.push_back(make_guard(b));
				if (rng.chance(0.3)) { v.back().cancel(); b->cancelled = true; }
			}
			EXPECT(a->ran == 0, "guard:early", "ran while in a vector:" << trace);
			holder.reset(new dcp::ScopeGuard(std::move(v[0])));
			for (auto b: others) { b->owner_alive = false; }
			break;
		}
		case 3:
			if (rng.chance(0.4)) {
				trace += " cancel";
				holder->cancel();
				a->cancelled = true;
			}
			break;
		case 4:
			trace += " nested(";
			if (depth < 3) {
				guard_scope(depth + 1, actions, trace);
			}
			trace += ")";
			break;
		case 5:
			if (rng.chance(0.3)) {
				trace += " throw";
				throw Boom();
			}
			break;
		}
		EXPECT(a->ran == 0, "guard:early", "ran before its scope was left:" << trace);
	}
	if (rng.chance(0.3)) {
		trace += " return";
		return;
	}
	if (rng.chance(0.2)) {
		trace += " throw";
		throw Boom();
	}
}

void guard_scope(int depth, vector<shared_ptr<Action>>& actions, string& trace)
{
	size_t const first = actions.size();
	bool threw = false;
	try {
		guard_life(depth, actions, trace);
	} catch (Boom&) {
		threw = true;
	}
	for (size_t i = first; i < actions.size(); ++i) {
		auto const& a = *actions[i];
		EXPECT(a.ran == (a.cancelled ? 0 : 1), a.cancelled ? "guard:cancelled" : a.ran ? "guard:twice" : "guard:never", "ran " << a.ran << " times:" << trace);
		EXPECT(!a.early, "guard:early", "ran while still owned:" << trace);
	}
	if (threw && depth > 0 && rng.coin()) {
		trace += " rethrow";
		throw Boom();
	}
}

void c07()
{
	rule("Random lives of guards: moved (constructed from, passed and returned by value, held in growing vectors), cancelled before or after moves, nested, and left by falling off, return or an exception at a random point. Oracle: run counter checked at every step and at the end. Non-trivial = at least one step between creation and the end.");
	size_t const N = budget(40000, 1000000);
	for (size_t n = 0; n < N; ++n) {
		vector<shared_ptr<Action>> actions;
		string trace;
		/* draw with the case's own seed so that the history names the case */
		auto const seed = rng.next();
		Rng const saved = rng;
		rng.reseed(seed);
		begin_case("guard seed " + std::to_string(seed));
		try {
			guard_scope(0, actions, trace);
		} catch (Boom&) {
		}
		rng = saved;
		count("guards", actions.size());
	}
}

KIT_CHECK("C03", c03);
KIT_CHECK("C04", c04);
KIT_CHECK("C05", c05);
KIT_CHECK("C07", c07);

}
