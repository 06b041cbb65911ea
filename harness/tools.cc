/* The command-line programs: what they say, what they write and how they exit */
#include "certs.h"
#include "gen.h"
#include "kit.h"
#include "pkg.h"
#include "atmos_asset.h"
#include "certificate.h"
#include "certificate_chain.h"
#include "cpl.h"
#include "dcp.h"
#include "decrypted_kdm.h"
#include "decrypted_kdm_key.h"
#include "encrypted_kdm.h"
#include "j2k_transcode.h"
#include "key.h"
#include "local_time.h"
#include "mono_j2k_picture_asset.h"
#include "mono_j2k_picture_asset_writer.h"
#include "openjpeg_image.h"
#include "reel.h"
#include "reel_mono_picture_asset.h"
#include "smpte_text_asset.h"
#include "sound_asset.h"
#include "text_asset.h"
#include "verify.h"
#include <boost/filesystem.hpp>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <functional>
#include <iostream>
#include <set>

using std::dynamic_pointer_cast;
using std::function;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;
using namespace kit;
using pkg::Kind;
namespace bfs = boost::filesystem;

extern "C" {
int main_dcpdiff(int, char**);
int main_dcpinfo(int, char**);
int main_dcpverify(int, char**);
int main_dcpkdm(int, char**);
int main_dcpdecryptmxf(int, char**);
int main_dcpdumpsub(int, char**);
int main_dcprecover(int, char**);
int main_dcpthumb(int, char**);
}

namespace {

struct Result
{
	int status = 0;   ///< as from exit(), or minus the signal
	string out;
	string err;
	bool ok() const { return status == 0; }
	string describe() const { return "exit " + std::to_string(status) + " saying [" + printable(out.substr(out.size() > 200 ? out.size() - 200 : 0), 200) + "] [" + printable(err.substr(err.size() > 600 ? err.size() - 600 : 0), 600) + "]"; }
};

/** Run a program in a process of its own, in a directory of its own */
Result
run(string const& name, int (*tool)(int, char**), vector<string> arguments)
{
	arguments.insert(arguments.begin(), name);
	auto const out = opt.scratch + "/stdout", err = opt.scratch + "/stderr", work = opt.scratch + "/work";
	fflush(stdout);
	fflush(stderr);
	auto const child = fork();
	if (child < 0) {
		harness_error("fork failed");
	}
	if (child == 0) {
		signal(SIGABRT, SIG_DFL);
		signal(SIGSEGV, SIG_DFL);
		signal(SIGFPE, SIG_DFL);
		alarm(240);
		int const o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
		int const e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
		if (o < 0 || e < 0 || dup2(o, 1) < 0 || dup2(e, 2) < 0 || chdir(work.c_str()) < 0) {
			_exit(99);
		}
		vector<char*> argv;
		for (auto& a: arguments) {
			argv.push_back(&a[0]);
		}
		argv.push_back(nullptr);
		/* as if from a real main() */
		int const r = [&]() noexcept { return tool(arguments.size(), argv.data()); }();
		std::cout.flush();
		fflush(stdout);
		_exit(r & 0xff);
	}
	int status = 0;
	if (waitpid(child, &status, 0) != child) {
		harness_error("lost a child");
	}
	Result r;
	r.status = WIFSIGNALED(status) ? -WTERMSIG(status) : WEXITSTATUS(status);
	r.out = read_file(out);
	r.err = read_file(err);
	if (r.status == 99) {
		harness_error("could not start " + name);
	}
	if (r.status == -SIGALRM) {
		harness_error(name + " took too long");
	}
	if (r.err.find("Sanitizer") != string::npos || r.err.find("runtime error") != string::npos) {
		violation("sanitizer:" + name, name + ": " + r.err.substr(0, 3000));
	}
	count("runs of " + name);
	return r;
}

#define RUN(x, ...) run(#x, main_##x, vector<string> __VA_ARGS__)
#define RUN_WITH(x, args) run(#x, main_##x, args)

void
fresh_work()
{
	fresh_dir("work");
}

int
times(string const& s, string const& what)
{
	int n = 0;
	for (size_t p = s.find(what); p != string::npos; p = s.find(what, p + what.size())) {
		++n;
	}
	return n;
}

/** Make a package with nothing but some pictures */
void
picture_package(string const& dir, bool smpte, string const& title, vector<dcp::ArrayData> const& frames)
{
	auto const standard = smpte ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
	auto asset = make_shared<dcp::MonoJ2KPictureAsset>(dcp::Fraction(24, 1), standard);
	auto writer = asset->start_write(dir + "/picture.mxf", dcp::Behaviour::MAKE_NEW);
	for (auto const& f: frames) {
		writer->write(f);
	}
	writer->finalize();
	auto part = make_shared<dcp::ReelMonoPictureAsset>(asset, 0);
	auto reel = make_shared<dcp::Reel>();
	reel->add(part);
	auto cpl = make_shared<dcp::CPL>(title, dcp::ContentKind::TEST, standard);
	cpl->set_annotation_text(title);
	cpl->add(reel);
	dcp::DCP d{bfs::path(dir)};
	d.add(cpl);
	d.set_annotation_text(title);
	d.write_xml();
}

/** @param value value of each pixel, from 0 to 4095, given its index */
dcp::ArrayData
encode(dcp::Size size, int rate, function<int (int)> value)
{
	auto image = make_shared<dcp::OpenJPEGImage>(size);
	for (int c = 0; c < 3; ++c) {
		for (int n = 0; n < size.width * size.height; ++n) {
			image->data(c)[n] = value(n);
		}
	}
	return dcp::compress_j2k(image, rate, 24, false, false, "test");
}

/* ---------- comparison of packages ---------- */

/** Pictures which differ by a known amount, and the two limits to such differences */
void
pixels_case(size_t n)
{
	/* Either every pixel differs by the same, or half of them differ */
	bool const half = rng.coin();
	int const by = half ? rng.range(80, 120) : rng.range(30, 60);
	int const mean = half ? by / 2 : by, deviation = half ? by / 2 : 0;
	int const base = rng.range(1000, 2000);
	bool const darker = rng.coin();
	int const frames = rng.range(1, 3), odd = rng.below(frames);
	begin_case("compare pictures #" + std::to_string(n) + " with mean difference " + std::to_string(mean) + " and deviation " + std::to_string(deviation) + " in frame " + std::to_string(odd) + " of " + std::to_string(frames), true);
	dcp::Size const size(96, 64);
	auto const one = encode(size, 100000000, [&](int) { return base; });
	auto const two = encode(size, 100000000, [&](int i) { return base + (half && i >= 96 * 32 ? 0 : darker ? -by : by); });
	vector<dcp::ArrayData> x(frames, one), y(frames, one);
	y[odd] = two;
	bool const smpte = rng.coin();
	auto const a = fresh_dir("a"), b = fresh_dir("b");
	picture_package(a, smpte, "one", x);
	picture_package(b, smpte, "one", y);
	fresh_work();
	auto near = [](int v) { return std::max(0, int(v + (rng.coin() ? -1 : 1) * rng.range(10, 25))); };
	for (int i = 0; i < 4; ++i) {
		vector<string> args;
		int max_mean = 5, max_deviation = 5;
		if (i && rng.chance(0.8)) {
			max_mean = near(mean);
			args.push_back(rng.coin() ? "-m" : "--mean-pixel");
			args.push_back(std::to_string(max_mean));
		}
		if (i && rng.chance(0.7)) {
			max_deviation = half ? near(deviation) : rng.range(6, 60);
			args.push_back(rng.coin() ? "-s" : "--std-dev-pixel");
			args.push_back(std::to_string(max_deviation));
		}
		args.push_back(a);
		args.push_back(b);
		bool const equal = mean <= max_mean && deviation <= max_deviation;
		auto const r = RUN_WITH(dcpdiff, args);
		EXPECT(r.status == (equal ? 0 : 1), equal ? "diff-pixels-imagined" : "diff-pixels-missed", "limits " << max_mean << " and " << max_deviation << ": " << r.describe());
		count(equal ? "pictures within limits" : "pictures outside limits");
	}
}

void
diff_case(size_t n)
{
	pkg::Limits l;
	l.encrypt = rng.chance(0.3);
	l.cpls = 1;
	l.awkward_names = false;
	l.complete = true;
	auto spec = pkg::random(l);
	bool encrypted = false;
	pkg::Crypt const crypt = pkg::crypt();
	for (auto& a: spec.assets) {
		if (a.crypt.on) {
			encrypted = true;
			a.crypt = crypt;
		}
	}
	int const what = rng.below(8);
	if (what < 6) {
		/* Texts and Atmos are compared by their hashes, and so differ if their IDs do */
		for (auto& r: spec.cpls[0].reels) {
			r.uses.erase(std::remove_if(r.uses.begin(), r.uses.end(), [&](pkg::Use const& u) { return spec.assets[u.asset].kind == Kind::TEXT || spec.assets[u.asset].kind == Kind::ATMOS; }), r.uses.end());
		}
	}
	auto other = spec;
	string change = "nothing";
	vector<string> allow;      ///< options which allow the difference
	bool differ = true;
	auto any_use = [&]() -> pkg::Use& { auto& r = other.cpls[0].reels; return r[rng.below(r.size())].uses[0]; };
	vector<pkg::Asset*> sounds, texts;
	for (auto const& r: other.cpls[0].reels) {
		for (auto const& u: r.uses) {
			auto& a = other.assets[u.asset];
			if (a.kind == Kind::SOUND) {
				sounds.push_back(&a);
			} else if (a.kind == Kind::TEXT && !a.texts.empty() && !a.texts[0].image) {
				texts.push_back(&a);
			}
		}
	}
	switch (what) {
	case 0:
		differ = false;
		break;
	case 1:
		change = "kind";
		other.cpls[0].kind = (other.cpls[0].kind + 1) % pkg::kinds().size();
		break;
	case 2:
		change = "CPL annotation";
		spec.cpls[0].annotation = string("one");
		other.cpls[0].annotation = string("two");
		allow = { rng.coin() ? "-a" : "--cpl-annotation-texts" };
		break;
	case 3:
	{
		change = "reel annotation";
		auto& u = any_use();
		auto was = u.annotation;
		u.annotation = was.get_value_or("") + "x";
		allow = { rng.coin() ? "--annotation-texts" : "--reel-annotation-texts" };
		break;
	}
	case 4:
	case 5:
		if (!sounds.empty()) {
			auto& a = *rng.pick(sounds);
			bool const slight = rng.coin();
			change = slight ? "sound a little" : "sound";
			a.odd_channel = rng.below(a.channels);
			a.odd_index = rng.below(48000 / a.rate);
			a.odd_by = slight ? rng.pick({ 1, 100, 254 }) : rng.pick({ 256, 257, 5000 });
			differ = !slight;
		} else {
			differ = false;
		}
		break;
	case 6:
		if (texts.empty()) {
			return;
		}
		change = "text";
		rng.pick(texts)->texts[0].text += "x";
		break;
	case 7:
	{
		/* Texts which are the same, or differ in issue dates only; Atmos has no ID that is compared */
		auto const atmos = std::any_of(spec.cpls[0].reels.begin(), spec.cpls[0].reels.end(), [&](pkg::Reel const& r) {
			return std::any_of(r.uses.begin(), r.uses.end(), [&](pkg::Use const& u) { return spec.assets[u.asset].kind == Kind::ATMOS; });
		});
		if (texts.empty() || !spec.smpte || atmos) {
			return;
		}
		change = "text issue dates only";
		rng.pick(texts)->issue_date = "2021-02-03T04:05:06+00:00";
		allow = { rng.coin() ? "-d" : "--issue-dates" };
		break;
	}
	}

	begin_case("compare #" + std::to_string(n) + " with change to " + change + " of " + spec.describe(), differ);
	auto const a = fresh_dir("a"), b = fresh_dir("b");
	pkg::build(spec, a);
	pkg::build(other, b);
	vector<string> args = encrypted ? vector<string>{ "--key", crypt.key } : vector<string>{};
	if (rng.coin()) {
		args.push_back("-v");
	}
	fresh_work();
	bool const swap = rng.coin();
	auto with = [&](vector<string> extra) {
		auto x = args;
		x.insert(x.end(), extra.begin(), extra.end());
		x.push_back(swap ? b : a);
		x.push_back(swap ? a : b);
		return RUN_WITH(dcpdiff, x);
	};
	auto const r = with({});
	EXPECT((r.status == 0) == !differ && r.status >= 0, differ ? "diff-missed" : "diff-imagined", change << ": " << r.describe());
	if (differ) {
		EXPECT(!r.out.empty() || r.status != 1, "diff-silent", change << ": " << r.describe());
	}
	if (!allow.empty()) {
		auto const s = with(allow);
		EXPECT(s.ok(), what == 7 ? "diff-dates-not-allowed" : "diff-not-allowed", change << " with " << allow[0] << ": " << s.describe());
	}
	if (rng.chance(0.2)) {
		auto x = args;
		x.push_back(a);
		auto const copy = fresh_dir("c") + "/copy";
		bfs::create_directory(copy);
		for (auto const& f: pkg::files_in(a)) {
			bfs::create_directories(bfs::path(copy + "/" + f).parent_path());
			bfs::copy_file(a + "/" + f, copy + "/" + f);
		}
		auto const same = [&]() { auto y = x; y.push_back(copy); return RUN_WITH(dcpdiff, y); }();
		EXPECT(same.ok(), "diff-self", same.describe());
		x.push_back(opt.scratch + "/nonexistent");
		auto const missing = RUN_WITH(dcpdiff, x);
		EXPECT(!missing.ok(), "diff-nonexistent", missing.describe());
	}
	count("comparison of packages differing in " + change);
}

/* ---------- verification ---------- */

void
verify_case(size_t n)
{
	pkg::Limits l;
	l.cpls = 1;
	l.reels = 1;
	l.encrypt = rng.chance(0.1);
	l.awkward_names = false;
	l.complete = rng.chance(0.8);
	auto spec = pkg::random(l);
	int damage = rng.below(4);
	auto has_font = [&]() { return !spec.smpte && std::any_of(spec.assets.begin(), spec.assets.end(), [](pkg::Asset const& a) { return !a.fonts.empty(); }); };
	for (int i = 0; i < 50 && damage == 3 && !has_font(); ++i) {
		spec = pkg::random(l);
	}
	bool const plain = rng.chance(0.5), smpte = rng.chance(0.7), heavy = rng.coin();
	if (plain && rng.chance(0.7)) {
		damage = 0;
	}
	begin_case("verify #" + std::to_string(n) + " with damage " + std::to_string(damage) + " to " + (plain ? string(smpte ? "SMPTE" : "Interop") + " pictures" + (heavy ? " near the limit" : "") : spec.describe()));
	auto const dir = fresh_dir("a");
	string file;
	if (plain) {
		static auto const frame = encode({ 1998, 1080 }, 6000000, [](int i) { return 1000 + ((i / 512) % 2) * 300; });
		vector<dcp::ArrayData> frames(rng.range(24, 26), frame);
		if (heavy) {
			/* A frame which is nearly too big gets a warning */
			string s(reinterpret_cast<char const*>(frame.data()), frame.size());
			s.insert(s.size() - 2, string(1250000 - s.size(), '\0'));
			frames[rng.below(frames.size())] = dcp::ArrayData(reinterpret_cast<uint8_t const*>(s.data()), s.size());
		}
		picture_package(dir, smpte, "one", frames);
		file = dir + "/picture.mxf";
	} else {
		pkg::build(spec, dir);
		file = dir + "/" + spec.assets[rng.below(spec.assets.size())].file;
	}
	if (damage == 1) {
		bfs::remove(file);
	} else if (damage == 2) {
		/* The asset map and packing list have a hash of something else */
		for (auto const& f: pkg::files_in(dir)) {
			auto s = read_file(dir + "/" + f);
			auto const hash = pkg::sha1(file);
			if (s.size() < 1000000 && s.find("<PackingList") != string::npos) {
				for (auto p = s.find(hash); p != string::npos; p = s.find(hash, p + 1)) {
					s[p] = s[p] == 'A' ? 'B' : 'A';
				}
				write_file(dir + "/" + f, s);
			}
		}
	}

	if (damage == 3 && !plain) {
		/* Font files */
		for (auto const& f: pkg::files_in(dir)) {
			auto const s = read_file(dir + "/" + f);
			for (auto const& a: spec.assets) {
				for (auto const& i: a.fonts) {
					if (s == i.second && file_exists(dir + "/" + f)) {
						bfs::remove(dir + "/" + f);
						count("font files removed");
					}
				}
			}
		}
	}

	dcp::VerificationOptions options;
	vector<string> args;
	bool missing = false, bv21 = false, quiet = false;
	if (rng.chance(0.3)) {
		args.push_back("--no-asset-hash-check");
		options.check_asset_hashes = false;
	}
	if (rng.chance(0.3)) {
		args.push_back("--no-picture-details-check");
		options.check_picture_details = false;
	}
	if (rng.chance(0.2)) {
		auto const size = rng.below(3);
		args.push_back("--asset-hash-check-maximum-size");
		args.push_back(std::to_string(size));
		options.maximum_asset_size_for_hash_check = size * 1000000;
	}
	if (rng.chance(0.4)) {
		args.push_back("--ignore-missing-assets");
		missing = true;
	}
	if (rng.chance(0.3)) {
		args.push_back("--ignore-bv21-smpte");
		bv21 = true;
	}
	if (rng.chance(0.3)) {
		args.push_back(rng.coin() ? "-q" : "--quiet");
		quiet = true;
	}
	auto const report = opt.scratch + "/report" + rng.pick({ string(".txt"), string(".html"), string(".htm"), string(".pdf") });
	bool const reporting = rng.chance(0.4);
	bfs::remove(report);
	if (reporting) {
		args.push_back("-o");
		args.push_back(report);
	}
	args.push_back(dir);

	using Code = dcp::VerificationNote::Code;
	std::map<dcp::VerificationNote::Type, int> want;
	vector<string> texts, where;
	auto const result = dcp::verify({ bfs::path(dir) }, {}, [](string, boost::optional<bfs::path>) {}, [](float) {}, options);
	bool wrong_hash = false;
	for (auto const& i: result.notes) {
		auto const c = i.code();
		if (missing && (c == Code::MISSING_ASSET || c == Code::EXTERNAL_ASSET || c == Code::MISSING_FONT)) {
			continue;
		}
		if (bv21 && c == Code::INVALID_STANDARD) {
			continue;
		}
		wrong_hash = wrong_hash || c == Code::INCORRECT_PICTURE_HASH || c == Code::INCORRECT_SOUND_HASH || c == Code::MISMATCHED_PICTURE_HASHES || c == Code::MISMATCHED_SOUND_HASHES;
		++want[i.type()];
		if (i.type() != dcp::VerificationNote::Type::OK) {
			texts.push_back(dcp::note_to_string(i));
			for (auto const& j: i.locations()) {
				where.push_back(" " + i.location_as_string(j) + "\n");
			}
		}
	}
	int const errors = want[dcp::VerificationNote::Type::ERROR], bv21s = want[dcp::VerificationNote::Type::BV21_ERROR], warnings = want[dcp::VerificationNote::Type::WARNING];
	fresh_work();
	auto const r = RUN_WITH(dcpverify, args);
	auto const d = "with " + std::to_string(errors) + " errors, " + std::to_string(bv21s) + " Bv2.1 errors and " + std::to_string(warnings) + " warnings: " + r.describe();
	EXPECT(r.status == (errors ? 1 : 0), "verify-status", d);
	if (damage == 1 && !missing) {
		EXPECT(!r.ok(), "verify-missing", d);
	}
	auto const out = "\n" + r.out;
	EXPECT(times(out, "\nError: ") == errors, "verify-errors", d);
	EXPECT(times(out, "\nBv2.1 error: ") == bv21s, "verify-bv21-errors", d);
	EXPECT(times(out, "\nWarning: ") == warnings, "verify-warnings", d);
	for (auto const& w: where) {
		EXPECT(r.out.find(w) != string::npos, "verify-place", printable(w) << " not given " << d);
	}
	if (quiet) {
		EXPECT(r.out.find('\r') == string::npos && (!texts.empty() || r.out.empty()), "verify-quiet", d);
	}
	for (auto const& t: texts) {
		EXPECT(r.out.find(t) != string::npos, "verify-text", printable(t) << " not given " << d);
	}
	EXPECT((r.out.find("verified OK") != string::npos) == (!errors && !quiet), "verify-summary", d);
	if (!errors && !quiet) {
		EXPECT((r.out.find("Bv2.1 errors") != string::npos) == (bv21s > 0) && (times(r.out, "warnings).") > 0) == (warnings > 0), "verify-summary", d);
	}
	EXPECT(file_exists(report) == reporting && (!reporting || read_file(report).size() > 0), "verify-report", report << " " << d);
	if (reporting) {
		auto const s = read_file(report);
		auto const extension = bfs::path(report).extension().string();
		bool const html = s.find("<html") != string::npos && s.find("</html>") != string::npos;
		EXPECT(html == (extension == ".html" || extension == ".htm"), "verify-report-format", report << " " << printable(s.substr(0, 100)));
	}
	if (errors) {
		count("packages with errors");
	} else {
		count(string("packages with ") + (bv21s ? "Bv2.1 errors" : "no Bv2.1 errors") + (warnings ? " and warnings" : ""));
	}
	if (wrong_hash) {
		count("packages with wrong hashes");
	}
	if (!errors && !bv21s) {
		count("packages without errors");
	}
	remove_tree(dir);
}

/* ---------- information ---------- */

struct Recipient
{
	certs::Chain chain;
	shared_ptr<dcp::CertificateChain> signer;
};

Recipient const&
recipient()
{
	static std::deque<Recipient> all;
	if (all.size() < 4) {
		certs::ChainLimits l;
		l.min = 1;
		l.max = 4;
		l.big_keys = false;
		Recipient r;
		r.chain = certs::random_chain(l);
		r.signer = certs::chain_for(r.chain);
		all.push_back(r);
		return all.back();
	}
	return all[rng.below(all.size())];
}

/** Make a KDM and private key file */
string
write_kdm(dcp::DecryptedKDM const& kdm, Recipient const& to, string const& name)
{
	auto const& from = recipient();
	auto const path = opt.scratch + "/" + name;
	kdm.encrypt(from.signer, dcp::Certificate(to.chain.pems.back()), {}, dcp::Formulation::MODIFIED_TRANSITIONAL_1, true, 0).as_xml(path);
	return path;
}

string
write_key(int key, string const& name)
{
	auto const path = opt.scratch + "/" + name;
	write_file(path, certs::key_pem(key));
	return path;
}

int
other_key(int key)
{
	int k = key;
	while (k == key) {
		k = rng.below(certs::small_keys);
	}
	return k;
}

string
timecode(int frames, int rate)
{
	char b[64];
	snprintf(b, sizeof(b), "%02d:%02d:%02d:%02d", frames / rate / 3600, frames / rate / 60 % 60, frames / rate % 60, frames % rate);
	return b;
}

void
info_case(size_t n)
{
	pkg::Limits l;
	auto const spec = pkg::random(l);
	begin_case("information #" + std::to_string(n) + " about " + spec.describe());
	auto const dir = fresh_dir("a");
	auto const built = pkg::build(spec, dir);
	bool encrypted = false;
	for (auto const& a: spec.assets) {
		encrypted = encrypted || a.crypt.on;
	}
	bool const pictures = rng.chance(0.3), subtitles = rng.chance(0.3), decompress = rng.chance(0.2);
	vector<string> args;
	if (pictures) { args.push_back(rng.coin() ? "-p" : "--picture"); }
	if (subtitles) { args.push_back(rng.coin() ? "-s" : "--subtitles"); }
	if (decompress) { args.push_back("-d"); }
	std::set<string> only;
	if (rng.chance(0.4)) {
		string list;
		for (auto const& i: { "dcp-path", "cpl-name-id", "picture", "sound", "subtitle", "total-time" }) {
			if (rng.chance(0.4) || (only.empty() && string(i) == "total-time")) {
				only.insert(i);
				list += (list.empty() ? "" : ",") + string(i);
			}
		}
		args.push_back("-o");
		args.push_back(list);
	}
	auto shown = [&](string const& what) { return only.empty() || only.count(what); };
	bool have_keys = !encrypted;
	if (encrypted && (rng.chance(0.7) || pictures || subtitles)) {
		/* A KDM for each CPL is not possible here, so this only works with one */
		if (spec.cpls.size() != 1 || !spec.smpte) {
			count("information which cannot be got");
			return;
		}
		auto const& to = recipient();
		args.push_back("--kdm");
		args.push_back(write_kdm(pkg::kdm(spec, built.cpls[0]->id()), to, "kdm.xml"));
		args.push_back("--private-key");
		args.push_back(write_key(to.chain.leaf_key(), "key.pem"));
		have_keys = true;
	}
	if (!have_keys) {
		for (auto const& a: spec.assets) {
			if (a.crypt.on && a.kind == Kind::TEXT) {
				count("information which cannot be got");
				return;
			}
		}
	}
	bool const cpl_only = rng.chance(0.15) && !pictures && !subtitles;
	if (cpl_only) {
		args.push_back(built.cpls[0]->file()->string());
	} else {
		args.push_back(dir);
	}
	fresh_work();
	auto const r = RUN_WITH(dcpinfo, args);
	EXPECT(r.ok(), "info-status", r.describe());

	/* Everything in order */
	size_t at = 0;
	auto next = [&](string const& text, string const& key) {
		auto const p = r.out.find(text, at);
		EXPECT(p != string::npos, "info-" + key, printable(text) << " is not there or not in its place; " << r.describe());
		if (p != string::npos) {
			at = p + text.size();
		}
	};
	auto rest_of_line = [&]() {
		auto const p = r.out.find('\n', at);
		return r.out.substr(at, p == string::npos ? p : p - at);
	};
	if (!cpl_only && shown("dcp-path")) {
		next("DCP: " + dir + "\n", "path");
	}
	/* CPLs may be read in any order */
	vector<string> ids;
	for (size_t i = 0; i < (cpl_only ? 1 : built.cpls.size()); ++i) {
		ids.push_back(built.cpls[i]->id());
	}
	vector<size_t> order;
	for (size_t i = 0; i < ids.size(); ++i) {
		order.push_back(i);
	}
	if (shown("cpl-name-id")) {
		for (auto const& i: ids) {
			EXPECT(times(r.out, " " + i + "\n") == 1, "info-cpl", i << " not there once; " << r.describe());
		}
		std::sort(order.begin(), order.end(), [&](size_t a, size_t b) { return r.out.find(ids[a]) < r.out.find(ids[b]); });
	} else {
		dcp::DCP d((bfs::path(dir)));
		d.read();
		if (!cpl_only) {
			order.clear();
			for (auto c: d.cpls()) {
				order.push_back(std::find(ids.begin(), ids.end(), c->id()) - ids.begin());
			}
		}
	}
	int total = 0;
	bool mixed = false;
	for (auto c: order) {
		auto const& cpl = spec.cpls[c];
		if (shown("cpl-name-id")) {
			next((cpl.annotation ? "CPL: " + *cpl.annotation : "") + " " + ids[c] + "\n", "cpl");
		}
		for (size_t reel = 0; reel < cpl.reels.size(); ++reel) {
			if (shown("picture") || shown("sound") || shown("subtitle")) {
				next("Reel " + std::to_string(reel + 1) + "\n", "reel");
			}
			auto find = [&](function<bool (pkg::Use const&)> ok) -> pkg::Use const* {
				for (auto const& u: cpl.reels[reel].uses) {
					if (ok(u)) {
						return &u;
					}
				}
				return nullptr;
			};
			auto id = [&](pkg::Use const& u) { return built.assets[u.asset]->id(); };
			if (auto u = find([&](pkg::Use const& x) { return spec.assets[x.asset].kind == Kind::MONO || spec.assets[x.asset].kind == Kind::STEREO; })) {
				auto const& a = spec.assets[u->asset];
				int const rate = a.kind == Kind::STEREO ? a.rate * 2 : a.rate;
				int const frames = u->duration ? u->duration : a.frames - u->entry;
				mixed = mixed || rate != 24;
				total += frames * (48 / rate);
				if (shown("picture")) {
					next("Picture ID:  " + id(*u), "picture-id");
					auto const line = rest_of_line();
					EXPECT(line.find(" entry " + std::to_string(u->entry)) != string::npos, "info-picture-entry", line << " with entry " << u->entry);
					EXPECT(line.find(" duration " + std::to_string(frames) + " (" + timecode(frames, rate) + ") intrinsic " + std::to_string(a.frames)) != string::npos, "info-picture-duration", line << " with duration " << frames << " of " << a.frames);
					if (cpl_only) {
						EXPECT(line.find("not present") != string::npos, "info-not-present", line);
					} else {
						next("Picture:     ", "picture");
						auto const asset = dynamic_pointer_cast<dcp::J2KPictureAsset>(built.assets[u->asset]);
						EXPECT(rest_of_line() == std::to_string(asset->size().width) + "x" + std::to_string(asset->size().height), "info-picture-size", rest_of_line());
					}
					if (pictures && a.kind == Kind::MONO) {
						int least = INT_MAX, most = 0;
						for (int f = 0; f < a.frames; ++f) {
							int const size = pkg::picture(a.content[f], a.shape).size();
							least = std::min(least, size);
							most = std::max(most, size);
							char b[64];
							snprintf(b, sizeof(b), "Frame %d J2K size %7d%s\n", f, size, decompress ? " decrypted OK" : "");
							next(b, "frame-size");
						}
						char b[256];
						snprintf(b, sizeof(b), "J2K size ranges from %d (%.1f Mbit/s) to %d (%.1f Mbit/s)\n", least, least * 8.0 * rate / 1e6, most, most * 8.0 * rate / 1e6);
						next(b, "frame-sizes");
					}
				} else {
					EXPECT(r.out.find("Picture ID") == string::npos, "info-only", "picture shown");
				}
			}
			if (auto u = find([&](pkg::Use const& x) { return spec.assets[x.asset].kind == Kind::SOUND; })) {
				auto const& a = spec.assets[u->asset];
				if (shown("sound")) {
					next("Sound ID:    " + id(*u), "sound-id");
					auto const line = rest_of_line();
					EXPECT(line.find(" entry " + std::to_string(u->entry)) != string::npos, "info-sound-entry", line << " with entry " << u->entry);
					int const frames = u->duration ? u->duration : a.frames - u->entry;
					EXPECT(line.find(" duration " + std::to_string(frames) + " intrinsic " + std::to_string(a.frames)) != string::npos, "info-sound-duration", line << " with duration " << frames << " of " << a.frames);
					if (cpl_only) {
						EXPECT(line.find("not present") != string::npos, "info-not-present", line);
					} else {
						next("Sound:       " + std::to_string(a.channels) + " channels at 48000Hz\n", "sound");
					}
				} else {
					EXPECT(r.out.find("Sound ID") == string::npos, "info-only", "sound shown");
				}
			}
			if (auto u = find([&](pkg::Use const& x) { return spec.assets[x.asset].kind == Kind::TEXT && x.role == 0; })) {
				auto const& a = spec.assets[u->asset];
				if (shown("subtitle")) {
					next("Subtitle ID: " + id(*u), "subtitle-id");
					if (cpl_only) {
						EXPECT(rest_of_line().find("not present") != string::npos, "info-not-present", rest_of_line());
					} else {
						next("Subtitle:    " + std::to_string(a.texts.size()) + " subtitles in " + a.language + "\n", "subtitles");
						if (subtitles) {
							auto const end = r.out.find("\n    Reel ", at);
							for (auto const& t: a.texts) {
								if (!t.image) {
									auto const p = r.out.find(t.text, at);
									EXPECT(p != string::npos && p < end, "info-subtitle-text", printable(t.text) << " is not listed in " << r.out.substr(at, 600));
								}
							}
						}
					}
				} else {
					EXPECT(r.out.find("Subtitle ID") == string::npos, "info-only", "subtitle shown");
				}
			}
		}
	}
	if (shown("total-time")) {
		auto const p = r.out.find("Total: ", at);
		EXPECT(p != string::npos, "info-total", r.describe());
		if (p != string::npos) {
			/* In the higher rate */
			auto const t = r.out.substr(p + 7, r.out.find('\n', p) - p - 7);
			auto const want = mixed ? timecode(total, 48) : timecode(total / 2, 24);
			EXPECT(t == want, "info-total", t << " rather than " << want);
			if (mixed) {
				count("totals over different rates");
			}
		}
	} else {
		EXPECT(r.out.find("Total: ") == string::npos, "info-only", "total shown");
	}
	count(cpl_only ? "information about a CPL" : encrypted ? "information about an encrypted package" : "information about a package");
	remove_tree(dir);
}

/* ---------- KDMs and certificates ---------- */

struct Keys
{
	string cpl, title;
	boost::optional<string> annotation;
	vector<std::pair<string, string>> keys;
	dcp::DecryptedKDM kdm() const
	{
		dcp::DecryptedKDM k(dcp::LocalTime("2021-02-03T04:05:06+00:00"), dcp::LocalTime("2029-01-02T03:04:05+00:00"), annotation.get_value_or(""), title, "2020-01-01T00:00:00+00:00");
		for (auto const& i: keys) {
			k.add_key(string("MDIK"), i.first, dcp::Key(i.second), cpl, dcp::Standard::SMPTE);
		}
		return k;
	}
};

Keys
random_keys()
{
	Keys k;
	k.cpl = gen::uuid();
	k.title = gen::text(true);
	k.annotation = gen::text(true);
	for (int i = 0, n = rng.range(1, 4); i < n; ++i) {
		k.keys.push_back({ gen::uuid(), pkg::crypt().key });
	}
	return k;
}

void
kdm_case(size_t n)
{
	auto const& to = recipient();
	int const N = rng.range(1, 3);
	begin_case("list #" + std::to_string(n) + " of " + std::to_string(N) + " KDMs " + std::to_string(rng.below(1000000)), N > 1);
	vector<Keys> all;
	vector<string> files;
	for (int i = 0; i < N; ++i) {
		all.push_back(random_keys());
		files.push_back(write_kdm(all.back().kdm(), to, "kdm" + std::to_string(i) + ".xml"));
	}
	fresh_work();
	int const mode = rng.below(3);
	vector<string> args;
	if (mode) {
		args.push_back(rng.coin() ? "-p" : "--private-key");
		args.push_back(write_key(mode == 1 ? to.chain.leaf_key() : other_key(to.chain.leaf_key()), "key.pem"));
	}
	args.insert(args.end(), files.begin(), files.end());
	auto const r = RUN_WITH(dcpkdm, args);
	EXPECT(mode == 2 ? r.status > 0 : r.ok(), mode == 2 ? "kdm-wrong-key" : "kdm-status", r.describe());
	for (auto const& k: all) {
		if (mode != 2 || &k == &all.front()) {
			for (auto const& t: { k.cpl, k.title, k.annotation.get(), string("2021-02-03T04:05:06+00:00"), string("2029-01-02T03:04:05+00:00") }) {
				EXPECT(r.out.find(t) != string::npos, "kdm-details", printable(t) << " not given for KDM " << (&k - &all[0]) << "; " << r.describe());
			}
		}
		for (auto const& i: k.keys) {
			EXPECT((r.out.find(i.first) != string::npos) == (mode == 1) && (r.out.find(i.second) != string::npos) == (mode == 1), "kdm-keys", "key of KDM " << (&k - &all[0]) << (mode == 1 ? " not given" : " given") << "; " << r.describe());
		}
	}
	if (rng.chance(0.2)) {
		/* Something which is not a KDM */
		write_file(files[0], rng.coin() ? "<foo/>" : string("nonsense"));
		auto const bad = RUN(dcpkdm, { files[0] });
		EXPECT(bad.status > 0, "kdm-nonsense", bad.describe());
	}
}

void
thumb_case(size_t n)
{
	auto const& who = recipient();
	auto const i = rng.below(who.chain.pems.size());
	begin_case("thumbprint #" + std::to_string(n) + " " + std::to_string(hash(who.chain.pems[i])), true);
	auto const path = opt.scratch + "/certificate.pem";
	write_file(path, who.chain.pems[i]);
	fresh_work();
	auto const r = RUN(dcpthumb, { path });
	EXPECT(r.ok() && r.out == certs::thumbprint(who.chain.pems[i]) + "\n", "thumbprint", r.describe());
	if (rng.chance(0.3)) {
		auto const missing = RUN(dcpthumb, { opt.scratch + "/nonexistent" });
		EXPECT(!missing.ok() && missing.out.empty(), "thumbprint-nonexistent", missing.describe());
	}
}

/* ---------- decryption ---------- */

/** Some asset of a kind, in its file in dir */
boost::optional<pkg::Asset>
part(Kind kind)
{
	for (int i = 0; i < 200; ++i) {
		pkg::Limits l;
		l.awkward_names = false;
		auto const spec = pkg::random(l);
		if (!spec.smpte) {
			continue;
		}
		for (auto const& a: spec.assets) {
			if (a.kind == kind) {
				return a;
			}
		}
	}
	harness_error("no such part");
}

/** A KDM which contains a given key among others */
Keys
keys_with(pkg::Crypt const& c, bool with)
{
	auto k = random_keys();
	if (with && c.on) {
		k.keys.insert(k.keys.begin() + rng.below(k.keys.size() + 1), { c.key_id, c.key });
	}
	return k;
}

void
decrypt_case(size_t n)
{
	auto const kind = rng.pick({ Kind::MONO, Kind::SOUND, Kind::ATMOS });
	auto a = *part(kind);
	a.crypt = rng.chance(0.85) ? pkg::crypt() : pkg::Crypt();
	bool const with = rng.chance(0.8) || !a.crypt.on;
	begin_case("decrypt #" + std::to_string(n) + " of " + a.file + (with ? "" : " without its key"), a.crypt.on);
	auto const dir = fresh_dir("a");
	pkg::build_asset(a, true, dir);
	auto const& to = recipient();
	auto keys = keys_with(a.crypt, with);
	if (a.crypt.on && with && rng.chance(0.15)) {
		/* Same ID, different key */
		for (auto& k: keys.keys) {
			if (k.first == a.crypt.key_id) {
				k.second = pkg::crypt().key;
			}
		}
	}
	bool right = with;
	for (auto const& k: keys.keys) {
		if (k.first == a.crypt.key_id && k.second != a.crypt.key) {
			right = false;
		}
	}
	/* Change the check value of the last frame, or anything in the essence */
	bool const bad_check = a.crypt.on && rng.chance(0.25), tampered = a.crypt.on && !bad_check && rng.chance(0.15);
	bool const ignore = !tampered && rng.chance(bad_check ? 0.5 : 0.1);
	if (bad_check || tampered) {
		auto bytes = read_file(dir + "/" + a.file);
		uint64_t footer = 0;
		memcpy(&footer, &bytes[32], 8);
		auto const start = bytes.find("\x21\x46\x52\x4d", 1024);
		if (start == string::npos || footer < start + 20 || footer > bytes.size()) {
			harness_error("unexpected layout of file");
		}
		bytes[bad_check ? footer - 1 - rng.below(20) : start + rng.below(footer - start)] ^= 1 << rng.below(8);
		write_file(dir + "/" + a.file, bytes);
	}
	auto const output = dir + "/output.mxf";
	fresh_work();
	bool const wrong_private = rng.chance(0.1);
	vector<string> args = {
		"-o", output, "-k", write_kdm(keys.kdm(), to, "kdm.xml"), "-p", write_key(wrong_private ? other_key(to.chain.leaf_key()) : to.chain.leaf_key(), "key.pem"),
		"-t", kind == Kind::MONO ? "picture" : kind == Kind::SOUND ? "sound" : "atmos", dir + "/" + a.file
	};
	if (ignore) {
		args.insert(args.begin(), rng.coin() ? "-i" : "--ignore-hmac");
	}
	auto const before = read_file(dir + "/" + a.file);
	auto const r = RUN_WITH(dcpdecryptmxf, args);
	EXPECT(read_file(dir + "/" + a.file) == before, "decrypt-input", "input was changed");
	if (!right || wrong_private) {
		EXPECT(!r.ok(), "decrypt-refused", (wrong_private ? "wrong private key: " : with ? "wrong key: " : "no key: ") << r.describe());
		count("decryption refused");
		return;
	}
	if (tampered || (bad_check && !ignore)) {
		EXPECT(!r.ok(), "decrypt-tampered", "input was tampered with: " << r.describe());
		count("decryption of damaged files refused");
		return;
	}
	EXPECT(r.ok() && file_exists(output), bad_check ? "decrypt-ignore" : "decrypt-status", r.describe());
	if (bad_check) {
		count("wrong check values ignored as asked");
	}
	if (!r.ok() || !file_exists(output)) {
		return;
	}
	auto clear = a;
	clear.crypt = pkg::Crypt();
	shared_ptr<dcp::Asset> read;
	if (kind == Kind::MONO) {
		read = make_shared<dcp::MonoJ2KPictureAsset>(bfs::path(output));
	} else if (kind == Kind::SOUND) {
		read = make_shared<dcp::SoundAsset>(bfs::path(output));
	} else {
		read = make_shared<dcp::AtmosAsset>(bfs::path(output));
	}
	EXPECT(!dynamic_pointer_cast<dcp::MXF>(read)->encrypted(), "decrypt-still-encrypted", "output is encrypted");
	pkg::check_content(clear, read, "decrypted");
	count(string("decryption of ") + (kind == Kind::MONO ? "pictures" : kind == Kind::SOUND ? "sound" : "Atmos"));
}

void
dump_case(size_t n)
{
	auto a = *part(Kind::TEXT);
	a.crypt = rng.chance(0.6) ? pkg::crypt() : pkg::Crypt();
	bool const with = rng.chance(0.8) || !a.crypt.on;
	bool const fonts = rng.chance(0.7);
	bool const awkward = rng.chance(0.3);
	if (awkward) {
		/* A font whose ID would be a path to somewhere else */
		for (auto& f: a.fonts) {
			f.first = "../" + f.first;
		}
	}
	begin_case("dump #" + std::to_string(n) + " of " + std::to_string(a.texts.size()) + " texts" + (a.crypt.on ? ", encrypted" : ""), a.crypt.on || !a.fonts.empty());
	auto const dir = fresh_dir("a");
	auto const asset = dynamic_pointer_cast<dcp::SMPTETextAsset>(pkg::build_asset(a, true, dir));
	fresh_work();
	vector<string> args;
	if (!fonts) {
		args.push_back(rng.coin() ? "-n" : "--no-fonts");
	}
	bool given = false;
	if (a.crypt.on && rng.chance(0.9)) {
		auto const& to = recipient();
		for (auto const& i: { string("-k"), write_kdm(keys_with(a.crypt, with).kdm(), to, "kdm.xml"), string("-p"), write_key(to.chain.leaf_key(), "key.pem") }) {
			args.push_back(i);
		}
		given = with;
	}
	args.push_back(dir + "/" + a.file);
	auto const r = RUN_WITH(dcpdumpsub, args);
	auto const work = opt.scratch + "/work";
	if (a.crypt.on && !given) {
		EXPECT(!r.ok() && r.out.empty() && pkg::files_in(work).empty(), "dump-refused", r.describe());
		count("dumps refused");
		return;
	}
	EXPECT(r.ok(), "dump-status", r.describe());
	auto const document = opt.scratch + "/dumped.xml";
	write_file(document, r.out);
	for (auto const& t: a.texts) {
		if (!t.image) {
			EXPECT(r.out.find(gen::escape(t.text)) != string::npos || t.text.find_first_of("<>&\"'\r\n\t") != string::npos, "dump-text", printable(t.text) << " not in " << r.describe());
		}
	}
	bool images = false;
	for (auto const& t: a.texts) {
		images = images || t.image;
	}
	if (!images) {
		dcp::SMPTETextAsset read(document);
		EXPECT(read.texts().size() == asset->texts().size(), "dump-count", read.texts().size() << " texts");
		auto const x = read.texts(), y = asset->texts();
		for (size_t i = 0; i < std::min(x.size(), y.size()); ++i) {
			EXPECT(x[i]->in() == y[i]->in() && x[i]->out() == y[i]->out(), "dump-times", i);
		}
	}
	EXPECT(!file_exists(opt.scratch + "/font0.ttf"), "dump-escaped", "font was written outside the working directory");
	bfs::remove(opt.scratch + "/font0.ttf");
	auto const files = pkg::files_in(work);
	EXPECT(files.size() == (fonts ? a.fonts.size() : 0), "dump-fonts", files.size() << " files for " << a.fonts.size() << " fonts");
	if (fonts) {
		std::multiset<string> want, have;
		for (auto const& f: a.fonts) {
			want.insert(f.second);
		}
		for (auto const& f: files) {
			have.insert(read_file(work + "/" + f));
		}
		EXPECT(want == have, "dump-font-data", "fonts differ");
	}
	count("dumps");
}

/* ---------- recovery ---------- */

void
recover_case(size_t n)
{
	pkg::Limits l;
	l.cpls = 1;
	l.awkward_names = false;
	l.encrypt = rng.chance(0.2);
	pkg::Spec spec;
	do {
		spec = pkg::random(l);
	} while (!spec.smpte);
	begin_case("recover #" + std::to_string(n) + " " + spec.describe());
	auto const dir = fresh_dir("a");
	auto const built = pkg::build(spec, dir);
	/* Lose the lists */
	for (auto const& f: pkg::files_in(dir)) {
		auto const s = read_file(dir + "/" + f);
		if (f.find("ASSETMAP") != string::npos || f.find("VOLINDEX") != string::npos || (s.size() < 1000000 && s.find("<PackingList") != string::npos)) {
			if (rng.chance(0.9) || f.find("ASSETMAP") != string::npos) {
				bfs::remove(dir + "/" + f);
			}
		}
	}
	/* The essence is to be in the output directory */
	auto const output = fresh_dir("b");
	for (auto const& a: spec.assets) {
		bfs::copy_file(dir + "/" + a.file, output + "/" + a.file);
	}
	fresh_work();
	auto const r = RUN(dcprecover, { "-o", output, dir });
	EXPECT(r.ok(), "recover-status", r.describe());
	if (!r.ok()) {
		return;
	}
	pkg::check_lists(output, true, "recovered");
	dcp::DCP d((bfs::path(output)));
	vector<dcp::VerificationNote> notes;
	d.read(&notes);
	EXPECT(notes.empty(), "recovered-notes", (notes.empty() ? "" : dcp::note_to_string(notes[0])));
	EXPECT(d.cpls().size() == 1 && d.cpls()[0]->id() == built.cpls[0]->id(), "recovered-cpl", d.cpls().size() << " CPLs");
	for (auto const& a: built.assets) {
		bool found = false;
		for (auto const& b: d.assets()) {
			found = found || b->id() == a->id();
		}
		EXPECT(found, "recovered-asset", a->id());
	}
	count("recoveries");
}

void
c43()
{
	rule("Programs run, each in a process of its own, on random packages and pairs of packages, KDMs, certificates and encrypted files; non-trivial = a difference, an encrypted file or more than one KDM. Oracle: the description that the input was made from, and for verification the library's own notes.");
	setenv("LIBDCP_RESOURCES", opt.repo.c_str(), 1);
	gen::init();
	struct { char const* name; void (*fn)(size_t); size_t quick; size_t thorough; } const kinds[] = {
		{ "diff", diff_case, 120, 4000 },
		{ "pixels", pixels_case, 30, 1000 },
		{ "verify", verify_case, 100, 3000 },
		{ "info", info_case, 120, 4000 },
		{ "kdm", kdm_case, 60, 2000 },
		{ "thumb", thumb_case, 20, 400 },
		{ "decrypt", decrypt_case, 100, 3000 },
		{ "dump", dump_case, 80, 3000 },
		{ "recover", recover_case, 60, 2000 },
	};
	auto const only = getenv("TOOLS_ONLY");
	for (auto const& k: kinds) {
		if (only && string(only) != k.name) {
			continue;
		}
		for (size_t i = 0, n = budget(k.quick, k.thorough); i < n; ++i) {
			k.fn(i);
		}
	}
}

KIT_CHECK("C43", c43);

}
