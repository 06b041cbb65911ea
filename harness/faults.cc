/* C02: failures of storage are reported by every call that writes files */

#include "certs.h"
#include "gen.h"
#include "kit.h"
#include "pkg.h"
#include "tracer.h"
#include "asset_factory.h"
#include "atmos_asset.h"
#include "atmos_asset_writer.h"
#include "certificate_chain.h"
#include "combine.h"
#include "cpl.h"
#include "dcp.h"
#include "decrypted_kdm.h"
#include "encrypted_kdm.h"
#include "exceptions.h"
#include "file.h"
#include "html_formatter.h"
#include "interop_text_asset.h"
#include "j2k_picture_asset_writer.h"
#include "mono_j2k_picture_asset.h"
#include "mono_j2k_picture_asset_writer.h"
#include "pdf_formatter.h"
#include "pkl.h"
#include "reel.h"
#include "smpte_text_asset.h"
#include "sound_asset.h"
#include "sound_asset_writer.h"
#include "stereo_j2k_picture_asset.h"
#include "text_formatter.h"
#include "text_image.h"
#include "util.h"
#include "verify.h"
#include "verify_report.h"
#include <asdcp/KM_prng.h>
#include <boost/filesystem.hpp>
#include <algorithm>
#include <cerrno>
#include <functional>
#include <map>
#include <set>

using namespace kit;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;
namespace bfs = boost::filesystem;

namespace {

struct Scenario
{
	string name;
	/** fill the (empty) directory before the call */
	std::function<void (string const& dir)> prepare;
	/** the call; anything it stores must be in the directory */
	std::function<void (string const& dir)> call;
	/** true if the file is closed only by a destructor, which can report nothing */
	bool closed_by_destructor = false;
};

std::map<string, string>
contents(string const& dir)
{
	std::map<string, string> out;
	for (auto const& f: pkg::files_in(dir)) {
		out[f] = read_file(dir + "/" + f);
	}
	return out;
}

string
describe(tracer::Plan const& p, tracer::Call const& c, string const& dir)
{
	string how;
	switch (p.action) {
	case tracer::Action::FAIL:
		how = "fails";
		break;
	case tracer::Action::FAIL_FROM:
		how = "and all after it fail";
		break;
	case tracer::Action::SHORT:
		how = "is short";
		break;
	case tracer::Action::FILL:
		how = "is short and all after it fail";
		break;
	default:
		how = "?";
	}
	return c.name + " of " + (c.path.size() > dir.size() ? c.path.substr(dir.size() + 1) : c.path) + " (" + std::to_string(p.at) + ") " + how + (p.error == ENOSPC ? " ENOSPC" : p.error == EIO ? " EIO" : p.error == EFBIG ? " EFBIG" : p.error == EDQUOT ? " EDQUOT" : "");
}

bool
stores(tracer::Call const& c)
{
	static std::set<string> const names = { "open", "write", "pwrite", "writev", "sendfile", "copy_file_range", "close", "fsync", "ftruncate", "truncate", "fallocate", "rename", "link", "mkdir" };
	return c.writes && names.count(c.name);
}

Rng repeatable(1);

/** Run the call with the same "random" identifiers and so on each time */
void
run_call(Scenario const& s, string const& dir)
{
	repeatable.reseed(opt.seed);
	Kumu::random_source = [](byte_t* buffer, ui32_t length) {
		for (ui32_t i = 0; i < length; ++i) {
			buffer[i] = repeatable.next();
		}
	};
	s.call(dir);
}

/** Try a scenario with every fault */
void
attack(Scenario const& s, size_t limit)
{
	auto const dir = opt.scratch + "/storage";
	auto fresh = [&]() {
		fresh_dir("storage");
		if (s.prepare) {
			s.prepare(dir);
		}
	};

	begin_case(s.name + " with no fault", false);
	fresh();
	auto const good = tracer::run(dir, [&]() { run_call(s, dir); });
	if (good.crashed) {
		violation("died", s.name + " died with no fault");
		return;
	}
	if (!good.returned) {
		violation("spurious", s.name + " failed with no fault: " + good.what);
		return;
	}
	auto const wanted = contents(dir);
	if (wanted.empty()) {
		violation("nothing-stored", s.name + " stored nothing");
		return;
	}
	if (s.name == "PDF report") {
		auto const& pdf = wanted.begin()->second;
		EXPECT(pdf.compare(0, 5, "%PDF-") == 0 && pdf.find("%%EOF", pdf.size() - 8) != string::npos, "incomplete-pdf", pdf.size());
	}
	fresh();
	auto const again = tracer::run(dir, [&]() { run_call(s, dir); });
	if (contents(dir) != wanted || again.calls.size() != good.calls.size()) {
		string which;
		auto const now = contents(dir);
		for (auto const& i: wanted) {
			if (!now.count(i.first) || now.at(i.first) != i.second) {
				which += " " + i.first;
			}
		}
		harness_error(s.name + " is not the same every time:" + which);
	}

	vector<tracer::Plan> plans;
	for (size_t i = 0; i < good.calls.size(); ++i) {
		auto const& c = good.calls[i];
		if (!stores(c) || (c.name == "close" && s.closed_by_destructor)) {
			continue;
		}
		tracer::Plan p;
		p.at = i;
		p.error = rng.pick({ENOSPC, EIO, EFBIG, EDQUOT});
		p.action = tracer::Action::FAIL;
		plans.push_back(p);
		if (c.name != "close") {
			p.error = ENOSPC;
			p.action = tracer::Action::FAIL_FROM;
			plans.push_back(p);
		}
		if (c.name == "write" && c.count > 1) {
			p.error = 0;
			p.action = tracer::Action::SHORT;
			plans.push_back(p);
			p.error = ENOSPC;
			p.action = tracer::Action::FILL;
			plans.push_back(p);
		}
	}
	count("faults possible", plans.size());
	if (plans.size() > limit) {
		rng.shuffle(plans);
		plans.resize(limit);
	}
	note_max("calls in one scenario", good.calls.size());

	for (auto const& p: plans) {
		auto const& c = good.calls[p.at];
		auto const what = describe(p, c, dir);
		begin_case(s.name + ": " + what);
		fresh();
		auto const o = tracer::run(dir, [&]() { run_call(s, dir); }, p);
		observed();
		if (!o.acted) {
			harness_error(s.name + ": fault did not happen: " + what);
		}
		count("faults: " + c.name);
		if (o.crashed) {
			violation("died:" + s.name, what + ": process died with signal " + std::to_string(o.signal));
			continue;
		}
		if (o.threw) {
			count("reported");
			EXPECT(o.std_exception, "foreign-exception:" + s.name, what);
			continue;
		}
		auto const now = contents(dir);
		if (now == wanted) {
			count("overcome");
			continue;
		}
		string different;
		for (auto const& i: wanted) {
			auto j = now.find(i.first);
			if (j == now.end()) {
				different += " " + i.first + " is missing";
			} else if (j->second != i.second) {
				different += " " + i.first + " has " + std::to_string(j->second.size()) + " bytes of " + std::to_string(i.second.size()) + (i.second.compare(0, j->second.size(), j->second) == 0 ? "" : " (not its beginning)");
			}
		}
		if (different.empty()) {
			/* Everything that was asked for is there, and something else is too */
			count("left something else");
			continue;
		}
		violation("unreported:" + s.name + ":" + c.name, what + ": success was reported but" + different);
	}
}

void
no_prepare(string const&)
{

}

shared_ptr<dcp::CertificateChain>
signer()
{
	certs::ChainLimits l;
	l.max = 3;
	l.big_keys = false;
	return certs::chain_for(certs::random_chain(l));
}

/** One part of a package as plain values, encrypted or not */
pkg::Asset
part(pkg::Kind kind, bool smpte)
{
	for (int tries = 0; tries < 300; ++tries) {
		pkg::Limits l;
		l.cpls = 1;
		l.reels = 2;
		l.awkward_names = false;
		auto const spec = pkg::random(l);
		if (spec.smpte != smpte) {
			continue;
		}
		for (auto const& a: spec.assets) {
			if (a.kind == kind && (kind != pkg::Kind::TEXT || !a.texts.empty())) {
				return a;
			}
		}
	}
	harness_error("no such part");
}

string
some_data()
{
	auto const b = rng.bytes(rng.pick({1, 100, 4095, 4096, 4097, 8192, 20000, 70000, 200000}));
	return string(b.begin(), b.end());
}

vector<std::function<Scenario ()>> const makers = {

	[]() {
		auto const d = some_data();
		return Scenario{"block of data", no_prepare, [d](string const& dir) {
			dcp::ArrayData(reinterpret_cast<uint8_t const*>(d.data()), d.size()).write(dir + "/out");
		}};
	},

	[]() {
		auto const d = some_data();
		auto const old = some_data();
		return Scenario{"block of data by way of a temporary", [old](string const& dir) {
			write_file(dir + "/out", old);
		}, [d](string const& dir) {
			dcp::ArrayData(reinterpret_cast<uint8_t const*>(d.data()), d.size()).write_via_temp(dir + "/temp", dir + "/out");
		}};
	},

	[]() {
		vector<string> parts;
		for (int i = rng.range(1, 5); i > 0; --i) {
			parts.push_back(some_data());
		}
		auto const old = some_data();
		bool const append = rng.coin();
		return Scenario{"open file", [old](string const& dir) {
			write_file(dir + "/out", old);
		}, [parts, append](string const& dir) {
			dcp::File f(dir + "/out", append ? "ab" : "wb");
			if (!f) {
				throw dcp::FileError("could not open", dir, f.open_error());
			}
			for (auto const& p: parts) {
				f.checked_write(p.data(), p.size());
			}
			f.checked_close();
		}};
	},

	[]() {
		auto const d = some_data();
		return Scenario{"string", no_prepare, [d](string const& dir) {
			dcp::write_string_to_file(d, dir + "/out");
		}};
	},

	[]() {
		auto const chain = signer();
		dcp::DecryptedKDM d(dcp::LocalTime("2021-01-01T00:00:00+00:00"), dcp::LocalTime("2022-01-01T00:00:00+00:00"), "a", "b", "2020-01-01T00:00:00+00:00");
		for (int k = rng.range(1, 12); k > 0; --k) {
			d.add_key(string("MDIK"), gen::uuid(), dcp::Key(pkg::crypt().key), gen::uuid(), dcp::Standard::SMPTE);
		}
		auto const kdm = make_shared<dcp::EncryptedKDM>(d.encrypt(chain, chain->leaf(), {}, dcp::Formulation::MODIFIED_TRANSITIONAL_1, true, 0));
		return Scenario{"KDM", no_prepare, [kdm](string const& dir) {
			kdm->as_xml(bfs::path(dir + "/kdm.xml"));
		}};
	},

	[]() {
		auto pkl = make_shared<dcp::PKL>(rng.coin() ? dcp::Standard::SMPTE : dcp::Standard::INTEROP, string("annotation"), "2020-01-01T00:00:00+00:00", "issuer", "creator");
		for (int i = rng.pick({1, 3, 40}); i > 0; --i) {
			pkl->add_asset(gen::uuid(), string("annotation"), gen::hash(), rng.range(1, 1000000), "application/mxf", "file.mxf");
		}
		shared_ptr<dcp::CertificateChain> chain;
		if (rng.coin()) {
			chain = signer();
		}
		return Scenario{"packing list", no_prepare, [pkl, chain](string const& dir) {
			pkl->write_xml(dir + "/pkl.xml", chain);
		}};
	},

	[]() {
		auto map = make_shared<dcp::AssetMap>(rng.coin() ? dcp::Standard::SMPTE : dcp::Standard::INTEROP, string("annotation"), "2020-01-01T00:00:00+00:00", "issuer", "creator");
		vector<string> names;
		for (int i = rng.pick({1, 3, 40}); i > 0; --i) {
			names.push_back("file" + std::to_string(i));
		}
		for (auto const& n: names) {
			map->add_asset(gen::uuid(), opt.scratch + "/storage/" + n, n == names.front());
		}
		return Scenario{"asset map", [names](string const& dir) {
			for (auto const& n: names) {
				write_file(dir + "/" + n, n);
			}
		}, [map](string const& dir) {
			map->write_xml(dir + "/ASSETMAP.xml");
		}};
	},

	[]() {
		pkg::Limits l;
		auto const spec = pkg::random(l);
		auto const built = make_shared<pkg::Built>(pkg::build(spec, fresh_dir("source"), true));
		shared_ptr<dcp::CertificateChain> chain;
		if (rng.coin()) {
			chain = signer();
		}
		return Scenario{"playlist", no_prepare, [built, chain](string const& dir) {
			built->cpls[0]->write_xml(dir + "/cpl.xml", chain);
		}};
	},

	[]() {
		/* A whole package */
		pkg::Limits l;
		l.cpls = 1;
		l.reels = 1;
		l.awkward_names = false;
		auto const spec = pkg::random(l);
		auto const source = fresh_dir("source");
		pkg::build(spec, source, true);
		shared_ptr<dcp::CertificateChain> chain;
		if (rng.coin()) {
			chain = signer();
		}
		/* Identifiers of packing lists and asset maps are made by the library as it writes, so make the package look as
		   it will look when it is rewritten
		*/
		return Scenario{"package", [source](string const& dir) {
			for (auto const& f: pkg::files_in(source)) {
				bfs::create_directories(bfs::path(dir + "/" + f).parent_path());
				bfs::copy_file(source + "/" + f, dir + "/" + f);
			}
		}, [chain](string const& dir) {
			dcp::DCP d(dir);
			d.read();
			d.set_issuer("issuer");
			d.set_creator("creator");
			d.set_issue_date("2020-01-01T00:00:00+00:00");
			d.write_xml(chain);
		}};
	},

	[]() {
		auto const a = part(pkg::Kind::TEXT, false);
		auto const asset = std::dynamic_pointer_cast<dcp::InteropTextAsset>(pkg::build_asset(a, false, fresh_dir("source")));
		return Scenario{"Interop text", no_prepare, [asset](string const& dir) {
			asset->write(dir + "/text.xml");
		}};
	},

	[]() {
		auto const a = part(pkg::Kind::TEXT, true);
		auto const asset = std::dynamic_pointer_cast<dcp::SMPTETextAsset>(pkg::build_asset(a, true, fresh_dir("source")));
		return Scenario{"SMPTE text", no_prepare, [asset](string const& dir) {
			asset->write(dir + "/text.mxf");
		}};
	},

	[]() {
		auto const kind = rng.pick({pkg::Kind::MONO, pkg::Kind::STEREO, pkg::Kind::SOUND, pkg::Kind::ATMOS});
		auto const smpte = kind == pkg::Kind::ATMOS || rng.coin();
		auto a = part(kind, smpte);
		a.file = "out.mxf";
		return Scenario{kind == pkg::Kind::MONO ? "pictures" : kind == pkg::Kind::STEREO ? "stereoscopic pictures" : kind == pkg::Kind::SOUND ? "sound" : "Atmos", no_prepare, [a, smpte](string const& dir) {
			pkg::build_asset(a, smpte, dir);
		}};
	},

	[]() {
		auto const d = some_data();
		auto const image = make_shared<dcp::TextImage>(dcp::ArrayData(reinterpret_cast<uint8_t const*>(d.data()), d.size()), gen::uuid(), dcp::Time(), dcp::Time(0, 0, 1, 0, 24), 0, dcp::HAlign::CENTER, 0, dcp::VAlign::BOTTOM, 0, vector<dcp::Text::VariableZPosition>(), dcp::Time(), dcp::Time());
		return Scenario{"image", no_prepare, [image](string const& dir) {
			image->write_png_file(dir + "/image.png");
		}};
	},

	[]() {
		/* Reports of verification */
		pkg::Limits l;
		l.encrypt = false;
		auto const source = fresh_dir("source");
		pkg::build(pkg::random(l), source, true);
		vector<dcp::VerificationResult> results;
		for (int i = rng.pick({1, 2, 12}); i > 0; --i) {
			results.push_back(dcp::verify({source}, {}, [](string, boost::optional<bfs::path>) {}, [](float) {}, {}, bfs::path(opt.repo + "/xsd")));
		}
		auto const form = rng.below(3);
		Scenario s{form == 0 ? "text report" : form == 1 ? "HTML report" : "PDF report", no_prepare, [form, results](string const& dir) {
			if (form == 0) {
				dcp::TextFormatter f(dir + "/report.txt");
				dcp::verify_report(results, f);
			} else if (form == 1) {
				dcp::HTMLFormatter f(dir + "/report.html");
				dcp::verify_report(results, f);
			} else {
				dcp::PDFFormatter f(dir + "/report.pdf");
				dcp::verify_report(results, f);
			}
		}};
		s.closed_by_destructor = form < 2;
		return s;
	},

	[]() {
		/* Packages combined into another */
		pkg::Limits l;
		l.cpls = 1;
		l.reels = 1;
		l.awkward_names = false;
		vector<bfs::path> inputs;
		auto first = pkg::random(l);
		inputs.push_back(fresh_dir("input0"));
		pkg::build(first, inputs[0].string(), true);
		pkg::Spec second;
		do {
			second = pkg::random(l);
		} while (second.smpte != first.smpte);
		inputs.push_back(fresh_dir("input1"));
		pkg::build(second, inputs[1].string(), true);
		return Scenario{"combination", no_prepare, [inputs](string const& dir) {
			dcp::combine(inputs, dir + "/combined", "issuer", "creator", "2020-01-01T00:00:00+00:00", "annotation");
		}};
	},
};

void
faults()
{
	if (!tracer::available()) {
		harness_error("cannot trace a child process");
	}
	gen::init();
	auto const rounds = budget(4 * makers.size(), 60 * makers.size());
	for (size_t i = 0; i < rounds; ++i) {
		rng.reseed(opt.seed * 7907 + (i * opt.shards + opt.shard) * 104729 + 5);
		attack(makers[(i * opt.shards + opt.shard) % makers.size()](), opt.thorough ? 400 : 40);
	}
	rule("for each writing call every system call that stores something failed, failed from there on, or was cut short; success was accepted only with the content of the run without a fault");
	assumption("a failing close loses data accepted earlier, as close(2) allows");
	assumption("MXF files are written by a stand-in for asdcplib which returns an error result when a write, seek or close fails, as asdcplib does");
}

KIT_CHECK("C02", faults);

}
