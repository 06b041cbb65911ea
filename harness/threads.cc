/* C40: different objects used by different threads at the same time (run under TSan).

   A job is a piece of work on objects of its own which gives a text; all its choices are made beforehand.  Each round
   runs some jobs in threads which are released together and then each of them alone, and compares the texts.  Jobs of
   each kind are also run first of all in a new process, so that what the library sets up on first use is set
   up by several threads at once. */
#include "bitstream.h"
#include "certificate.h"
#include "certificate_chain.h"
#include "certs.h"
#include "chromaticity.h"
#include "colour_conversion.h"
#include "content_kind.h"
#include "cpl.h"
#include "data.h"
#include "dcp.h"
#include "decrypted_kdm.h"
#include "decrypted_kdm_key.h"
#include "encrypted_kdm.h"
#include "file.h"
#include "filesystem.h"
#include "fsk.h"
#include "gamma_transfer_function.h"
#include "gen.h"
#include "h_align.h"
#include "interop_text_asset.h"
#include "j2k_transcode.h"
#include "key.h"
#include "kit.h"
#include "language_tag.h"
#include "local_time.h"
#include "main_sound_configuration.h"
#include "modified_gamma_transfer_function.h"
#include "name_format.h"
#include "openjpeg_image.h"
#include "pkg.h"
#include "pkl.h"
#include "raw_convert.h"
#include "reel.h"
#include "reel_file_asset.h"
#include "rgb_xyz.h"
#include "s_gamut3_transfer_function.h"
#include "smpte_text_asset.h"
#include "sound_asset.h"
#include "types.h"
#include "utc_offset.h"
#include "util.h"
#include "v_align.h"
#include <boost/filesystem.hpp>
#include <iomanip>
#include <pthread.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

using namespace kit;
using std::make_shared;
using std::map;
using std::shared_ptr;
using std::string;
using std::to_string;
using std::vector;

namespace bfs = boost::filesystem;

namespace {

/** Work to do in a directory */
typedef std::function<string (string)> Job;

string
digest(void const* data, size_t size)
{
	return to_string(kit::hash(string(reinterpret_cast<char const*>(data), size)));
}

Job
times()
{
	vector<string> dates;
	vector<int> numbers;
	for (int i = 0; i < 30; ++i) {
		dates.push_back(gen::date());
		numbers.push_back(rng.range(-40, 40));
	}
	return [=](string) {
		string r;
		dcp::LocalTime last(dates[0]);
		for (size_t i = 0; i < dates.size(); ++i) {
			dcp::LocalTime t(dates[i]);
			r += t.as_string() + (t < last ? "<" : ">=");
			t.add_days(numbers[i]);
			t.add_minutes(numbers[i] * 7);
			t.add_months(numbers[i]);
			r += t.as_string(true) + t.date() + t.time_of_day(true, true) + "\n";
			last = t;
		}
		/* the clock: only that it can be used */
		dcp::LocalTime now;
		return r + (now.year() > 2000 ? "" : "clock");
	};
}

Job
timecodes()
{
	vector<int> n;
	for (int i = 0; i < 40; ++i) {
		n.push_back(rng.range(1, 1000000));
	}
	int const rate = rng.pick({24, 25, 30, 48, 60});
	return [=](string) {
		string r;
		dcp::Time sum;
		for (auto i: n) {
			dcp::Time t(i, rate, rate);
			sum = sum + t;
			r += t.as_string(dcp::Standard::SMPTE) + dcp::Time(t.as_string(dcp::Standard::SMPTE), rate).as_string(dcp::Standard::INTEROP) + sum.as_string(dcp::Standard::SMPTE);
			r += to_string(dcp::raw_convert<float>(to_string(i / 8.0))) + to_string(dcp::raw_convert<int>(to_string(i)));
			r += dcp::Fraction(to_string(i) + " " + to_string(rate)).as_string();
		}
		return r;
	};
}

Job
names()
{
	vector<string> v;
	for (int i = 0; i < 20; ++i) {
		v.push_back(gen::text(false));
	}
	return [=](string) {
		string r;
		for (size_t i = 0; i + 1 < v.size(); ++i) {
			dcp::NameFormat f("x_%a/%b_%c " + v[i]);
			dcp::NameFormat::Map m;
			m['a'] = v[i + 1];
			m['b'] = v[i];
			r += f.get(m, ".xml", "%c");
		}
		return r;
	};
}

Job
codecs()
{
	vector<vector<uint8_t>> data;
	vector<string> words = { "feature", "trailer", "Advertisement", "nonsense", "transitional" };
	for (int i = 0; i < 20; ++i) {
		data.push_back(rng.bytes(16));
	}
	return [=](string) {
		string r;
		std::set<string> ids;
		for (auto const& d: data) {
			string hex;
			for (auto b: d) {
				char c[3];
				snprintf(c, 3, "%02x", b);
				hex += c;
			}
			dcp::Key k(hex);
			auto copy = k;
			r += copy.hex() + (copy == k ? "=" : "!");
			dcp::Key made;
			r += made == k ? "same" : "";
			r += dcp::openjpeg_version().empty() ? "no version" : "";
			ids.insert(dcp::make_uuid());
			uint8_t out[64];
			r += digest(out, dcp::base64_decode("SGVsbG8gdGhlcmU=", out, sizeof(out)));
			r += dcp::remove_urn_uuid("urn:uuid:" + hex) + to_string(dcp::day_greater_than_or_equal(dcp::LocalTime("2020-01-01T00:00:00+00:00"), dcp::LocalTime("2020-01-02T00:00:00+00:00")));
		}
		for (auto const& w: words) {
			try {
				r += dcp::ContentKind::from_name(w).name();
			} catch (std::exception& e) {
				r += type_name(e);
			}
		}
		for (int i = 0; i < 10; ++i) {
			r += dcp::marker_to_string(static_cast<dcp::Marker>(i)) + dcp::Colour(i, i * 2, i * 3).to_argb_string();
		}
		return r + to_string(ids.size());
	};
}

Job
tags()
{
	vector<string> t;
	for (int i = 0; i < 10; ++i) {
		t.push_back(gen::language().as_string());
	}
	t.push_back("en-");
	t.push_back("zz-Qaax-XX-yyyy");
	return [=](string) {
		string r;
		for (auto const& i: t) {
			try {
				dcp::LanguageTag tag(i);
				r += tag.as_string() + tag.description();
				if (tag.region()) {
					r += dcp::LanguageTag::get_subtag_description(dcp::LanguageTag::SubtagType::REGION, tag.region()->subtag()).get_value_or("?");
				}
			} catch (std::exception& e) {
				r += type_name(e) + e.what();
			}
		}
		r += to_string(dcp::LanguageTag::get_all(dcp::LanguageTag::SubtagType::SCRIPT).size()) + to_string(dcp::rating_systems().size());
		return r;
	};
}

Job
signals()
{
	auto const bytes = rng.bytes(40);
	return [=](string) {
		dcp::Bitstream b;
		b.start_crc(0x1021);
		for (auto i: bytes) {
			b.write_from_byte(i);
		}
		b.write_crc();
		dcp::FSK f;
		f.set_data(b.get());
		string r;
		for (size_t i = 0; i < 500; ++i) {
			r += to_string(f.get()) + " ";
		}
		return r;
	};
}

Job
data()
{
	auto const bytes = rng.bytes(rng.pick({0, 1, 1000, 70000, 200000}));
	return [=](string dir) {
		dcp::ArrayData d(bytes.data(), bytes.size());
		auto const file = bfs::path(dir) / "data";
		d.write(file);
		auto r = dcp::make_digest(d) + dcp::make_digest(file, [](int64_t, int64_t) {});
		d.write_via_temp(bfs::path(dir) / "temp", bfs::path(dir) / "other");
		dcp::ArrayData e(bfs::path(dir) / "other");
		dcp::File f(file, "rb");
		vector<char> some(100);
		r += to_string(f.read(some.data(), 1, some.size())) + string(some.begin(), some.end());
		r += dcp::file_to_string(file, 1000000);
		return r + (e == d ? "=" : "!") + digest(e.data(), e.size());
	};
}

Job
tables()
{
	int const bits = rng.range(4, 10);
	double const gamma = rng.real(1.8, 2.8);
	return [=](string) {
		/* own functions, and those inside the conversions which everyone shares */
		dcp::GammaTransferFunction g(gamma);
		dcp::ModifiedGammaTransferFunction m(gamma, 0.04045, 0.055, 12.92);
		dcp::SGamut3TransferFunction s;
		string r;
		auto add = [&](vector<double> const& v) { r += digest(v.data(), v.size() * sizeof(double)); };
		for (bool inverse: { false, true }) {
			add(g.double_lut(0, 1, bits, inverse));
			add(m.double_lut(0, 1, bits, inverse));
			add(s.double_lut(0, 1, bits, inverse));
			add(dcp::ColourConversion::srgb_to_xyz().in()->double_lut(0, 1, bits, inverse));
			add(dcp::ColourConversion::rec709_to_xyz().in()->double_lut(0, 1, bits, inverse));
			add(dcp::ColourConversion::p3_d65_to_xyz().out()->double_lut(0, 1, bits, inverse));
			auto const i = dcp::ColourConversion::rec2020_to_xyz().in()->int_lut(0, 1, bits, inverse, 4095);
			r += digest(i.data(), i.size() * sizeof(int));
		}
		return r;
	};
}

vector<dcp::ColourConversion const& (*)()> const conversions = {
	&dcp::ColourConversion::srgb_to_xyz, &dcp::ColourConversion::rec601_to_xyz, &dcp::ColourConversion::rec709_to_xyz, &dcp::ColourConversion::p3_d65_to_xyz,
	&dcp::ColourConversion::rec1886_to_xyz, &dcp::ColourConversion::rec2020_to_xyz, &dcp::ColourConversion::s_gamut3_to_xyz
};

Job
images()
{
	int const w = rng.range(4, 64);
	int const h = rng.range(1, 32);
	auto const bytes = rng.bytes(w * h * 6);
	auto const which = rng.below(conversions.size());
	return [=](string) {
		auto const& c = conversions[which]();
		auto image = dcp::rgb_to_xyz(bytes.data(), dcp::Size(w, h), w * 6, c);
		string r;
		for (int i = 0; i < 3; ++i) {
			r += digest(image->data(i), w * h * sizeof(int));
		}
		vector<uint8_t> back(w * h * 6);
		dcp::xyz_to_rgb(image, c, back.data(), w * 6);
		vector<uint8_t> rgba(w * h * 4);
		dcp::xyz_to_rgba(image, c, rgba.data(), w * 4);
		auto const m = dcp::combined_rgb_to_xyz;
		double matrix[9];
		m(c, matrix);
		return r + digest(back.data(), back.size()) + digest(rgba.data(), rgba.size()) + digest(matrix, sizeof(matrix)) + (c.about_equal(c, 1e-6) ? "=" : "!");
	};
}

Job
codestreams()
{
	int const w = rng.range(32, 96);
	int const h = rng.range(32, 64);
	int const step = rng.range(1, 50);
	return [=](string) {
		auto image = make_shared<dcp::OpenJPEGImage>(dcp::Size(w, h));
		for (int c = 0; c < 3; ++c) {
			for (int i = 0; i < w * h; ++i) {
				image->data(c)[i] = (i * step + c * 1000) % 4096;
			}
		}
		auto const j = dcp::compress_j2k(image, 100000000, 24, false, false, "test");
		auto const back = dcp::decompress_j2k(j, 0);
		string r = digest(j.data(), j.size());
		for (int c = 0; c < 3; ++c) {
			r += digest(back->data(c), w * h * sizeof(int));
		}
		return r;
	};
}

/** Everything about a package that does not depend on when and with which identifiers it was made */
Job
packages(bool signing)
{
	pkg::Limits limits;
	limits.cpls = 1;
	limits.reels = 2;
	auto const spec = pkg::random(limits);
	shared_ptr<certs::Chain> chain;
	if (signing) {
		certs::ChainLimits l;
		l.big_keys = l.odd_names = false;
		l.min = l.max = 3;
		chain = make_shared<certs::Chain>(certs::random_chain(l));
	}
	return [=](string dir) {
		auto const package = dir + "/p";
		bfs::create_directories(package);
		shared_ptr<dcp::CertificateChain> signer;
		if (chain) {
			signer = make_shared<dcp::CertificateChain>();
			for (auto const& i: chain->pems) {
				signer->add(dcp::Certificate(i));
			}
			signer->set_key(certs::key_pem(chain->leaf_key()));
		}
		auto built = pkg::build(spec, package, true, signer);
		pkg::check_lists(package, spec.smpte, "together");
		string r;
		dcp::DCP copy(package);
		copy.read();
		copy.resolve_refs(vector<shared_ptr<dcp::Asset>>());
		for (auto cpl: copy.cpls()) {
			copy.add(pkg::kdm(spec, cpl->id()));
			r += cpl->content_title_text() + cpl->content_kind().name() + to_string(cpl->duration());
			for (auto reel: cpl->reels()) {
				for (auto a: reel->file_assets()) {
					r += a->edit_rate().as_string() + to_string(a->entry_point().get_value_or(-1)) + to_string(a->actual_duration());
					r += a->asset_ref().resolved() ? "+" : "-";
				}
			}
			auto const again = cpl->file();
			if (chain && again) {
				r += certs::signature_problem(read_file(again->string())).get_value_or("signed");
			}
		}
		for (size_t i = 0; i < built.assets.size(); ++i) {
			for (auto a: copy.assets()) {
				if (a->id() == built.assets[i]->id()) {
					pkg::check_content(spec.assets[i], a, "together");
				}
			}
		}
		return r;
	};
}

Job
texts(bool smpte)
{
	pkg::Spec spec;
	for (int i = 0; i < 200; ++i) {
		spec = pkg::random(pkg::Limits());
		if (spec.smpte == smpte && std::any_of(spec.assets.begin(), spec.assets.end(), [](pkg::Asset const& a) { return a.kind == pkg::Kind::TEXT; })) {
			break;
		}
	}
	return [=](string dir) {
		string r;
		for (auto const& a: spec.assets) {
			if (a.kind == pkg::Kind::TEXT) {
				auto asset = std::dynamic_pointer_cast<dcp::TextAsset>(pkg::build_asset(a, spec.smpte, dir));
				auto xml = asset->xml_as_string();
				auto const id = asset->id();
				for (auto p = xml.find(id); p != string::npos; p = xml.find(id)) {
					xml.replace(p, id.size(), "ID");
				}
				if (auto s = std::dynamic_pointer_cast<dcp::SMPTETextAsset>(asset)) {
					auto const x = s->xml_id().get_value_or("none");
					for (auto p = xml.find(x); p != string::npos; p = xml.find(x)) {
						xml.replace(p, x.size(), "XID");
					}
				}
				/* identifiers of fonts and images which the library made */
				for (size_t p = 0; p + 36 < xml.size(); ++p) {
					if (xml[p + 8] == '-' && xml[p + 13] == '-' && xml[p + 18] == '-' && xml[p + 23] == '-' && xml.find_first_not_of("0123456789abcdef-", p) >= p + 36) {
						xml.replace(p, 36, "made");
					}
				}
				r += xml + to_string(asset->latest_text_out().as_seconds()) + to_string(asset->texts_during(dcp::Time(0, 24, 24), dcp::Time(100, 24, 24), true).size());
			}
		}
		return r;
	};
}

Job
kdms()
{
	certs::ChainLimits l;
	l.big_keys = l.odd_names = false;
	l.min = l.max = 3;
	auto const chain = certs::random_chain(l);
	vector<std::pair<string, string>> keys;
	for (int i = 0, n = rng.range(1, 4); i < n; ++i) {
		auto c = pkg::crypt();
		keys.push_back({ c.key_id, c.key });
	}
	auto const cpl = gen::uuid();
	auto const formulation = static_cast<dcp::Formulation>(rng.below(4));
	return [=](string) {
		auto signer = make_shared<dcp::CertificateChain>();
		for (auto const& i: chain.pems) {
			signer->add(dcp::Certificate(i));
		}
		auto const key = certs::key_pem(chain.leaf_key());
		signer->set_key(key);
		dcp::DecryptedKDM d(dcp::LocalTime("2021-01-01T00:00:00+00:00"), dcp::LocalTime("2022-01-01T00:00:00+00:00"), "a", "b", "2020-01-01T00:00:00+00:00");
		for (auto const& k: keys) {
			d.add_key(string("MDIK"), k.first, dcp::Key(k.second), cpl, dcp::Standard::SMPTE);
		}
		auto e = d.encrypt(signer, dcp::Certificate(chain.pems.back()), {}, formulation, true, 0);
		dcp::EncryptedKDM parsed(e.as_xml());
		dcp::DecryptedKDM back(parsed, key);
		string r;
		for (auto const& k: back.keys()) {
			r += k.id() + k.key().hex() + k.cpl_id() + k.type().get_value_or("");
		}
		return r + parsed.content_title_text() + parsed.not_valid_before().as_string() + certs::signature_problem(e.as_xml()).get_value_or("signed");
	};
}

Job
certificates()
{
	certs::ChainLimits l;
	l.big_keys = false;
	auto const chain = certs::random_chain(l);
	return [=](string) {
		dcp::CertificateChain c;
		string r;
		for (auto const& i: chain.pems) {
			dcp::Certificate k(i);
			r += k.subject() + k.issuer() + k.serial() + k.thumbprint() + k.not_before().as_string() + k.certificate(true);
			c.add(k);
		}
		string error;
		r += c.valid(&error) ? "valid" : error;
		for (auto const& i: c.root_to_leaf()) {
			r += i.serial();
		}
		return r;
	};
}

Job
documents()
{
	auto const smpte = rng.coin();
	vector<string> ids, texts;
	for (int i = 0; i < 8; ++i) {
		ids.push_back(gen::uuid());
		texts.push_back(gen::text());
	}
	return [=](string dir) {
		auto const standard = smpte ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
		dcp::PKL p(standard, texts[1], "2020-01-02T03:04:05+00:00", "issuer", "creator");
		auto const file = bfs::path(dir) / "some.mxf";
		dcp::ArrayData(reinterpret_cast<uint8_t const*>("hello"), 5).write(file);
		for (auto const& i: ids) {
			p.add_asset(i, texts[2], "hash", 5, "application/mxf", "some.mxf");
		}
		p.write_xml(bfs::path(dir) / "pkl.xml", {});
		dcp::PKL q(bfs::path(dir) / "pkl.xml");
		string r = q.annotation_text().get_value_or("?");
		for (auto const& i: q.assets()) {
			r += i->id() + i->annotation_text().get_value_or("?") + i->hash();
		}
		dcp::MainSoundConfiguration sound("51/L,R,C,LFE,Ls,Rs");
		sound.set_mapping(3, dcp::Channel::HI);
		return r + sound.as_string() + dcp::channel_to_mca_name(dcp::Channel::LS, dcp::MCASoundField::FIVE_POINT_ONE);
	};
}

Job
trees()
{
	int const n = rng.range(3, 20);
	auto const text = gen::text();
	return [=](string dir) {
		namespace fs = dcp::filesystem;
		bfs::path const base = bfs::path(dir) / "tree";
		fs::create_directories(base / "a" / "b");
		string r;
		for (int i = 0; i < n; ++i) {
			auto const file = base / (i % 2 ? "a" : "a/b") / ("f" + to_string(i));
			dcp::File f(file, "wb");
			f.checked_write(text.c_str(), text.length());
			f.close();
			r += to_string(fs::file_size(file)) + (fs::exists(file) ? "+" : "-") + fs::extension(fs::change_extension(file, "x")) + fs::canonical(file).filename().string();
			r += fs::weakly_canonical(base / ("a/../c" + to_string(i))).filename().string() + fs::unfix_long_path(fs::fix_long_path(file)).filename().string();
		}
		fs::copy_file(base / "a" / "b" / "f0", base / "copy");
		fs::rename(base / "copy", base / "moved");
		boost::system::error_code ec;
		fs::remove(base / "nothing", ec);
		fs::file_size(base / "nothing", ec);
		r += ec.message();
		std::set<string> seen;
		for (auto i: fs::recursive_directory_iterator(base)) {
			seen.insert(i.path().filename().string());
		}
		for (auto i: fs::directory_iterator(base / "a")) {
			seen.insert("in a " + i.path().filename().string());
		}
		for (auto const& i: seen) {
			r += i + " ";
		}
		return r + to_string(fs::remove_all(base));
	};
}

Job
primaries()
{
	vector<double> v;
	for (int i = 0; i < 10; ++i) {
		v.push_back(rng.real(-0.03, 0.03));
	}
	return [=](string) {
		string r;
		for (bool adjusted: { false, true }) {
			dcp::ColourConversion c(
				make_shared<dcp::GammaTransferFunction>(2.2 + v[0]), dcp::YUVToRGB::REC709,
				dcp::Chromaticity(0.64 + v[1], 0.33 + v[2]), dcp::Chromaticity(0.3 + v[3], 0.6 + v[4]), dcp::Chromaticity(0.15 + v[5], 0.06 + v[6] / 2),
				dcp::Chromaticity::D65(), adjusted ? dcp::Chromaticity(0.314 + v[7], 0.351 + v[8]) : boost::optional<dcp::Chromaticity>(),
				make_shared<dcp::GammaTransferFunction>(2.6)
				);
			for (auto const& m: { c.rgb_to_xyz(), c.xyz_to_rgb(), c.bradford() }) {
				for (int i = 0; i < 9; ++i) {
					r += to_string(m(i / 3, i % 3)) + " ";
				}
			}
			r += c.about_equal(dcp::ColourConversion::rec709_to_xyz(), 1e-6) ? "=" : "!";
		}
		for (auto a: { dcp::HAlign::LEFT, dcp::HAlign::CENTER, dcp::HAlign::RIGHT }) {
			r += dcp::halign_to_string(dcp::string_to_halign(dcp::halign_to_string(a)));
		}
		for (auto a: { dcp::VAlign::TOP, dcp::VAlign::CENTER, dcp::VAlign::BOTTOM }) {
			r += dcp::valign_to_string(dcp::string_to_valign(dcp::valign_to_string(a)));
		}
		return r;
	};
}

vector<std::pair<string, std::function<Job ()>>> const kinds = {
	{ "trees", trees },
	{ "primaries", primaries },
	{ "times", times },
	{ "timecodes", timecodes },
	{ "names", names },
	{ "codecs", codecs },
	{ "tags", tags },
	{ "signals", signals },
	{ "data", data },
	{ "tables", tables },
	{ "images", images },
	{ "codestreams", codestreams },
	{ "packages", [] { return packages(false); } },
	{ "signed packages", [] { return packages(true); } },
	{ "SMPTE texts", [] { return texts(true); } },
	{ "Interop texts", [] { return texts(false); } },
	{ "KDMs", kdms },
	{ "certificates", certificates },
	{ "documents", documents },
};

string
attempt(Job const& job, string const& dir)
{
	try {
		return job(dir);
	} catch (std::exception& e) {
		return "threw " + type_name(e) + " " + e.what();
	}
}

struct Task
{
	string kind;
	Job job;
	string together;
	string alone;
};

void
together(vector<Task>& tasks, string const& base)
{
	pthread_barrier_t barrier;
	pthread_barrier_init(&barrier, nullptr, tasks.size());
	vector<std::thread> threads;
	for (size_t i = 0; i < tasks.size(); ++i) {
		auto const dir = base + "/t" + to_string(i);
		bfs::create_directories(dir);
		threads.emplace_back([&tasks, &barrier, dir, i]() {
			pthread_barrier_wait(&barrier);
			tasks[i].together = attempt(tasks[i].job, dir);
		});
	}
	for (auto& t: threads) {
		t.join();
	}
	pthread_barrier_destroy(&barrier);
}

void
round(vector<Task>& tasks)
{
	auto const base = fresh_dir("threads");
	together(tasks, base);
	for (size_t i = 0; i < tasks.size(); ++i) {
		auto const dir = base + "/a" + to_string(i);
		bfs::create_directories(dir);
		tasks[i].alone = attempt(tasks[i].job, dir);
		EXPECT(tasks[i].together == tasks[i].alone, "differs:" + tasks[i].kind, tasks[i].kind << " gave " << printable(tasks[i].together) << " with others, " << printable(tasks[i].alone) << " alone");
		EXPECT(tasks[i].alone.substr(0, 6) != "threw ", "threw:" + tasks[i].kind, printable(tasks[i].alone));
		count("jobs on " + tasks[i].kind);
	}
	remove_tree(base);
}

void
c40()
{
	rule("Rounds of 2-6 threads released together, each doing a different piece of work on its own objects (times, names, codecs, tags, signals, files, tables, images, codestreams, packages, texts, KDMs, certificates, documents; colour conversions and their tables are shared), and first uses of each kind by several threads in a new process. Oracle: the same text as when run alone; ThreadSanitizer sees no race. Non-trivial = more than one thread.");
	assumption("races inside libraries other than libdcp are not looked for, as these are not instrumented");
	gen::init();
	for (int i = 0; i < pkg::pictures; ++i) {
		for (int j = 0; j < pkg::shapes; ++j) {
			pkg::picture(i, j);
		}
	}
	for (int i = 0; i < certs::keys; ++i) {
		certs::key_pem(i);
	}

	/* First uses */
	for (size_t k = opt.shard; k < kinds.size() * (opt.thorough ? 10 : 1); k += opt.shards) {
		auto const& kind = kinds[k % kinds.size()];
		vector<Task> tasks;
		int const n = rng.range(2, 4);
		for (int i = 0; i < n; ++i) {
			tasks.push_back({ kind.first, kind.second(), "", "" });
		}
		begin_case("first use of " + kind.first + " by " + to_string(n) + " threads #" + to_string(k / kinds.size()));
		fflush(nullptr);
		auto const pid = fork();
		if (pid == 0) {
			round(tasks);
			fflush(nullptr);
			_exit(violations() ? 7 : 0);
		}
		int status = 0;
		waitpid(pid, &status, 0);
		count("first uses");
		observed(n);
		if (WIFEXITED(status) && WEXITSTATUS(status) == 7) {
			violation("first-use:" + kind.first, "first use by several threads gave other results than alone");
		} else if (status) {
			/* the report is already on standard error */
			fprintf(stderr, "KIT death in case [%s]\n", current_case().c_str());
			_exit(66);
		}
	}

	auto const rounds = budget(160, 4000);
	for (size_t r = 0; r < rounds; ++r) {
		vector<Task> tasks;
		int const n = rng.range(2, 6);
		string names;
		/* one kind, two, or any */
		vector<size_t> choice;
		for (int i = 0, m = rng.pick({1, 2, 19}); i < m; ++i) {
			choice.push_back(rng.below(kinds.size()));
		}
		for (int i = 0; i < n; ++i) {
			auto const& kind = kinds[rng.pick(choice)];
			tasks.push_back({ kind.first, kind.second(), "", "" });
			names += (i ? ", " : "") + kind.first;
		}
		begin_case("#" + to_string(opt.shard) + "/" + to_string(r) + " " + names);
		round(tasks);
	}
}

KIT_CHECK("C40", c40);

}
