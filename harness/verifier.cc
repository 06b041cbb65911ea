/* Verification of packages: what verify() says about packages which are made to be right, or wrong in known ways */
#include "certs.h"
#include "gen.h"
#include "kit.h"
#include "pkg.h"
#include "certificate_chain.h"
#include "content_kind.h"
#include "cpl.h"
#include "dcp.h"
#include "decrypted_kdm.h"
#include "interop_text_asset.h"
#include "j2k_transcode.h"
#include "local_time.h"
#include "mono_j2k_picture_asset.h"
#include "openjpeg_image.h"
#include "j2k_picture_asset_writer.h"
#include "reel.h"
#include "reel_interop_text_asset.h"
#include "reel_markers_asset.h"
#include "reel_mono_picture_asset.h"
#include "reel_smpte_text_asset.h"
#include "reel_sound_asset.h"
#include "reel_stereo_picture_asset.h"
#include "smpte_text_asset.h"
#include "sound_asset.h"
#include "sound_asset_writer.h"
#include "stereo_j2k_picture_asset.h"
#include "text_string.h"
#include "verify.h"
#include "verify_report.h"
#include <asdcp/AS_DCP.h>
#include <boost/filesystem.hpp>
#include <algorithm>
#include <functional>
#include <map>
#include <set>

using namespace kit;
using std::dynamic_pointer_cast;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;
using boost::optional;
namespace bfs = boost::filesystem;

namespace {

using VN = dcp::VerificationNote;
using Code = VN::Code;
using Type = VN::Type;

/* --- Pictures ------------------------------------------------------- */

struct Shape
{
	dcp::Size size;
	bool fourk;
	bool allowed;
};

vector<Shape> const shapes = {
	{ { 2048, 858 }, false, true },
	{ { 1998, 1080 }, false, true },
	{ { 4096, 1716 }, true, true },
	{ { 3996, 2160 }, true, true },
	{ { 2048, 1080 }, false, false },
	{ { 1920, 1080 }, false, false },
};

string const&
good_frame(int shape)
{
	static std::map<int, string> cache;
	auto i = cache.find(shape);
	if (i == cache.end()) {
		auto const size = shapes[shape].size;
		auto image = make_shared<dcp::OpenJPEGImage>(size);
		for (int c = 0; c < 3; ++c) {
			for (int n = 0; n < size.width * size.height; ++n) {
				image->data(c)[n] = 1000 + c * 700 + ((n / 512) % 2) * 300;
			}
		}
		auto const j = dcp::compress_j2k(image, 6000000, 24, false, shapes[shape].fourk, "test");
		i = cache.emplace(shape, string(reinterpret_cast<char const*>(j.data()), j.size())).first;
	}
	return i->second;
}

int u16(string const& s, size_t p) { return (uint8_t(s[p]) << 8) | uint8_t(s[p + 1]); }
uint32_t u32(string const& s, size_t p) { return (uint32_t(u16(s, p)) << 16) | u16(s, p + 2); }
void put32(string& s, size_t p, uint32_t v) { for (int i = 0; i < 4; ++i) { s[p + i] = char(v >> (24 - i * 8)); } }

/** Position of the marker in the main header, or npos */
size_t
marker(string const& s, int which)
{
	size_t p = 2;
	while (p + 4 < s.size() && uint8_t(s[p]) == 0xff) {
		if (uint8_t(s[p + 1]) == which) {
			return p;
		}
		if (uint8_t(s[p + 1]) == 0x90) {
			break;
		}
		p += 2 + u16(s, p + 2);
	}
	return string::npos;
}

vector<size_t>
tile_parts(string const& s)
{
	vector<size_t> p;
	for (size_t i = marker(s, 0x90); i != string::npos && i + 12 < s.size() && uint8_t(s[i]) == 0xff && uint8_t(s[i + 1]) == 0x90; i += u32(s, i + 6)) {
		p.push_back(i);
		if (!u32(s, i + 6)) {
			break;
		}
	}
	return p;
}

string const poc = string("\xff\x5f\x00\x10\x00\x00\x00\x01\x06\x03\x04\x06\x00\x00\x01\x07\x03\x04", 18);

enum class Flaw
{
	NEARLY_BIG, BIG, RSIZ, TILE_SIZE, BLOCK_WIDTH, BLOCK_HEIGHT, GUARD_BITS, TILE_PARTS, NO_TLM, POC_COUNT, POC_CONTENT, POC_PLACE,
	TILE_PART_SIZE, DEPTH, NO_START, UNKNOWN_MARKER, CUT, TWO_COD, NO_QCD, GOOD_COC, BAD_COC, COUNT
};

string
flawed(Flaw flaw, int shape, int rate, bool unreadable)
{
	auto s = good_frame(shape);
	bool const fourk = shapes[shape].fourk;
	auto need = [](size_t p) { if (p == string::npos) { harness_error("marker missing from encoded picture"); } return p; };
	auto bigger = [&](size_t size) { s.insert(s.size() - 2, string(size - s.size(), '\0')); };
	switch (flaw) {
	case Flaw::NEARLY_BIG:
		/* Only the size of the encrypted frame, which is a little bigger, is seen if there is no key */
		bigger(rng.pick({ size_t(230e6 / 8 / rate) + 2, size_t(240e6 / 8 / rate), size_t(250e6 / 8 / rate) - (unreadable ? 200 : 1) }));
		break;
	case Flaw::BIG:
		bigger(size_t(250e6 / 8 / rate) + rng.range(2, 1000));
		break;
	case Flaw::RSIZ:
		s[7] = fourk ? 3 : 4;
		break;
	case Flaw::TILE_SIZE:
	{
		/* XTsiz or YTsiz */
		auto const p = 2 + 4 + 2 + 16 + (rng.coin() ? 4 : 0);
		put32(s, p, u32(s, p) / 2);
		break;
	}
	case Flaw::BLOCK_WIDTH:
		s[need(marker(s, 0x52)) + 10] = rng.pick({ 2, 4 });
		break;
	case Flaw::BLOCK_HEIGHT:
		s[need(marker(s, 0x52)) + 11] = rng.pick({ 2, 4 });
		break;
	case Flaw::GUARD_BITS:
	{
		auto const p = need(marker(s, 0x5c)) + 4;
		s[p] = char((uint8_t(s[p]) & 0x1f) | (rng.pick({ 3, 4, fourk ? 1 : 2 }) << 5));
		break;
	}
	case Flaw::TILE_PARTS:
		for (auto p: tile_parts(s)) {
			s[p + 11] = fourk ? 3 : 6;
		}
		break;
	case Flaw::NO_TLM:
	{
		auto const p = need(marker(s, 0x55));
		s.erase(p, 2 + u16(s, p + 2));
		break;
	}
	case Flaw::POC_COUNT:
		if (fourk) {
			auto const p = need(marker(s, 0x5f));
			s.erase(p, 2 + u16(s, p + 2));
		} else {
			s.insert(need(marker(s, 0x90)), poc);
		}
		break;
	case Flaw::POC_CONTENT:
		s[need(marker(s, 0x5f)) + rng.range(4, 17)] += 1;
		break;
	case Flaw::POC_PLACE:
		s.insert(tile_parts(s).at(0) + 12, poc);
		break;
	case Flaw::TILE_PART_SIZE:
		put32(s, tile_parts(s).back() + 6, uint32_t(200e6 / 8 / rate) + rng.range(1, 1000));
		break;
	case Flaw::DEPTH:
		s[2 + 4 + 2 + 8 * 4 + 2 + rng.below(9)] = 9;
		break;
	case Flaw::NO_START:
		s[rng.below(4)] = 0;
		break;
	case Flaw::UNKNOWN_MARKER:
		s.insert(need(marker(s, 0x90)), string("\xff\x70\x00\x04\x00\x00", 6));
		break;
	case Flaw::CUT:
		s.resize(rng.range(1, need(marker(s, 0x5c)) + 1));
		break;
	case Flaw::TWO_COD:
	{
		auto const p = need(marker(s, 0x52));
		s.insert(p, s.substr(p, 2 + u16(s, p + 2)));
		break;
	}
	case Flaw::NO_QCD:
	{
		auto const p = need(marker(s, 0x5c));
		s.erase(p, 2 + u16(s, p + 2));
		break;
	}
	case Flaw::GOOD_COC:
	case Flaw::BAD_COC:
	{
		/* Coding style for one component, the same as that for all; length, component, style, levels, code blocks, mode, transform, precincts */
		auto const cod = need(marker(s, 0x52));
		auto const coding = s.substr(cod + 9, u16(s, cod + 2) - 7);
		auto coc = string("\xff\x53\x00", 3) + char(coding.size() + 4) + char(rng.below(3)) + '\1' + coding;
		if (flaw == Flaw::BAD_COC) {
			switch (rng.below(5)) {
			case 0: coc[4] = rng.pick({ 3, 4, 127 }); break;
			case 1: coc[5] = rng.pick({ 0, 2 }); break;
			case 2: coc[6] += rng.pick({ -1, 1 }); break;
			case 3: coc[rng.range(11, coc.size() - 1)] = 0x66; break;
			case 4: coc[rng.range(9, 10)] = 1; break;
			}
		}
		s.insert(cod + 2 + u16(s, cod + 2), coc);
		break;
	}
	case Flaw::COUNT:
		break;
	}
	return s;
}

/* --- Packages ------------------------------------------------------- */

struct Line
{
	int v_align = 2;
	int v_position = 10; ///< percent
	string text;
	bool italic = false;
	int screen() const { return v_align == 0 ? v_position : (v_align == 1 ? 50 + v_position : 100 - v_position); }
};

struct Slot
{
	int in = 0;
	int out = 0;
	vector<Line> lines;
	bool swapped = false; ///< true if the two lines are to be put in the file in the wrong order
};

struct File
{
	virtual ~File() {}
	string name;
	string id;
	pkg::Crypt crypt;
	bool gone = false;       ///< deleted, or not mentioned
	bool external = false;   ///< not mentioned
	bool empty_path = false;
	bool bad_pkl_hash = false;
	bool bad_cpl_hash = false;
	bool no_cpl_hash = false;
	string listed_id;        ///< ID used in the asset map and PKL, if it is not the right one
};

struct Track : public File
{
	vector<Slot> slots;
	optional<string> language = string("de-DE");
	optional<int> start = 0;
	vector<string> fonts = { "font" };
	optional<string> asks = string("font");
	optional<int> entry = 0;
	int frames = 0;
	optional<int> duration;
	int font_size = 100;
	string reel_language = "de-DE";
	bool namespaces = false;
	bool font_file_gone = false;
	bool empty_text = false;
	bool bad_issue_date = false;
	int other_xml_id = 0;    ///< 1 for some other ID in the XML, 2 for the ID of the file
	vector<string> font_files;
};

struct Sound : public File
{
	int channels = 2;
	int hz = 48000;
	int frames = 0;
	optional<int> duration;
	string language = "en-US";
};

struct Picture : public File
{
	int frames = 0;
	bool stereo = false;
	int shape = 0;
	std::map<int, Flaw> flaws;
	optional<int> duration;
	int entry = 0;
};

struct Reel
{
	Picture picture;
	optional<Sound> sound;
	optional<Track> subtitle;
	vector<Track> captions;
	optional<std::map<dcp::Marker, int>> markers;
	bool markers_entry = false;
	bool markers_duration = false;

	int duration() const {
		return picture.duration.get_value_or(picture.frames - picture.entry);
	}
};

struct ExtraCPL
{
	string file;
	string id;
	vector<Reel> reels;
	int msc_channels;
};

struct Package
{
	bool smpte = true;
	int rate = 24;
	vector<Reel> reels;
	string title;
	optional<string> annotation;
	optional<string> pkl_annotation;
	string kind = "trailer";
	string version_label = "version";
	bool no_content_version = false;
	optional<int> version_number = 1;
	optional<string> territory;
	bool territory_scope = false;
	optional<dcp::Size> active;
	int msc_channels = 2;
	bool bv20 = false;
	bool sign = false;
	bool with_kdm = false;
	bool stale_cpl_hash = false;
	bool no_metadata = false;
	bool no_extension = false;
	bool other_extension = false;
	bool bad_extension_name = false;
	bool bad_extension_profile = false;
	bool bad_cpl_xml = false;
	bool bad_pkl_xml = false;
	bool bad_map_xml = false;
	bool cpl_namespace = false;
	bool pkl_namespace = false;
	bool twice_in_pkl = false;
	bool twice_in_map = false;
	vector<string> additional_languages;
	int extra_cpls = 0;
	string cpl_id;
	string dir;
	string cpl_file, pkl_file, map_file;
	vector<ExtraCPL> extra;

	vector<File*> files() {
		vector<File*> f;
		for (auto& r: reels) {
			f.push_back(&r.picture);
			if (r.sound) {
				f.push_back(r.sound.get_ptr());
			}
			if (r.subtitle) {
				f.push_back(r.subtitle.get_ptr());
			}
			for (auto& c: r.captions) {
				f.push_back(&c);
			}
		}
		return f;
	}
};

string
words(int length)
{
	static vector<string> const letters = { "a", "b", "c", "d", "e", "M", "W", "7", ".", "\xc3\xa9", "\xe2\x82\xac", "&", "<", " " };
	string s = "x";
	for (int i = 1; i < length; ++i) {
		s += i == length - 1 ? "y" : rng.pick(letters);
	}
	return s;
}

int
characters(string const& s)
{
	return std::count_if(s.begin(), s.end(), [](char c) { return (uint8_t(c) & 0xc0) != 0x80; });
}

/** Lines which are as they should be */
vector<Line>
good_lines(bool captions)
{
	vector<Line> lines;
	int const n = rng.range(1, 3);
	int const align = rng.below(3);
	int const limit = captions ? 32 : 52;
	for (int i = 0; i < n; ++i) {
		Line l;
		l.v_align = align;
		/* further down the screen */
		l.v_position = align == 2 ? 30 - i * 8 : 5 + i * 8;
		if (rng.chance(0.25)) {
			/* Two on one line */
			int const a = rng.range(1, limit - 1);
			l.text = words(a);
			lines.push_back(l);
			l.italic = true;
			l.text = words(rng.coin() ? limit - a : rng.range(1, limit - a));
		} else {
			l.text = words(rng.coin() ? limit : rng.range(1, limit));
		}
		lines.push_back(l);
	}
	return lines;
}

Track
good_track(Package const& p, Reel const& reel, int index, bool captions)
{
	Track t;
	t.frames = reel.picture.frames;
	t.duration = t.frames;
	/* Interop times are in steps of 4ms */
	int const step = p.smpte || p.rate == 25 ? 1 : p.rate / 2;
	auto up = [step](int x) { return (x + step - 1) / step * step; };
	int at = index == 0 && p.smpte ? 4 * p.rate : up(2);
	if (rng.coin()) {
		at = up(at + rng.below(20));
	}
	for (int i = 0, n = rng.range(1, 4); i < n; ++i) {
		Slot s;
		s.in = at;
		s.out = up(s.in + (rng.coin() ? 15 : rng.range(15, 60)));
		s.lines = good_lines(captions);
		if (s.out > t.frames && i == 0) {
			s.out = up(s.in + 15);
		}
		if (s.out > t.frames) {
			break;
		}
		at = up(s.out + (rng.coin() ? 2 : rng.range(2, 30)));
		t.slots.push_back(s);
	}
	return t;
}

Package
good_package()
{
	Package p;
	p.smpte = rng.chance(0.75);
	int shape = rng.below(2);
	bool stereo = rng.chance(0.15);
	if (rng.chance(0.15)) {
		shape = 2 + rng.below(2);
		stereo = false;
	}
	p.rate = shapes[shape].fourk ? 24 : rng.pick({ 24, 24, 25, 48 });
	p.title = rng.pick({ string("A Title"), string("Une \xc3\xa9toile & <autres>"), string("x") });
	p.annotation = p.title;
	p.pkl_annotation = p.title;
	p.kind = rng.pick({ "feature", "trailer", "short", "advertisement", "test", "psa" });
	if (p.smpte && rng.chance(0.3)) {
		p.kind = rng.pick({ "clip", "highlights", "event" });
	}
	p.version_number = rng.range(1, 3);
	p.bv20 = rng.chance(0.3);
	if (rng.chance(0.4)) {
		p.territory = rng.pick({ "US", "DE", "419", "001" });
	}
	int const encryption = rng.pick({ 0, 0, 0, 1 });
	p.sign = encryption || rng.coin();
	p.with_kdm = encryption && rng.chance(0.7);
	auto crypt = [&]() { return encryption ? pkg::crypt() : pkg::Crypt(); };

	bool const sound = rng.chance(0.8);
	bool const subtitle = rng.chance(0.5);
	int const captions = rng.chance(0.4) ? rng.range(1, p.smpte ? 2 : 1) : 0;
	int const channels = rng.pick({ 1, 2, 6, 8 });
	int const reels = rng.pick({ 1, 1, 2, 3 });
	for (int i = 0; i < reels; ++i) {
		Reel r;
		r.picture.frames = p.rate + rng.below(20);
		if (subtitle || captions) {
			r.picture.frames += p.rate * (i == 0 && p.smpte ? 5 : 1);
		}
		r.picture.duration = r.picture.frames;
		r.picture.shape = shape;
		r.picture.stereo = stereo;
		r.picture.crypt = crypt();
		if (sound) {
			Sound s;
			s.frames = r.picture.frames;
			s.duration = s.frames;
			s.channels = channels;
			s.crypt = crypt();
			r.sound = s;
		}
		if (subtitle) {
			r.subtitle = good_track(p, r, i, false);
			if (p.smpte) {
				r.subtitle->crypt = crypt();
			}
		}
		for (int c = 0; c < captions; ++c) {
			r.captions.push_back(good_track(p, r, i, true));
			if (p.smpte) {
				r.captions.back().crypt = crypt();
			}
		}
		p.reels.push_back(r);
	}
	p.msc_channels = channels;
	p.active = shapes[shape].size;
	if (rng.chance(0.3)) {
		p.active->width -= 2 * rng.below(100);
		p.active->height -= 2 * rng.below(100);
	}
	if (p.smpte) {
		std::map<dcp::Marker, int> first, last;
		first[dcp::Marker::FFOC] = 1;
		if (p.kind == "feature") {
			first[dcp::Marker::FFEC] = rng.range(2, 20);
			first[dcp::Marker::FFMC] = rng.range(2, 20);
		}
		p.reels.front().markers = first;
		if (!p.reels.back().markers) {
			p.reels.back().markers = last;
		}
		(*p.reels.back().markers)[dcp::Marker::LFOC] = p.reels.back().duration() - 1;
	}
	return p;
}

dcp::ArrayData
array(string const& s)
{
	dcp::ArrayData d(s.size());
	memcpy(d.data(), s.data(), s.size());
	return d;
}

shared_ptr<dcp::CertificateChain>
signer()
{
	static shared_ptr<dcp::CertificateChain> chain;
	if (!chain) {
		Rng const keep = rng;
		rng.reseed(1);
		certs::ChainLimits limits;
		limits.big_keys = false;
		limits.odd_names = false;
		limits.min = limits.max = 3;
		chain = certs::chain_for(certs::random_chain(limits));
		rng = keep;
	}
	return chain;
}

/** Replace one piece of text, which must be there */
void
replace(string& s, string const& from, string const& to, size_t start = 0)
{
	auto const p = s.find(from, start);
	if (p == string::npos) {
		harness_error("cannot find " + from + " to change it");
	}
	s.replace(p, from.size(), to);
}

/** Remove everything from one text to the end of another */
void
cut(string& s, string const& from, string const& to, size_t start = 0)
{
	auto const p = s.find(from, start);
	auto const q = p == string::npos ? p : s.find(to, p);
	if (q == string::npos) {
		harness_error("cannot find " + from + " to remove it");
	}
	s.erase(p, q + to.size() - p);
}

Track const* track_being_written;

/** Make changes which the library would not to the XML of track_being_written */
string
edit_track(string xml)
{
	auto const& t = *track_being_written;
	bool const smpte = xml.find("<DCSubtitle") == string::npos;
	if (t.namespaces) {
		string const root = smpte ? (xml.find("<SubtitleReel") == string::npos ? "<dcst:SubtitleReel" : "<SubtitleReel") : "<DCSubtitle";
		replace(xml, root, root + " xmlns:foo=\"http://foo.com/\" xmlns:bar=\"http://bar.com/\"");
	}
	if (t.empty_text) {
		auto const prefix = string(xml.find("<dcst:Text") == string::npos ? "" : "dcst:");
		string const attributes = smpte ? "Vposition=\"90\" Valign=\"top\"" : "VPosition=\"90\" VAlign=\"top\"";
		replace(xml, "</" + prefix + "Subtitle>", "<" + prefix + "Text " + attributes + "/></" + prefix + "Subtitle>");
	}
	if (t.bad_issue_date) {
		auto const p = xml.find("IssueDate>");
		if (p == string::npos) {
			harness_error("no issue date to change");
		}
		xml.replace(p + 10, xml.find('<', p) - p - 10, rng.pick({ string("2020-01-02T03:04:05.000-00:00"), string("2020-01-02T03:04:05Z") }));
	}
	if (t.other_xml_id) {
		auto const p = xml.find("urn:uuid:") + 9;
		xml.replace(p, 36, t.other_xml_id == 1 ? gen::uuid() : t.id);
	}
	size_t at = 0;
	for (auto const& s: t.slots) {
		at = xml.find("Subtitle SpotNumber", at + 1);
		if (at == string::npos) {
			harness_error("too few subtitles in XML");
		}
		if (s.swapped) {
			auto value = [&](size_t from) {
				auto p = std::min(xml.find("Vposition=\"", from), xml.find("VPosition=\"", from));
				if (p == string::npos) {
					harness_error("no position in XML");
				}
				p += 11;
				return std::make_pair(p, xml.find('"', p) - p);
			};
			auto const a = value(at);
			auto const b = value(a.first);
			auto const av = xml.substr(a.first, a.second);
			auto const bv = xml.substr(b.first, b.second);
			xml.replace(b.first, b.second, av);
			xml.replace(a.first, a.second, bv);
		}
	}
	return xml;
}

shared_ptr<dcp::TextAsset>
write_track(Package const& p, Track& t, int reel)
{
	shared_ptr<dcp::TextAsset> asset;
	auto const path = p.dir + "/" + t.name;
	bfs::create_directories(bfs::path(path).parent_path());
	shared_ptr<dcp::SMPTETextAsset> smpte;
	if (p.smpte) {
		smpte = make_shared<dcp::SMPTETextAsset>();
		if (t.language) {
			smpte->set_language(dcp::LanguageTag(*t.language));
		}
		if (t.start) {
			smpte->set_start_time(dcp::Time(*t.start, p.rate, p.rate));
		}
		smpte->set_edit_rate(dcp::Fraction(p.rate, 1));
		smpte->set_time_code_rate(p.rate);
		smpte->set_reel_number(reel + 1);
		smpte->set_content_title_text(p.title);
		if (t.crypt.on) {
			smpte->set_key_id(t.crypt.key_id);
			smpte->set_key(dcp::Key(t.crypt.key));
		}
		asset = smpte;
	} else {
		auto interop = make_shared<dcp::InteropTextAsset>();
		interop->set_language("German");
		interop->set_reel_number(std::to_string(reel + 1));
		interop->set_movie_title(p.title);
		asset = interop;
	}
	for (auto const& f: t.fonts) {
		asset->add_font(f, array(string(t.font_size, 'f')));
	}
	int const extra = t.start.get_value_or(0);
	for (auto const& s: t.slots) {
		for (auto const& l: s.lines) {
			asset->add(make_shared<dcp::TextString>(
				t.asks, l.italic, false, false, dcp::Colour(255, 255, 255), 42, 1.0f, dcp::Time(s.in + extra, p.rate, p.smpte ? p.rate : 250), dcp::Time(s.out + extra, p.rate, p.smpte ? p.rate : 250),
				0, dcp::HAlign::CENTER, l.v_position / 100.0f, static_cast<dcp::VAlign>(l.v_align == 0 ? dcp::VAlign::TOP : (l.v_align == 1 ? dcp::VAlign::CENTER : dcp::VAlign::BOTTOM)), 0, vector<dcp::Text::VariableZPosition>(),
				dcp::Direction::LTR, l.text, dcp::Effect::NONE, dcp::Colour(0, 0, 0), dcp::Time(0, 24, 24), dcp::Time(0, 24, 24), 0, vector<dcp::Ruby>()
				));
		}
	}
	if (smpte) {
		smpte->set_intrinsic_duration(t.frames);
	}
	track_being_written = &t;
	t.id = asset->id();
	ASDCP::TimedText::edit_xml = edit_track;
	asset->write(path);
	ASDCP::TimedText::edit_xml = nullptr;
	if (!p.smpte) {
		auto const before = read_file(path);
		auto const after = edit_track(before);
		if (after != before) {
			write_file(path, after);
		}
		auto const sub = t.name.substr(0, t.name.find('/') + 1);
		for (auto const& f: pkg::files_in(p.dir)) {
			if (f.find(sub) == 0 && f != t.name) {
				t.font_files.push_back(f);
			}
		}
	}
	return asset;
}

dcp::ContentKind
content_kind(Package const& p)
{
	try {
		return dcp::ContentKind::from_name(p.kind);
	} catch (std::exception&) {
		return dcp::ContentKind(p.kind, boost::none);
	}
}

void
build(Package& p, string const& dir)
{
	p.dir = dir;
	auto const standard = p.smpte ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
	dcp::Fraction const rate(p.rate, 1);
	auto cpl = make_shared<dcp::CPL>(p.title, content_kind(p), standard, p.bv20 ? dcp::Profile::SMPTE_BV20 : dcp::Profile::SMPTE_BV21);
	if (p.annotation) {
		cpl->set_annotation_text(*p.annotation);
	}
	cpl->set_content_version(dcp::ContentVersion("urn:uuid:" + gen::uuid(), p.version_label));
	if (p.version_number) {
		cpl->set_version_number(*p.version_number);
	} else {
		cpl->unset_version_number();
	}
	cpl->set_issue_date("2020-01-02T03:04:05+00:00");
	cpl->set_main_picture_stored_area(shapes[p.reels[0].picture.shape].size);
	if (p.active) {
		cpl->set_main_picture_active_area(dcp::Size(p.active->width / 2 * 2, p.active->height / 2 * 2));
	}
	cpl->set_main_sound_configuration(dcp::MainSoundConfiguration(p.msc_channels == 8 ? dcp::MCASoundField::SEVEN_POINT_ONE : dcp::MCASoundField::FIVE_POINT_ONE, p.msc_channels));
	cpl->set_main_sound_sample_rate(48000);
	if (p.territory && *p.territory != "001" && p.territory->find("x") == string::npos) {
		cpl->set_release_territory(dcp::LanguageTag::RegionSubtag(*p.territory));
	} else if (p.territory) {
		cpl->set_release_territory(dcp::LanguageTag::RegionSubtag("ZW"));
	}
	vector<dcp::LanguageTag> additional;
	for (auto const& l: p.additional_languages) {
		additional.push_back(dcp::LanguageTag(l == "bad" ? "de-CH" : l));
	}
	if (!additional.empty()) {
		cpl->set_additional_subtitle_languages(additional);
	}

	int number = 0;
	auto make_reel = [&](Reel& r, size_t i) {
		auto reel = make_shared<dcp::Reel>();

		r.picture.name = "picture" + std::to_string(number++) + ".mxf";
		shared_ptr<dcp::J2KPictureAsset> picture;
		if (r.picture.stereo) {
			picture = make_shared<dcp::StereoJ2KPictureAsset>(rate, standard);
		} else {
			picture = make_shared<dcp::MonoJ2KPictureAsset>(rate, standard);
		}
		auto crypt = [](File const& f, dcp::MXF& mxf) {
			if (f.crypt.on) {
				mxf.set_key_id(f.crypt.key_id);
				mxf.set_key(dcp::Key(f.crypt.key));
			}
		};
		crypt(r.picture, *picture);
		{
			auto writer = picture->start_write(bfs::path(dir) / r.picture.name, dcp::Behaviour::MAKE_NEW);
			auto const& good = good_frame(r.picture.shape);
			auto const eyes = r.picture.stereo ? 2 : 1;
			for (int f = 0; f < r.picture.frames; ++f) {
				auto flaw = r.picture.flaws.find(f);
				int const which = flaw == r.picture.flaws.end() ? -1 : int(rng.below(eyes));
				for (int e = 0; e < eyes; ++e) {
					auto const data = e == which ? flawed(flaw->second, r.picture.shape, p.rate, r.picture.crypt.on && !p.with_kdm) : good;
					ASDCP::JP2K::any_codestream = e == which;
					writer->write(reinterpret_cast<uint8_t const*>(data.data()), data.size());
					ASDCP::JP2K::any_codestream = false;
				}
			}
			writer->finalize();
		}
		r.picture.id = picture->id();
		shared_ptr<dcp::ReelPictureAsset> rp;
		if (r.picture.stereo) {
			rp = make_shared<dcp::ReelStereoPictureAsset>(dynamic_pointer_cast<dcp::StereoJ2KPictureAsset>(picture), r.picture.entry);
		} else {
			rp = make_shared<dcp::ReelMonoPictureAsset>(dynamic_pointer_cast<dcp::MonoJ2KPictureAsset>(picture), r.picture.entry);
		}
		if (!p.smpte) {
			rp->set_screen_aspect_ratio(dcp::Fraction(185, 100));
		}
		if (r.picture.duration) {
			rp->set_duration(*r.picture.duration);
		}
		reel->add(rp);

		if (r.sound) {
			r.sound->name = "sound" + std::to_string(number++) + ".mxf";
			auto sound = make_shared<dcp::SoundAsset>(rate, r.sound->hz, r.sound->channels, dcp::LanguageTag(r.sound->language), standard);
			crypt(*r.sound, *sound);
			auto writer = sound->start_write(bfs::path(dir) / r.sound->name, {}, dcp::SoundAsset::AtmosSync::DISABLED, p.bv20 ? dcp::SoundAsset::MCASubDescriptors::DISABLED : dcp::SoundAsset::MCASubDescriptors::ENABLED);
			vector<int32_t> samples(r.sound->hz / p.rate);
			for (auto& s: samples) {
				s = int32_t(rng.below(1 << 24)) - (1 << 23);
			}
			vector<int32_t const*> pointers(r.sound->channels, samples.data());
			for (int f = 0; f < r.sound->frames; ++f) {
				writer->write(pointers.data(), r.sound->channels, samples.size());
			}
			writer->finalize();
			r.sound->id = sound->id();
			auto rs = make_shared<dcp::ReelSoundAsset>(sound, 0);
			if (r.sound->duration) {
				rs->set_duration(*r.sound->duration);
			}
			reel->add(rs);
		}

		auto add_track = [&](Track& t, dcp::TextType type) {
			t.name = p.smpte ? "text" + std::to_string(number++) + ".mxf" : "text" + std::to_string(number++) + "/text.xml";
			std::stable_sort(t.slots.begin(), t.slots.end(), [](Slot const& a, Slot const& b) { return a.in < b.in; });
			auto asset = write_track(p, t, i);
			shared_ptr<dcp::ReelTextAsset> rt;
			if (p.smpte) {
				rt = make_shared<dcp::ReelSMPTETextAsset>(type, dynamic_pointer_cast<dcp::SMPTETextAsset>(asset), rate, t.frames, t.entry.get_value_or(0));
			} else {
				rt = make_shared<dcp::ReelInteropTextAsset>(type, dynamic_pointer_cast<dcp::InteropTextAsset>(asset), rate, t.frames, t.entry.get_value_or(0));
			}
			if (!t.entry) {
				rt->unset_entry_point();
			}
			if (t.duration) {
				rt->set_duration(*t.duration);
			}
			rt->set_language(dcp::LanguageTag(t.reel_language == "bad" ? "de-DE" : t.reel_language));
			reel->add(rt);
		};
		if (r.subtitle) {
			add_track(*r.subtitle, dcp::TextType::OPEN_SUBTITLE);
		}
		for (auto& c: r.captions) {
			add_track(c, dcp::TextType::CLOSED_CAPTION);
		}
		if (r.markers) {
			auto m = make_shared<dcp::ReelMarkersAsset>(rate, r.duration());
			for (auto const& i: *r.markers) {
				m->set(i.first, dcp::Time(i.second, p.rate, p.rate));
			}
			if (r.markers_entry) {
				m->set_entry_point(0);
			}
			if (r.markers_duration) {
				m->set_duration(r.duration());
			}
			reel->add(m);
		}
		return reel;
	};

	auto const plan = p.reels;
	for (size_t i = 0; i < p.reels.size(); ++i) {
		cpl->add(make_reel(p.reels[i], i));
	}

	dcp::DCP dcp((bfs::path(dir)));
	dcp.add(cpl);
	for (int i = 0; i < p.extra_cpls; ++i) {
		/* Another title for the same content, or for content with another language and sound format */
		auto const title = "Other " + std::to_string(i);
		auto extra = make_shared<dcp::CPL>(title, content_kind(p), standard, p.bv20 ? dcp::Profile::SMPTE_BV20 : dcp::Profile::SMPTE_BV21);
		extra->set_annotation_text(title);
		extra->set_content_version(*cpl->content_version());
		extra->set_version_number(1);
		extra->set_main_picture_stored_area(*cpl->main_picture_stored_area());
		extra->set_main_picture_active_area(*cpl->main_picture_active_area());
		extra->set_main_sound_configuration(*cpl->main_sound_configuration());
		extra->set_main_sound_sample_rate(48000);
		if (p.territory) {
			extra->set_release_territory(dcp::LanguageTag::RegionSubtag(*p.territory));
		}
		ExtraCPL other;
		other.reels = p.reels;
		other.msc_channels = p.msc_channels;
		if (rng.coin()) {
			other.reels = plan;
			other.msc_channels = rng.pick({ 1, 2, 6, 8 });
			extra->set_main_sound_configuration(dcp::MainSoundConfiguration(other.msc_channels == 8 ? dcp::MCASoundField::SEVEN_POINT_ONE : dcp::MCASoundField::FIVE_POINT_ONE, other.msc_channels));
			for (size_t j = 0; j < plan.size(); ++j) {
				auto& r = other.reels[j];
				if (r.sound) {
					r.sound->channels = other.msc_channels;
				}
				if (r.subtitle && r.subtitle->language) {
					r.subtitle->language = r.subtitle->reel_language = "fr-FR";
				}
				extra->add(make_reel(r, j));
			}
			count("with other content in another playlist");
		} else {
			for (auto reel: cpl->reels()) {
				extra->add(reel);
			}
		}
		dcp.add(extra);
		other.id = extra->id();
		other.file = "cpl_" + other.id + ".xml";
		p.extra.push_back(other);
	}
	dcp.set_annotation_text(p.pkl_annotation.get_value_or(""));
	dcp.write_xml(p.sign ? signer() : shared_ptr<dcp::CertificateChain>());
	p.cpl_id = cpl->id();

	p.map_file = p.smpte ? "ASSETMAP.xml" : "ASSETMAP";
	for (auto const& f: pkg::files_in(dir)) {
		if (f == "cpl_" + p.cpl_id + ".xml") {
			p.cpl_file = f;
		} else if (f.substr(0, 4) == "pkl_") {
			p.pkl_file = f;
		}
	}
}

/** Things which are done to the files of a package which has been written */
void
edit(Package& p)
{
	auto const cpl_path = p.dir + "/" + p.cpl_file;
	auto const pkl_path = p.dir + "/" + p.pkl_file;
	auto const map_path = p.dir + "/" + p.map_file;
	auto cpl = read_file(cpl_path);
	auto pkl = read_file(pkl_path);
	auto map = read_file(map_path);
	auto const cpl_before = cpl;
	auto const cpl_hash = pkg::sha1(cpl_path);

	if (!p.annotation) {
		cut(cpl, "<AnnotationText>", "</AnnotationText>");
	}
	if (p.no_metadata) {
		cut(cpl, "<meta:CompositionMetadataAsset", "</meta:CompositionMetadataAsset>");
	}
	if (p.no_extension) {
		cut(cpl, "<meta:ExtensionMetadataList", "</meta:ExtensionMetadataList>");
	}
	if (p.other_extension) {
		replace(cpl, "http://isdcf.com/ns/cplmd/app", "http://example.com/other");
	}
	if (p.bad_extension_name) {
		replace(cpl, "<meta:Name>Application</meta:Name>", "<meta:Name>Applicatoin</meta:Name>");
	}
	if (p.bad_extension_profile) {
		replace(cpl, "SMPTE-RDD-52:2020-Bv", "SMPTE-RDD-52:2019-Bv");
	}
	if (p.bad_cpl_xml) {
		replace(cpl, "<IssueDate>", "<IssueDate>x");
	}
	if (p.cpl_namespace) {
		replace(cpl, "CPL", "CQL");
	}
	if (p.no_content_version) {
		cut(cpl, "<ContentVersion>", "</ContentVersion>");
	}
	if (p.territory && (*p.territory == "001" || p.territory->find("x") != string::npos) && cpl.find(">ZW<") != string::npos) {
		replace(cpl, ">ZW<", ">" + *p.territory + "<");
	}
	if (p.territory_scope) {
		replace(cpl, "<meta:ReleaseTerritory", "<meta:ReleaseTerritory scope=\"http://www.smpte-ra.org/schemas/429-16/2014/CPL-Metadata#scope/release-territory/UNM49\"");
	}
	if (p.active && p.smpte && !p.no_metadata) {
		auto const at = cpl.find("<meta:MainPictureActiveArea>");
		auto set = [&](string const& name, int value) {
			replace(cpl, "<meta:" + name + ">" + std::to_string(value / 2 * 2) + "<", "<meta:" + name + ">" + std::to_string(value) + "<", at);
		};
		set("Width", p.active->width);
		set("Height", p.active->height);
	}
	for (auto const& l: p.additional_languages) {
		if (l == "bad") {
			replace(cpl, "de-CH", "no_language");
		}
	}
	for (auto& r: p.reels) {
		auto language = [&](Track const& t) {
			if (t.reel_language == "bad") {
				replace(cpl, "de-DE<", "d_e<", cpl.find(t.id));
			}
		};
		if (r.subtitle) {
			language(*r.subtitle);
		}
		for (auto const& c: r.captions) {
			language(c);
		}
	}
	for (auto f: p.files()) {
		auto hash_at = [&](string const& s) {
			auto const q = s.find("<Hash>", s.find(f->id));
			if (q == string::npos) {
				harness_error("no hash to change");
			}
			return q + 6;
		};
		auto other = [](char c) { return c == 'q' ? 'r' : 'q'; };
		if (f->bad_cpl_hash) {
			auto const q = hash_at(cpl);
			cpl[q] = other(cpl[q]);
		}
		if (f->no_cpl_hash) {
			cut(cpl, "<Hash>", "</Hash>", cpl.find(f->id));
		}
		if (f->bad_pkl_hash) {
			auto const q = hash_at(pkl);
			pkl[q] = other(pkl[q]);
		}
		auto entry = [&](string& s) {
			/* the whole <Asset> (or am:Asset) with this ID */
			auto const id = s.find(f->id);
			auto const start = s.rfind("<Asset>", id);
			string const close = "</Asset>";
			auto const end = s.find(close, id);
			if (id == string::npos || start == string::npos || end == string::npos) {
				harness_error("cannot find asset in a list");
			}
			return std::make_pair(start, end + close.size() - start);
		};
		if (f->external) {
			auto e = entry(pkl);
			pkl.erase(e.first, e.second);
			e = entry(map);
			map.erase(e.first, e.second);
			bfs::remove(p.dir + "/" + f->name);
		} else if (f->empty_path) {
			replace(map, "<Path>" + f->name + "</Path>", "<Path></Path>");
		} else if (f->gone) {
			bfs::remove(p.dir + "/" + f->name);
		}
	}
	auto twice = [&](string& s) {
		auto const id = s.find(p.reels[0].picture.id);
		auto const start = s.rfind("<Asset>", id);
		auto const end = s.find("</Asset>", id) + 8;
		if (id == string::npos || start == string::npos) {
			harness_error("nothing to duplicate");
		}
		s.insert(start, s.substr(start, end - start));
	};
	if (p.twice_in_pkl) {
		twice(pkl);
	}
	if (p.twice_in_map) {
		twice(map);
	}
	if (p.bad_pkl_xml) {
		replace(pkl, "<IssueDate>", "<IssueDate>x");
	}
	if (p.pkl_namespace) {
		replace(pkl, "PKL", "PQL");
	}
	if (p.bad_map_xml) {
		replace(map, "<IssueDate>", "<IssueDate>x");
	}
	for (auto f: p.files()) {
		if (auto t = dynamic_cast<Track*>(f)) {
			if (t->font_file_gone) {
				for (auto const& i: t->font_files) {
					bfs::remove(p.dir + "/" + i);
				}
			}
		}
		if (!f->listed_id.empty()) {
			replace(pkl, f->id, f->listed_id);
			replace(map, f->id, f->listed_id);
		}
	}

	if (cpl != cpl_before) {
		write_file(cpl_path, cpl);
		if (!p.stale_cpl_hash) {
			replace(pkl, cpl_hash, pkg::sha1(cpl_path));
		}
	} else if (p.stale_cpl_hash) {
		replace(pkl, cpl_hash, "AAAAAAAAAAAAAAAAAAAAAAAAAAA=");
	}
	write_file(pkl_path, pkl);
	write_file(map_path, map);
}

/* --- What should be said -------------------------------------------- */

struct Want
{
	Code code;
	int reel = -1;
	string asset;
	string file;
	int64_t frame = -1;
	bool optional_note = false;
	string detail;

	bool matches(VN const& n, string const& dir) const {
		if (n.code() != code) {
			return false;
		}
		if (reel >= 0 && (!n.reel_index() || *n.reel_index() != reel)) {
			return false;
		}
		if (!asset.empty() && n.asset_id() != asset) {
			return false;
		}
		if (!file.empty() && (!n.file() || n.file()->string() != dir + "/" + file)) {
			return false;
		}
		if (frame >= 0 && (!n.frame() || *n.frame() != frame)) {
			return false;
		}
		if (!detail.empty() && dcp::note_to_string(n).find(detail) == string::npos) {
			return false;
		}
		return true;
	}
};

class Wants
{
public:
	vector<Want> list;

	Want& add(Code code) {
		Want w;
		w.code = code;
		list.push_back(w);
		return list.back();
	}
	Want& in_reel(Code code, int reel, string const& asset = "", string const& file = "") {
		auto& w = add(code);
		w.reel = reel;
		w.asset = asset;
		w.file = file;
		return w;
	}
	Want& in_file(Code code, string const& file) {
		auto& w = add(code);
		w.file = file;
		return w;
	}
};

/** Texts of one kind in each reel */
void
want_text_details(Package const& p, vector<Track const*> tracks, Wants& w)
{
	/* Details are looked at if the first reel has this kind of text */
	if (!tracks[0]) {
		return;
	}
	bool const doubtful = tracks[0]->gone;
	optional<int64_t> last;
	int64_t offset = 0;
	for (size_t i = 0; i < tracks.size(); ++i) {
		auto t = tracks[i];
		if (!t || t->gone) {
			offset += p.reels[i].duration();
			continue;
		}
		auto say = [&](Code code) {
			w.in_reel(code, i).optional_note = doubtful;
		};
		if (t->crypt.on && !p.with_kdm) {
			say(Code::MISSED_CHECK_OF_ENCRYPTED);
			offset += p.reels[i].duration();
			continue;
		}
		bool early = false, none = false, brief = false, close = false;
		for (auto const& s: t->slots) {
			early = early || (p.smpte && i == 0 && s.in < 4 * p.rate);
			if (s.out <= s.in) {
				none = true;
			} else if (s.out - s.in < 15) {
				brief = true;
			}
			if (last) {
				auto const gap = offset + s.in - *last;
				close = close || (gap >= 0 && gap < 2);
			}
			last = offset + s.out;
		}
		offset += t->duration.get_value_or(t->frames - t->entry.get_value_or(0));
		if (last && *last > offset) {
			say(Code::SUBTITLE_OVERLAPS_REEL_BOUNDARY);
		}
		if (early) {
			say(Code::INVALID_SUBTITLE_FIRST_TEXT_TIME);
		}
		if (none) {
			say(Code::INVALID_SUBTITLE_DURATION);
		}
		if (brief) {
			say(Code::INVALID_SUBTITLE_DURATION_BV21);
		}
		if (close) {
			say(Code::INVALID_SUBTITLE_SPACING);
		}
		if (t->empty_text) {
			say(Code::EMPTY_TEXT);
		}
		if (p.smpte && !t->slots.empty() && t->fonts.empty()) {
			say(Code::MISSING_LOAD_FONT);
		}
		if (!t->slots.empty() && t->asks && std::find(t->fonts.begin(), t->fonts.end(), *t->asks) == t->fonts.end()) {
			say(Code::MISSING_LOAD_FONT_FOR_FONT);
		}
	}
}

struct Extent
{
	int lines = 0;
	int length = 0;
};

/** The most lines, and the longest line, seen at once */
Extent
extent(Track const& t)
{
	Extent e;
	std::set<int> times;
	for (auto const& s: t.slots) {
		times.insert(s.in);
	}
	for (auto time: times) {
		std::map<int, int> lines;
		for (auto const& s: t.slots) {
			if (s.in <= time && time < s.out) {
				for (auto const& l: s.lines) {
					lines[l.screen()] += characters(l.text);
				}
			}
		}
		e.lines = std::max<int>(e.lines, lines.size());
		for (auto const& l: lines) {
			e.length = std::max(e.length, l.second);
		}
	}
	return e;
}

Wants
expect(Package& p, dcp::VerificationOptions const& options)
{
	Wants w;
	auto const cpl = p.cpl_file;

	/* Reading */
	for (auto f: p.files()) {
		if (f->external) {
			w.add(Code::EXTERNAL_ASSET).asset = f->id;
		} else if (f->empty_path) {
			w.add(Code::EMPTY_ASSET_PATH);
		} else if (f->gone) {
			w.in_file(Code::MISSING_ASSET, f->name);
		}
	}
	for (auto f: p.files()) {
		if (auto t = dynamic_cast<Track const*>(f)) {
			if (t->font_file_gone) {
				for (auto const& i: t->font_files) {
					w.in_file(Code::MISSING_ASSET, i);
				}
			}
		}
		if (!f->listed_id.empty()) {
			w.add(Code::MISMATCHED_ASSET_MAP_ID).asset = f->listed_id;
		}
	}
	if (!p.smpte) {
		w.add(Code::INVALID_STANDARD);
	}
	bool const metadata = p.smpte && !p.no_metadata;

	/* Playlist */
	int encryptable = 0, encrypted = 0;
	bool packed_encrypted = false;
	for (auto f: p.files()) {
		++encryptable;
		encrypted += f->crypt.on;
		packed_encrypted = packed_encrypted || (f->crypt.on && !f->gone);
	}
	w.add(encrypted == 0 ? Code::NONE_ENCRYPTED : (encrypted == encryptable ? Code::ALL_ENCRYPTED : Code::PARTIALLY_ENCRYPTED));
	for (auto const& l: p.additional_languages) {
		if (l == "bad" && metadata) {
			w.add(Code::INVALID_LANGUAGE).detail = "no_language";
			w.in_file(Code::INVALID_XML, cpl);
		}
	}
	static std::set<string> const kinds = { "advertisement", "feature", "policy", "psa", "rating", "short", "teaser", "test", "trailer", "transitional" };
	static std::set<string> const scoped_kinds = { "clip", "promo", "stereocard", "episode", "highlights", "event" };
	if (!scoped_kinds.count(p.kind)) {
		w.add(kinds.count(p.kind) ? Code::VALID_CONTENT_KIND : Code::INVALID_CONTENT_KIND).detail = p.kind;
	}
	if (p.territory && metadata && !p.territory_scope) {
		w.add(p.territory->find("x") == string::npos ? Code::VALID_RELEASE_TERRITORY : Code::INVALID_LANGUAGE).detail = *p.territory;
	}
	if (p.no_content_version) {
		if (p.smpte) {
			w.in_file(Code::MISSING_CPL_CONTENT_VERSION, cpl);
			/* It is also required by the schema */
			w.in_file(Code::INVALID_XML, cpl);
		}
	} else if (p.version_label.empty()) {
		w.in_file(Code::EMPTY_CONTENT_VERSION_LABEL_TEXT, cpl);
	} else {
		w.add(Code::VALID_CONTENT_VERSION_LABEL_TEXT).detail = p.version_label;
	}
	if (p.smpte) {
		if (!p.annotation) {
			w.in_file(Code::MISSING_CPL_ANNOTATION_TEXT, cpl);
		} else {
			w.add(*p.annotation == p.title ? Code::VALID_CPL_ANNOTATION_TEXT : Code::MISMATCHED_CPL_ANNOTATION_TEXT);
		}
	}
	if (p.stale_cpl_hash) {
		w.in_file(Code::MISMATCHED_CPL_HASHES, cpl);
	} else {
		w.add(Code::MATCHING_CPL_HASHES);
	}
	if (p.pkl_annotation == p.title || p.extra_cpls) {
		w.add(Code::MATCHING_PKL_ANNOTATION_TEXT_WITH_CPL);
	} else {
		w.in_file(Code::MISMATCHED_PKL_ANNOTATION_TEXT_WITH_CPL, p.pkl_file);
	}
	if (p.bad_cpl_xml) {
		w.in_file(Code::INVALID_XML, cpl);
	}
	if (p.active && metadata) {
		if (p.active->width % 2 || p.active->height % 2) {
			w.in_file(Code::INVALID_MAIN_PICTURE_ACTIVE_AREA, cpl);
		} else {
			w.in_file(Code::VALID_MAIN_PICTURE_ACTIVE_AREA, cpl);
		}
	}

	/* Reels */
	int64_t start = 0;
	optional<int> channels;
	optional<string> subtitle_language;
	size_t fewest = SIZE_MAX, most = 0;
	bool subtitles = false, no_subtitles = false;
	Extent subtitle_extent, caption_extent;
	bool align_mixed = false, order_wrong = false;
	std::map<dcp::Marker, int> markers;
	for (int i = 0; i < int(p.reels.size()); ++i) {
		auto& r = p.reels[i];

		struct Timed { File const* file; optional<int> duration; int entry; int intrinsic; bool hash; };
		vector<Timed> timed = { { &r.picture, r.picture.duration, r.picture.entry, r.picture.frames, true } };
		if (r.sound) {
			timed.push_back({ r.sound.get_ptr(), r.sound->duration, 0, r.sound->frames, true });
		}
		auto add_timed = [&](Track const& t) {
			timed.push_back({ &t, t.duration, t.entry.get_value_or(0), t.frames, p.smpte });
		};
		if (r.subtitle) {
			add_timed(*r.subtitle);
		}
		for (auto const& c: r.captions) {
			add_timed(c);
		}
		std::set<int> lengths;
		for (auto const& t: timed) {
			if (t.duration.get_value_or(t.intrinsic - t.entry) < p.rate) {
				w.in_reel(Code::INVALID_DURATION, i, t.file->id);
			}
			if (t.intrinsic < p.rate) {
				w.in_reel(Code::INVALID_INTRINSIC_DURATION, i, t.file->id);
			}
			if (t.hash && t.file->no_cpl_hash) {
				w.in_reel(Code::MISSING_HASH, i, t.file->id);
			}
			lengths.insert(t.duration.get_value_or(t.intrinsic - t.entry));
		}
		if (p.smpte && lengths.size() > 1) {
			w.in_reel(Code::MISMATCHED_ASSET_DURATION, i);
		}

		static std::set<int> const rates = { 24, 25, 30, 48, 50, 60, 96 };
		/* Stereo pictures are shown at twice the rate at which the reel is edited */
		if (!rates.count(p.rate * (r.picture.stereo ? 2 : 1))) {
			w.in_reel(Code::INVALID_PICTURE_FRAME_RATE, i);
		}
		auto hashes = [&](File const& f, Code bad, Code differ) {
			if (!options.check_asset_hashes || (options.maximum_asset_size_for_hash_check && bfs::file_size(p.dir + "/" + f.name) >= *options.maximum_asset_size_for_hash_check)) {
				return false;
			}
			if (!f.listed_id.empty()) {
				/* The packing list has no hash for the ID that the file really has */
				if (f.no_cpl_hash || !f.bad_cpl_hash) {
					return true;
				}
				w.in_reel(bad, i, "", f.name);
				return false;
			}
			bool const differs = !f.no_cpl_hash && f.bad_cpl_hash != f.bad_pkl_hash;
			if (differs) {
				w.in_reel(differ, i, "", f.name);
			} else if (f.bad_pkl_hash) {
				w.in_reel(bad, i, "", f.name);
			}
			return !differs && !f.bad_pkl_hash;
		};
		if (!r.picture.gone) {
			auto const& shape = shapes[r.picture.shape];
			if (hashes(r.picture, Code::INCORRECT_PICTURE_HASH, Code::MISMATCHED_PICTURE_HASHES)) {
				w.in_reel(Code::CORRECT_PICTURE_HASH, i, "", r.picture.name);
			}
			if (options.check_picture_details) {
				bool sizes_good = true;
				bool const fourk = shape.fourk;
				for (auto const& f: r.picture.flaws) {
					auto say = [&](Code two, Code four) -> Want& { return w.in_reel(fourk ? four : two, i); };
					auto both = [&](Code c) -> Want& { return w.in_reel(c, i); };
					if (f.second == Flaw::NEARLY_BIG || f.second == Flaw::BIG) {
						auto& n = w.in_reel(f.second == Flaw::BIG ? Code::INVALID_PICTURE_FRAME_SIZE_IN_BYTES : Code::NEARLY_INVALID_PICTURE_FRAME_SIZE_IN_BYTES, i, "", r.picture.name);
						n.frame = start + f.first;
						sizes_good = false;
						continue;
					}
					if (r.picture.crypt.on && !p.with_kdm) {
						continue;
					}
					switch (f.second) {
					case Flaw::RSIZ: say(Code::INVALID_JPEG2000_RSIZ_FOR_2K, Code::INVALID_JPEG2000_RSIZ_FOR_4K); break;
					case Flaw::TILE_SIZE: both(Code::INVALID_JPEG2000_TILE_SIZE); break;
					case Flaw::BLOCK_WIDTH: both(Code::INVALID_JPEG2000_CODE_BLOCK_WIDTH); break;
					case Flaw::BLOCK_HEIGHT: both(Code::INVALID_JPEG2000_CODE_BLOCK_HEIGHT); break;
					case Flaw::GUARD_BITS: say(Code::INVALID_JPEG2000_GUARD_BITS_FOR_2K, Code::INVALID_JPEG2000_GUARD_BITS_FOR_4K); break;
					case Flaw::TILE_PARTS: say(Code::INVALID_JPEG2000_TILE_PARTS_FOR_2K, Code::INVALID_JPEG2000_TILE_PARTS_FOR_4K); break;
					case Flaw::NO_TLM: both(Code::MISSING_JPEG2000_TLM_MARKER); break;
					case Flaw::POC_COUNT: say(Code::INCORRECT_JPEG2000_POC_MARKER_COUNT_FOR_2K, Code::INCORRECT_JPEG2000_POC_MARKER_COUNT_FOR_4K); break;
					case Flaw::POC_CONTENT: both(Code::INCORRECT_JPEG2000_POC_MARKER); break;
					case Flaw::POC_PLACE: both(Code::INVALID_JPEG2000_POC_MARKER_LOCATION); break;
					case Flaw::GOOD_COC: break;
					case Flaw::TILE_PART_SIZE: both(Code::INVALID_JPEG2000_TILE_PART_SIZE).frame = start + f.first; break;
					default: both(Code::INVALID_JPEG2000_CODESTREAM).frame = start + f.first; break;
					}
				}
				if (sizes_good) {
					w.in_reel(Code::VALID_PICTURE_FRAME_SIZES_IN_BYTES, i, "", r.picture.name);
				}
			}
			if (!shape.allowed) {
				w.in_reel(Code::INVALID_PICTURE_SIZE_IN_PIXELS, i, "", r.picture.name);
			} else if (!shape.fourk && p.rate != 24 && p.rate != 25 && p.rate != 48) {
				w.in_reel(Code::INVALID_PICTURE_FRAME_RATE_FOR_2K, i, "", r.picture.name);
			} else if (shape.fourk) {
				if (p.rate != 24) {
					w.in_reel(Code::INVALID_PICTURE_FRAME_RATE_FOR_4K, i, "", r.picture.name);
				}
				if (r.picture.stereo) {
					w.in_file(Code::INVALID_PICTURE_ASSET_RESOLUTION_FOR_3D, r.picture.name);
				}
			}
			if (p.active && metadata && (p.active->width > shape.size.width || p.active->height > shape.size.height)) {
				w.in_reel(Code::INVALID_MAIN_PICTURE_ACTIVE_AREA, i, "", cpl);
			}
		}

		if (r.sound && !r.sound->gone) {
			hashes(*r.sound, Code::INCORRECT_SOUND_HASH, Code::MISMATCHED_SOUND_HASHES);
			if (!channels) {
				channels = r.sound->channels;
			} else if (*channels != r.sound->channels) {
				w.in_reel(Code::MISMATCHED_SOUND_CHANNEL_COUNTS, i, "", r.sound->name);
			}
			if (r.sound->hz != 48000) {
				w.in_reel(Code::INVALID_SOUND_FRAME_RATE, i, "", r.sound->name);
			}
		}

		auto text = [&](Track const& t, bool caption) {
			if (t.reel_language == "bad") {
				w.in_reel(Code::INVALID_LANGUAGE, i).detail = "d_e";
				w.in_file(Code::INVALID_XML, cpl);
			}
			if (!t.entry) {
				w.add(caption ? Code::MISSING_CLOSED_CAPTION_ENTRY_POINT : Code::MISSING_SUBTITLE_ENTRY_POINT).asset = t.id;
			} else if (*t.entry) {
				w.add(caption ? Code::INCORRECT_CLOSED_CAPTION_ENTRY_POINT : Code::INCORRECT_SUBTITLE_ENTRY_POINT).asset = t.id;
			}
			if (t.gone) {
				return;
			}
			bool const readable = !t.crypt.on || p.with_kdm;
			if (!readable) {
				w.in_reel(Code::MISSED_CHECK_OF_ENCRYPTED, i);
			}
			int size = 0;
			for (auto const& s: t.slots) {
				for (auto const& l: s.lines) {
					size += l.text.size();
				}
			}
			if (caption && readable && size > 256 * 1024) {
				w.in_reel(Code::INVALID_CLOSED_CAPTION_XML_SIZE_IN_BYTES, i, "", t.name);
			}
			if (p.smpte) {
				if (readable && !t.language) {
					w.in_reel(Code::MISSING_SUBTITLE_LANGUAGE, i, "", t.name);
				}
				if (readable && !t.start) {
					w.in_reel(Code::MISSING_SUBTITLE_START_TIME, i, "", t.name);
				} else if (readable && *t.start) {
					w.in_reel(Code::INVALID_SUBTITLE_START_TIME, i, "", t.name);
				}
				if (t.duration && *t.duration != t.frames) {
					w.in_reel(Code::MISMATCHED_TIMED_TEXT_DURATION, i, "", t.name);
				}
				if (t.fonts.size() * t.font_size > 10 * 1024 * 1024) {
					w.in_file(Code::INVALID_TIMED_TEXT_FONT_SIZE_IN_BYTES, t.name).optional_note = !readable;
				}
				if (!caption && readable && t.language) {
					if (!subtitle_language) {
						subtitle_language = t.language;
					} else if (*subtitle_language != *t.language) {
						w.in_reel(Code::MISMATCHED_SUBTITLE_LANGUAGES, i);
					}
				}
				if (readable) {
					auto& e = caption ? caption_extent : subtitle_extent;
					auto const x = extent(t);
					e.lines = std::max(e.lines, x.lines);
					e.length = std::max(e.length, x.length);
				}
			} else {
				if (t.slots.empty()) {
					w.in_reel(Code::MISSING_SUBTITLE, i, t.id, t.name);
				}
				if (t.font_file_gone && !t.font_files.empty()) {
					w.in_reel(Code::MISSING_FONT, i);
				}
			}
			if (!caption && t.namespaces && readable) {
				w.in_reel(Code::INCORRECT_SUBTITLE_NAMESPACE_COUNT, i, t.id);
			}
			if (!caption && t.bad_issue_date && readable) {
				w.in_reel(Code::INVALID_SUBTITLE_ISSUE_DATE, i).detail = "2020-01-02T03:04:05";
			}
			if (!caption && t.other_xml_id && readable) {
				w.in_reel(Code::MISMATCHED_TIMED_TEXT_RESOURCE_ID, i);
				if (t.other_xml_id == 2) {
					w.in_reel(Code::INCORRECT_TIMED_TEXT_ASSET_ID, i);
				}
			}
			if (p.smpte && readable && t.slots.empty()) {
				/* The schema wants at least one */
				w.in_reel(Code::INVALID_XML, i);
			}
			if (caption && readable) {
				for (auto const& s: t.slots) {
					for (size_t k = 1; k < s.lines.size(); ++k) {
						auto const& a = s.lines[k - 1];
						auto const& b = s.lines[k];
						align_mixed = align_mixed || a.v_align != b.v_align;
						order_wrong = order_wrong || (a.v_align == b.v_align && a.screen() > b.screen());
					}
				}
			}
		};
		if (r.subtitle) {
			text(*r.subtitle, false);
			subtitles = true;
		} else {
			no_subtitles = true;
		}
		for (auto const& c: r.captions) {
			text(c, true);
		}
		fewest = std::min(fewest, r.captions.size());
		most = std::max(most, r.captions.size());
		if (r.markers) {
			for (auto const& m: *r.markers) {
				markers.insert(m);
			}
			if (r.markers_entry) {
				w.in_reel(Code::UNEXPECTED_ENTRY_POINT, i);
			}
			if (r.markers_duration) {
				w.in_reel(Code::UNEXPECTED_DURATION, i);
			}
		}
		start += r.duration();
	}

	/* Texts */
	vector<Track const*> tracks;
	for (auto const& r: p.reels) {
		tracks.push_back(r.subtitle.get_ptr());
	}
	want_text_details(p, tracks, w);
	for (size_t c = 0; c < p.reels[0].captions.size(); ++c) {
		tracks.clear();
		for (auto const& r: p.reels) {
			tracks.push_back(c < r.captions.size() ? &r.captions[c] : nullptr);
		}
		want_text_details(p, tracks, w);
	}
	if (align_mixed) {
		w.add(Code::MISMATCHED_CLOSED_CAPTION_VALIGN);
	}
	if (order_wrong) {
		w.add(Code::INCORRECT_CLOSED_CAPTION_ORDERING).optional_note = align_mixed;
	}

	if (p.smpte) {
		if (metadata && channels && p.msc_channels != *channels) {
			w.in_file(Code::INVALID_MAIN_SOUND_CONFIGURATION, cpl);
		}
		if (subtitles && no_subtitles) {
			w.add(Code::MISSING_MAIN_SUBTITLE_FROM_SOME_REELS);
		}
		if (fewest != most) {
			w.add(Code::MISMATCHED_CLOSED_CAPTION_ASSET_COUNTS);
		}
		if (p.kind == "feature") {
			if (!markers.count(dcp::Marker::FFEC)) {
				w.add(Code::MISSING_FFEC_IN_FEATURE);
			}
			if (!markers.count(dcp::Marker::FFMC)) {
				w.add(Code::MISSING_FFMC_IN_FEATURE);
			}
		}
		if (!markers.count(dcp::Marker::FFOC)) {
			w.add(Code::MISSING_FFOC);
		} else if (markers[dcp::Marker::FFOC] != 1) {
			w.add(Code::INCORRECT_FFOC);
		}
		if (!markers.count(dcp::Marker::LFOC)) {
			w.add(Code::MISSING_LFOC);
		} else if (markers[dcp::Marker::LFOC] != p.reels.back().duration() - 1) {
			w.add(Code::INCORRECT_LFOC);
		}
		if (subtitle_extent.lines > 3) {
			w.add(Code::INVALID_SUBTITLE_LINE_COUNT);
		}
		if (subtitle_extent.length > 79) {
			w.add(Code::INVALID_SUBTITLE_LINE_LENGTH);
		} else if (subtitle_extent.length > 52) {
			w.add(Code::NEARLY_INVALID_SUBTITLE_LINE_LENGTH);
		}
		if (caption_extent.lines > 3) {
			w.add(Code::INVALID_CLOSED_CAPTION_LINE_COUNT);
		}
		if (caption_extent.length > 32) {
			w.add(Code::INVALID_CLOSED_CAPTION_LINE_LENGTH);
		}
		if (!metadata) {
			w.in_file(Code::MISSING_CPL_METADATA, cpl);
		} else {
			if (!p.version_number) {
				w.in_file(Code::MISSING_CPL_METADATA_VERSION_NUMBER, cpl);
			}
			if (p.no_extension || p.other_extension) {
				w.in_file(Code::MISSING_EXTENSION_METADATA, cpl);
			} else if (p.bad_extension_name || p.bad_extension_profile) {
				w.in_file(Code::INVALID_EXTENSION_METADATA, cpl);
			}
		}
		if (encrypted && !p.sign) {
			w.in_file(Code::UNSIGNED_CPL_WITH_ENCRYPTED_CONTENT, cpl);
		}
	}

	/* Packing list and asset map */
	if (packed_encrypted && !p.sign) {
		w.in_file(Code::UNSIGNED_PKL_WITH_ENCRYPTED_CONTENT, p.pkl_file);
	}
	if (p.twice_in_pkl) {
		w.in_file(Code::DUPLICATE_ASSET_ID_IN_PKL, p.pkl_file);
	}
	if (p.twice_in_map) {
		w.in_file(Code::DUPLICATE_ASSET_ID_IN_ASSETMAP, p.map_file);
	}
	if (p.bad_pkl_xml) {
		w.in_file(Code::INVALID_XML, p.pkl_file);
	}
	if (p.bad_map_xml) {
		w.in_file(Code::INVALID_XML, p.map_file);
	}
	if (p.pkl_namespace) {
		w.in_file(Code::INVALID_PKL_NAMESPACE, p.pkl_file);
		w.in_file(Code::INVALID_XML, p.pkl_file);
	}
	if (p.cpl_namespace) {
		w.in_file(Code::INVALID_CPL_NAMESPACE, cpl);
		w.in_file(Code::INVALID_XML, cpl);
	}
	return w;
}

/* --- Things which can be wrong -------------------------------------- */

struct Defect
{
	string name;
	std::function<bool (Package&)> apply;   ///< false if it cannot be done to this package
};

Reel& any_reel(Package& p) { return p.reels[rng.below(p.reels.size())]; }

Track*
any_track(Package& p, int kind = 2)
{
	vector<Track*> t;
	for (auto& r: p.reels) {
		if (r.subtitle && kind != 1) {
			t.push_back(r.subtitle.get_ptr());
		}
		if (kind != 0) {
			for (auto& c: r.captions) {
				t.push_back(&c);
			}
		}
	}
	return t.empty() ? nullptr : rng.pick(t);
}

Slot*
any_slot(Package& p, int kind = 2)
{
	auto t = any_track(p, kind);
	return t && !t->slots.empty() ? &t->slots[rng.below(t->slots.size())] : nullptr;
}

int step(Package const& p) { return p.smpte || p.rate == 25 ? 1 : p.rate / 2; }

vector<Defect> const defects = {
	{ "frame rate", [](Package& p) {
		/* Change everything to another number of frames per second, keeping numbers of frames */
		for (auto const& r: p.reels) {
			if (r.subtitle || !r.captions.empty()) {
				return false;
			}
		}
		p.rate = rng.pick({ 26, 30, 50, 60, 96, 20 });
		if (p.rate == 26) {
			/* not a whole number of samples */
			for (auto& r: p.reels) {
				r.sound = boost::none;
			}
		}
		return true;
	} },
	{ "picture size", [](Package& p) { auto& r = any_reel(p); r.picture.shape = 4 + rng.below(2); return true; } },
	{ "4K faults", [](Package& p) { auto& r = any_reel(p); r.picture.shape = 2; r.picture.stereo = rng.coin(); return true; } },
	{ "frame", [](Package& p) {
		auto& r = any_reel(p);
		if (r.picture.frames < 2) {
			return false;
		}
		for (int i = 0, n = rng.range(1, 2); i < n; ++i) {
			auto const f = static_cast<Flaw>(rng.below(int(Flaw::COUNT)));
			if (f == Flaw::POC_CONTENT && !shapes[r.picture.shape].fourk) {
				continue;
			}
			r.picture.flaws[rng.range(1, r.picture.frames - 1)] = f;
		}
		return !r.picture.flaws.empty();
	} },
	{ "frames", [](Package& p) {
		auto& r = any_reel(p);
		if (r.picture.frames < 2) {
			return false;
		}
		r.picture.flaws[rng.range(1, r.picture.frames - 1)] = rng.coin() ? Flaw::BIG : Flaw::NEARLY_BIG;
		return true;
	} },
	{ "short reel", [](Package& p) {
		auto& r = p.reels.back();
		if (r.subtitle || !r.captions.empty()) {
			return false;
		}
		r.picture.frames = rng.pick({ p.rate - 1, 2, 12 });
		r.picture.duration = r.picture.frames;
		if (r.sound) {
			r.sound->frames = r.picture.frames;
			r.sound->duration = r.sound->frames;
		}
		r.picture.flaws.clear();
		return true;
	} },
	{ "sound duration", [](Package& p) {
		auto& r = any_reel(p);
		if (!r.sound) {
			return false;
		}
		r.sound->duration = rng.range(p.rate / 2, r.sound->frames - 1);
		return true;
	} },
	{ "no durations", [](Package& p) {
		for (auto& r: p.reels) {
			r.picture.duration = boost::none;
			if (r.sound) {
				r.sound->duration = boost::none;
			}
		}
		return true;
	} },
	{ "text duration", [](Package& p) {
		auto t = any_track(p);
		if (!t) {
			return false;
		}
		t->duration = t->frames - rng.range(1, 3);
		return true;
	} },
	{ "no hash", [](Package& p) {
		auto f = rng.pick(p.files());
		f->no_cpl_hash = true;
		f->bad_cpl_hash = false;
		return true;
	} },
	{ "hashes", [](Package& p) {
		auto f = rng.pick(p.files());
		f->bad_pkl_hash = rng.coin();
		f->bad_cpl_hash = !f->no_cpl_hash && (!f->bad_pkl_hash || rng.coin());
		return true;
	} },
	{ "missing file", [](Package& p) { auto f = rng.pick(p.files()); if (p.twice_in_pkl || p.twice_in_map || !f->listed_id.empty()) { return false; } f->gone = true; return true; } },
	{ "external file", [](Package& p) { auto f = rng.pick(p.files()); if (f->gone || p.twice_in_pkl || p.twice_in_map || !f->listed_id.empty()) { return false; } f->gone = f->external = true; return true; } },
	{ "empty path", [](Package& p) { auto f = rng.pick(p.files()); if (f->gone || p.twice_in_pkl || p.twice_in_map || !f->listed_id.empty()) { return false; } f->gone = f->empty_path = true; return true; } },
	{ "reel language", [](Package& p) { auto t = any_track(p); if (!t || !p.smpte) { return false; } t->reel_language = "bad"; return true; } },
	{ "entry point", [](Package& p) {
		auto t = any_track(p);
		if (!t) {
			return false;
		}
		if (rng.coin()) {
			t->entry = boost::none;
		} else {
			t->entry = rng.range(1, 4);
			t->duration = t->frames - *t->entry;
		}
		return true;
	} },
	{ "text language", [](Package& p) { auto t = any_track(p); if (!t) { return false; } t->language = boost::none; return p.smpte; } },
	{ "text languages", [](Package& p) { auto t = any_track(p, 0); if (!t) { return false; } t->language = string("fr-FR"); return p.smpte; } },
	{ "start time", [](Package& p) { auto t = any_track(p); if (!t) { return false; } if (rng.coin()) { t->start = boost::none; } else { t->start = rng.range(1, 100); } return p.smpte; } },
	{ "early text", [](Package& p) {
		auto& r = p.reels[0];
		Track* t = r.subtitle ? r.subtitle.get_ptr() : (r.captions.empty() ? nullptr : &r.captions[0]);
		if (!t || t->slots.empty()) {
			return false;
		}
		t->slots[0].in = rng.pick({ 4 * p.rate - step(p), step(p), 0 });
		return true;
	} },
	{ "text with no length", [](Package& p) { auto s = any_slot(p); if (!s) { return false; } s->out = s->in - (rng.coin() && s->in > step(p) ? step(p) : 0); return true; } },
	{ "brief text", [](Package& p) { auto s = any_slot(p); if (!s) { return false; } s->out = s->in + (step(p) == 1 ? rng.pick({ 14, 1, 10 }) : step(p)); return true; } },
	{ "close texts", [](Package& p) {
		auto t = any_track(p);
		if (!t || t->slots.empty()) {
			return false;
		}
		auto const n = t->slots.back();
		if (n.out <= n.in) {
			return false;
		}
		Slot s = n;
		s.in = n.out + (step(p) == 1 ? rng.pick({ 0, 1, 2 }) : 0);
		s.out = s.in + 15 + step(p) - 1 - (14 + step(p)) % step(p);
		if (s.out > t->frames) {
			return false;
		}
		t->slots.push_back(s);
		return true;
	} },
	{ "close texts in different reels", [](Package& p) {
		if (p.reels.size() < 2 || !p.smpte || !p.reels[0].subtitle || !p.reels[1].subtitle || p.reels[0].subtitle->slots.empty() || p.reels[1].subtitle->slots.empty()) {
			return false;
		}
		p.reels[0].subtitle->slots.back().out = p.reels[0].subtitle->frames;
		p.reels[1].subtitle->slots.front().in = rng.pick({ 0, 1, 2 });
		return true;
	} },
	{ "text past the end", [](Package& p) {
		auto t = any_track(p);
		if (!t || t->slots.empty()) {
			return false;
		}
		t->slots.back().out = (t->frames / step(p) + 1) * step(p) + step(p) * rng.below(10);
		return true;
	} },
	{ "many lines", [](Package& p) {
		auto s = any_slot(p);
		if (!s) {
			return false;
		}
		s->lines.clear();
		s->swapped = false;
		for (int i = 0; i < 4; ++i) {
			Line l;
			l.v_align = 0;
			l.v_position = 10 + i * 10;
			l.text = words(10);
			s->lines.push_back(l);
		}
		return true;
	} },
	{ "many lines at once", [](Package& p) {
		/* Two times with two lines each which overlap */
		auto t = any_track(p);
		if (!t || t->slots.size() < 2) {
			return false;
		}
		for (int i = 0; i < 2; ++i) {
			t->slots[i].lines.clear();
			t->slots[i].swapped = false;
			for (int j = 0; j < 2; ++j) {
				Line l;
				l.v_align = 0;
				l.v_position = 10 + i * 40 + j * 10;
				l.text = words(10);
				t->slots[i].lines.push_back(l);
			}
		}
		t->slots[0].out = t->slots[1].in + step(p);
		return true;
	} },
	{ "long line", [](Package& p) {
		auto s = any_slot(p);
		if (!s) {
			return false;
		}
		s->lines.resize(1);
		s->swapped = false;
		s->lines[0].text = words(rng.pick({ 33, 53, 79, 80, 200 }));
		return true;
	} },
	{ "large captions", [](Package& p) {
		auto s = any_slot(p, 1);
		if (!s) {
			return false;
		}
		s->lines.resize(1);
		s->swapped = false;
		s->lines[0].text = string(257 * 1024, 'x');
		return true;
	} },
	{ "large fonts", [](Package& p) {
		auto t = any_track(p);
		if (!t || !p.smpte) {
			return false;
		}
		t->font_size = 10 * 1024 * 1024 + 1;
		return true;
	} },
	{ "empty text", [](Package& p) { auto t = any_track(p, 0); if (!t || t->slots.empty()) { return false; } t->empty_text = true; return true; } },
	{ "no fonts", [](Package& p) { auto t = any_track(p); if (!t) { return false; } t->fonts.clear(); if (rng.coin()) { t->asks = boost::none; } return true; } },
	{ "wrong font", [](Package& p) { auto t = any_track(p); if (!t) { return false; } t->asks = string("font2"); return true; } },
	{ "no font asked for", [](Package& p) { auto t = any_track(p); if (!t) { return false; } t->asks = boost::none; return true; } },
	{ "missing font file", [](Package& p) { auto t = any_track(p); if (!t || p.smpte) { return false; } t->font_file_gone = true; return true; } },
	{ "namespaces", [](Package& p) { auto t = any_track(p, 0); if (!t) { return false; } t->namespaces = true; return true; } },
	{ "no texts", [](Package& p) { auto t = any_track(p); if (!t) { return false; } t->slots.clear(); t->empty_text = false; return true; } },
	{ "alignments", [](Package& p) {
		auto s = any_slot(p, 1);
		if (!s) {
			return false;
		}
		s->lines.resize(1);
		s->swapped = false;
		s->lines[0].italic = false;
		s->lines[0].v_align = 0;
		s->lines[0].v_position = 10;
		s->lines.push_back(s->lines[0]);
		s->lines[1].v_align = 2;
		return true;
	} },
	{ "order", [](Package& p) {
		auto s = any_slot(p, 1);
		if (!s) {
			return false;
		}
		s->lines.resize(1);
		s->lines[0].italic = false;
		s->lines[0].text = words(20);
		s->lines[0].v_align = rng.below(3);
		s->lines.push_back(s->lines[0]);
		s->lines[0].v_position = s->lines[0].v_align == 2 ? 10 : 30;
		s->lines[1].v_position = s->lines[0].v_align == 2 ? 30 : 10;
		s->swapped = true;
		return true;
	} },
	{ "issue date", [](Package& p) { auto t = any_track(p, 0); if (!t || !p.smpte) { return false; } t->bad_issue_date = true; return true; } },
	{ "XML ID", [](Package& p) { auto t = any_track(p, 0); if (!t || !p.smpte) { return false; } t->other_xml_id = rng.range(1, 2); return true; } },
	{ "listed ID", [](Package& p) {
		auto f = rng.pick(p.files());
		if (f->gone || ((p.twice_in_pkl || p.twice_in_map) && f == &p.reels[0].picture) || (!p.smpte && dynamic_cast<Track*>(f))) {
			return false;
		}
		f->listed_id = gen::uuid();
		f->bad_pkl_hash = f->bad_cpl_hash = false;
		return true;
	} },
	{ "missing subtitle", [](Package& p) {
		auto& r = any_reel(p);
		if (!r.subtitle || (&r == &p.reels[0] && rng.coin())) {
			return false;
		}
		r.subtitle = boost::none;
		return true;
	} },
	{ "caption counts", [](Package& p) { auto& r = any_reel(p); if (r.captions.empty()) { return false; } r.captions.pop_back(); return true; } },
	{ "markers", [](Package& p) {
		auto& r = rng.coin() ? p.reels.front() : p.reels.back();
		if (!r.markers || r.markers->empty()) {
			return false;
		}
		auto i = r.markers->begin();
		std::advance(i, rng.below(r.markers->size()));
		if (rng.coin()) {
			r.markers->erase(i);
		} else {
			i->second = rng.range(0, 20);
		}
		return true;
	} },
	{ "no markers", [](Package& p) { for (auto& r: p.reels) { r.markers = boost::none; } return p.smpte; } },
	{ "marker entry", [](Package& p) { auto& r = any_reel(p); if (!r.markers) { return false; } r.markers_entry = rng.coin(); r.markers_duration = !r.markers_entry || rng.coin(); return true; } },
	{ "no metadata", [](Package& p) { p.no_metadata = true; p.no_extension = p.other_extension = p.bad_extension_name = p.bad_extension_profile = p.territory_scope = false; p.additional_languages.clear(); return p.smpte; } },
	{ "no version number", [](Package& p) { p.version_number = boost::none; return p.smpte; } },
	{ "extension", [](Package& p) {
		if (!p.smpte || p.no_metadata) {
			return false;
		}
		switch (rng.below(4)) {
		case 0: p.no_extension = true; p.other_extension = p.bad_extension_name = p.bad_extension_profile = false; break;
		case 1: p.other_extension = !p.no_extension; break;
		case 2: p.bad_extension_name = !p.no_extension; break;
		case 3: p.bad_extension_profile = !p.no_extension; break;
		}
		return true;
	} },
	{ "annotation", [](Package& p) { p.annotation = rng.coin() ? optional<string>() : string("Other"); return true; } },
	{ "PKL annotation", [](Package& p) { p.pkl_annotation = string("Other"); return true; } },
	{ "unsigned", [](Package& p) { p.sign = false; for (auto f: p.files()) { if (f->crypt.on) { return true; } } return false; } },
	{ "partly encrypted", [](Package& p) { auto f = rng.pick(p.files()); if (!f->crypt.on) { return false; } f->crypt.on = false; return true; } },
	{ "kind", [](Package& p) { p.kind = rng.pick({ "nonsense", "features", "" }); return true; } },
	{ "content version", [](Package& p) { p.version_label = ""; return true; } },
	{ "no content version", [](Package& p) { p.no_content_version = true; return true; } },
	{ "territory", [](Package& p) { p.territory = rng.pick({ string("x"), string("xyzzy"), string("12x") }); return p.smpte && !p.no_metadata; } },
	{ "territory scope", [](Package& p) { if (!p.territory || !p.smpte || p.no_metadata) { return false; } p.territory_scope = true; return true; } },
	{ "active area", [](Package& p) {
		if (!p.active) {
			return false;
		}
		if (rng.coin()) {
			p.active->width += rng.pick({ 1, 2, 3, 1000 });
		}
		if (rng.coin()) {
			p.active->height += rng.pick({ 1, 2, 3, 1000 });
		}
		return true;
	} },
	{ "sound rate", [](Package& p) { auto& r = any_reel(p); if (!r.sound) { return false; } r.sound->hz = 96000; return true; } },
	{ "channels", [](Package& p) { auto& r = any_reel(p); if (!r.sound) { return false; } r.sound->channels = rng.range(1, 8); return true; } },
	{ "sound configuration", [](Package& p) { if (!p.smpte || p.no_metadata) { return false; } p.msc_channels = rng.range(3, 8); return true; } },
	{ "additional languages", [](Package& p) { if (!p.smpte || p.no_metadata) { return false; } p.additional_languages = { "fr-CA", "bad" }; return true; } },
	{ "CPL XML", [](Package& p) { p.bad_cpl_xml = true; return true; } },
	{ "PKL XML", [](Package& p) { p.bad_pkl_xml = true; return true; } },
	{ "asset map XML", [](Package& p) { p.bad_map_xml = true; return true; } },
	{ "stale hash", [](Package& p) { p.stale_cpl_hash = true; return true; } },
	{ "twice in PKL", [](Package& p) { if (!p.reels[0].picture.listed_id.empty() || p.reels[0].picture.gone) { return false; } p.twice_in_pkl = true; return true; } },
	{ "twice in map", [](Package& p) { if (!p.reels[0].picture.listed_id.empty() || p.reels[0].picture.gone) { return false; } p.twice_in_map = true; return true; } },
};

std::map<string, std::pair<string, time_t>>
snapshot(string const& dir)
{
	std::map<string, std::pair<string, time_t>> s;
	for (auto i = bfs::recursive_directory_iterator(dir); i != bfs::recursive_directory_iterator(); ++i) {
		auto const name = i->path().string().substr(dir.size());
		s[name] = { bfs::is_regular_file(i->path()) ? std::to_string(hash(read_file(i->path().string()))) : "directory", bfs::last_write_time(i->path()) };
	}
	return s;
}

dcp::DecryptedKDM
kdm(Package& p)
{
	dcp::DecryptedKDM k(dcp::LocalTime("2020-01-01T00:00:00+00:00"), dcp::LocalTime("2030-01-01T00:00:00+00:00"), string("a"), string("b"), "2020-01-01T00:00:00+00:00");
	for (auto f: p.files()) {
		if (f->crypt.on) {
			k.add_key(string("MDIK"), f->crypt.key_id, dcp::Key(f->crypt.key), p.cpl_id, dcp::Standard::SMPTE);
			for (auto const& e: p.extra) {
				k.add_key(string("MDIK"), f->crypt.key_id, dcp::Key(f->crypt.key), e.id, dcp::Standard::SMPTE);
			}
		}
	}
	return k;
}

struct Watch
{
	int stages = 0;
	bool progress_bad = false;
	std::set<string> files;
	vector<VN> notes;
};

Watch
run(vector<string> const& dirs, vector<dcp::DecryptedKDM> const& kdms, dcp::VerificationOptions const& options)
{
	Watch w;
	vector<bfs::path> paths;
	for (auto const& d: dirs) {
		paths.push_back(d);
	}
	auto r = dcp::verify(
		paths, kdms,
		[&](string, optional<bfs::path> p) { ++w.stages; if (p) { w.files.insert(p->string()); } },
		[&](float f) { w.progress_bad = w.progress_bad || !(f >= 0 && f <= 1); },
		options, bfs::path(opt.repo) / "xsd"
		);
	w.notes = r.notes;
	return w;
}

string
show(VN const& n)
{
	string s = "#" + std::to_string(int(n.code())) + " " + dcp::note_to_string(n);
	if (n.reel_index()) {
		s += " reel " + std::to_string(*n.reel_index());
	}
	if (n.file()) {
		s += " file " + n.file()->filename().string();
	}
	if (n.frame()) {
		s += " frame " + std::to_string(*n.frame());
	}
	return s;
}

void
verify_check()
{
	rule("verify() said what the package, made to be right or wrong in known ways, deserves, and nothing else; twice the same; without changing the package");
	assumption("the container format underneath is a stand-in for the real one");
#ifdef __SANITIZE_ADDRESS__
	/* Much slower, and so a smaller number of other cases */
	rng.reseed(rng.next() + 1);
	auto const cases = budget(100, 700);
#else
	auto const cases = budget(560, 4000);
#endif
	gen::init();
	string other_dir;
	vector<VN> other_notes;
	for (size_t n = 0; n < cases; ++n) {
		auto p = good_package();
		string names;
		int const many = rng.pick({ 0, 1, 1, 1, 1, 2, 3 });
		int done = 0;
		for (int tries = 0; done < many && tries < 40; ++tries) {
			auto copy = p;
			auto const& d = rng.pick(defects);
			if (d.apply(copy)) {
				p = copy;
				names += (names.empty() ? "" : ", ") + d.name;
				++done;
				count("with " + d.name);
			}
		}
		if (done == 0 && p.territory != string("001") && rng.chance(0.3)) {
			p.extra_cpls = rng.range(1, 2);
			if (rng.coin()) {
				p.pkl_annotation = string("Other");
			}
			count("with several playlists");
		}
		if (done == 0) {
			names = "nothing wrong";
			count("with nothing wrong");
		}
		dcp::VerificationOptions options;
		if (rng.chance(0.15)) {
			options.check_asset_hashes = rng.coin();
			options.check_picture_details = rng.coin();
			if (rng.coin()) {
				options.maximum_asset_size_for_hash_check = rng.pick({ boost::uintmax_t(0), boost::uintmax_t(300000), boost::uintmax_t(1000000000) });
			}
		}
		begin_case("#" + std::to_string(n) + " " + (p.smpte ? "SMPTE " : "Interop ") + std::to_string(p.reels.size()) + " reels " + std::to_string(p.rate) + "fps" + (p.reels[0].subtitle ? " sub" : "") + (p.reels[0].captions.empty() ? "" : " cc") + (p.with_kdm ? " KDM" : "") + ": " + names);

		auto const dir = fresh_dir(n % 2 ? "a" : "b");
		build(p, dir);
		edit(p);
		auto const before = snapshot(dir);
		vector<dcp::DecryptedKDM> kdms;
		if (p.with_kdm) {
			kdms.push_back(kdm(p));
		}
		auto wants = expect(p, options);
		for (auto const& e: p.extra) {
			/* There is nothing wrong with these, so the difference is only in names, language and channels */
			auto extra = p;
			extra.cpl_file = e.file;
			extra.reels = e.reels;
			extra.msc_channels = e.msc_channels;
			auto more = expect(extra, options);
			wants.list.insert(wants.list.end(), more.list.begin(), more.list.end());
		}
		Watch watch;
		try {
			watch = run({ dir }, kdms, options);
		} catch (std::exception& e) {
			violation("verify-threw:" + type_name(e), e.what());
			continue;
		}
		for (auto const& note: watch.notes) {
			bool found = false;
			for (auto const& w: wants.list) {
				found = found || w.matches(note, dir);
			}
			EXPECT(found, "unexpected-note:" + std::to_string(int(note.code())), show(note) << " for a package with " << names);
		}
		for (auto const& w: wants.list) {
			bool found = w.optional_note;
			string near;
			for (auto const& note: watch.notes) {
				found = found || w.matches(note, dir);
				if (note.code() == w.code) {
					near += " (but " + show(note) + ")";
				}
			}
			EXPECT(found, "missing-note:" + std::to_string(int(w.code)), "no note #" << int(w.code) << " in reel " << w.reel << " file " << w.file << " frame " << w.frame << " " << w.detail << near << " for a package with " << names);
		}
		EXPECT(!watch.progress_bad, "progress-range", "progress outside 0 to 1");
		EXPECT(watch.stages > 0 && watch.files.count(dir + "/" + p.cpl_file) && watch.files.count(dir + "/" + p.pkl_file) && watch.files.count(dir + "/" + p.map_file), "stages", "not all of the documents were mentioned");
		EXPECT(snapshot(dir) == before, "package-changed", "verifying changed the package");
		for (auto const& note: watch.notes) {
			auto const type = note.type();
			EXPECT(!dcp::note_to_string(note).empty() && (type == Type::OK || type == Type::ERROR || type == Type::BV21_ERROR || type == Type::WARNING), "note-text", int(note.code()));
		}
		count("notes", watch.notes.size());

		/* Again, perhaps along with another */
		auto again = run({ dir }, kdms, options).notes;
		EXPECT(again == watch.notes, "not-repeatable", again.size() << " notes the second time rather than " << watch.notes.size());
		if (n % 4 == 3 && !other_dir.empty() && kdms.empty()) {
			dcp::VerificationOptions none;
			auto both = run({ other_dir, dir }, {}, options).notes;
			auto first = run({ other_dir }, {}, options).notes;
			first.insert(first.end(), again.begin(), again.end());
			EXPECT(both == first, "two-packages", both.size() << " notes for two packages together, " << first.size() << " separately");
			count("two packages");
		}
		if (n % 8 == 5) {
			/* Nothing can be said about a package with no asset map */
			bfs::remove(dir + "/" + p.map_file);
			auto none = run({ dir }, kdms, options).notes;
			EXPECT(none.size() == 1 && none[0].code() == Code::FAILED_READ && none[0].type() == Type::ERROR, "no-asset-map", none.size() << " notes");
		}
		other_dir = dir;
	}
}

KIT_CHECK("C38", verify_check);

}
