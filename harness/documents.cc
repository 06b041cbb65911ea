/* C25 asset maps and packing lists, C26 CPLs: round trips through files */
#include "gen.h"
#include "kit.h"
#include "asset_map.h"
#include "cpl.h"
#include "exceptions.h"
#include "main_sound_configuration.h"
#include "object.h"
#include "pkl.h"
#include "rating.h"
#include "reel.h"
#include "reel_atmos_asset.h"
#include "reel_interop_text_asset.h"
#include "reel_markers_asset.h"
#include "reel_mono_picture_asset.h"
#include "reel_smpte_text_asset.h"
#include "reel_sound_asset.h"
#include "reel_stereo_picture_asset.h"
#include <libcxml/cxml.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cmath>

using namespace kit;
using std::dynamic_pointer_cast;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;
using boost::optional;

namespace {

string
show(optional<string> const& s)
{
	return s ? "\"" + *s + "\"" : "none";
}

/* ---------- C25 ---------- */

struct MapAsset { string id; string path; bool pkl; };

void
asset_map_case(size_t n)
{
	auto const dir = fresh_dir("am");
	auto const standard = rng.coin() ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
	optional<string> const annotation = gen::maybe(gen::text(false));
	string const date = gen::date(), issuer = gen::text(false), creator = gen::text(false);
	begin_case("asset map " + std::to_string(n) + " " + printable(issuer) + " " + printable(creator) + " " + printable(show(annotation)));

	dcp::AssetMap map(standard, rng.coin() ? annotation : optional<string>(), rng.coin() ? date : string("x"), rng.coin() ? issuer : string("y"), rng.coin() ? creator : string("z"));
	if (annotation) {
		map.set_annotation_text(*annotation);
	} else if (map.annotation_text()) {
		harness_error("annotation");
	}
	map.set_issue_date(date);
	map.set_issuer(issuer);
	map.set_creator(creator);

	vector<MapAsset> assets;
	int const count_assets = rng.below(7);
	if (rng.chance(0.1)) {
		map.add_asset(gen::uuid(), dir + "/nowhere", false);
		map.clear_assets();
	}
	for (int i = 0; i < count_assets; ++i) {
		string below = dir;
		if (rng.chance(0.3)) {
			below += "/" + gen::file_name("d");
			mkdir(below.c_str(), 0777);
			if (rng.chance(0.3)) {
				below += "/deeper";
				mkdir(below.c_str(), 0777);
			}
		}
		auto const path = below + "/" + std::to_string(i) + gen::file_name(rng.coin() ? ".mxf" : ".xml");
		write_file(path, string(rng.below(200), 'x'));
		assets.push_back({gen::uuid(), path, rng.chance(0.3)});
		map.add_asset(assets.back().id, path, assets.back().pkl);
	}

	auto const file = dir + "/" + (rng.coin() ? "ASSETMAP.xml" : "ASSETMAP");
	map.write_xml(file);
	EXPECT(map.file() && *map.file() == file, "asset-map-file", "file() after writing");

	dcp::AssetMap const back((boost::filesystem::path(file)));
	EXPECT(back.standard() == standard, "asset-map-standard", "standard changed");
	EXPECT(back.id() == map.id(), "asset-map-id", map.id() << " became " << back.id());
	EXPECT(back.annotation_text() == annotation, "asset-map-annotation", show(annotation) << " became " << show(back.annotation_text()));
	EXPECT(back.issue_date() == date, "asset-map-date", date << " became " << back.issue_date());
	EXPECT(back.issuer() == issuer, "asset-map-issuer", issuer << " became " << back.issuer());
	EXPECT(back.creator() == creator, "asset-map-creator", creator << " became " << back.creator());
	EXPECT(back.file() && *back.file() == file, "asset-map-file", "file() after reading");

	auto const got = back.assets();
	EXPECT(got.size() == assets.size(), "asset-map-count", assets.size() << " assets became " << got.size());
	size_t pkls = 0;
	for (size_t i = 0; i < std::min(got.size(), assets.size()); ++i) {
		EXPECT(got[i].id() == assets[i].id, "asset-map-asset-id", assets[i].id << " became " << got[i].id());
		EXPECT(got[i].path() == assets[i].path, "asset-map-asset-path", assets[i].path << " became " << got[i].path().string());
		EXPECT(got[i].pkl() == assets[i].pkl, "asset-map-asset-pkl", assets[i].path << " became " << got[i].pkl());
		pkls += assets[i].pkl;
	}
	auto const paths = back.asset_ids_and_paths();
	EXPECT(paths.size() == assets.size(), "asset-map-ids-and-paths", paths.size());
	for (auto const& a: assets) {
		auto const p = paths.find(a.id);
		EXPECT(p != paths.end() && p->second == a.path, "asset-map-resolve", a.id << " not resolved to " << a.path);
	}
	auto const pkl_paths = back.pkl_paths();
	EXPECT(pkl_paths.size() == pkls, "asset-map-pkl-paths", pkl_paths.size() << " rather than " << pkls);
	for (auto const& p: pkl_paths) {
		bool found = false;
		for (auto const& a: assets) {
			found |= a.pkl && a.path == p.string();
		}
		EXPECT(found, "asset-map-pkl-path", p.string());
	}

	/* Lengths in the XML are those of the files */
	cxml::Document doc("AssetMap");
	doc.read_file(file);
	size_t k = 0;
	for (auto a: doc.node_child("AssetList")->node_children("Asset")) {
		auto chunk = a->node_child("ChunkList")->node_child("Chunk");
		if (k < assets.size()) {
			EXPECT(chunk->string_child("Length") == std::to_string(read_file(assets[k].path).length()), "asset-map-length", assets[k].path);
			EXPECT(dir + "/" + chunk->string_child("Path") == assets[k].path, "asset-map-relative", chunk->string_child("Path"));
		}
		++k;
	}

	/* Writing it again gives the same file */
	auto const first = read_file(file);
	back.write_xml(file);
	EXPECT(read_file(file) == first, "asset-map-rewrite", "document changed");

	/* With file:// the same paths; and moved elsewhere, paths follow */
	string with = first;
	for (size_t at = 0; (at = with.find("<Path>", at)) != string::npos; at += 13) {
		with.insert(at + 6, "file://");
	}
	write_file(dir + "/ASSETMAP2", with);
	dcp::AssetMap const prefixed((boost::filesystem::path(dir + "/ASSETMAP2")));
	for (size_t i = 0; i < std::min(prefixed.assets().size(), assets.size()); ++i) {
		EXPECT(prefixed.assets()[i].path() == assets[i].path, "asset-map-file-prefix", prefixed.assets()[i].path().string());
	}
	auto const elsewhere = fresh_dir("am2");
	write_file(elsewhere + "/ASSETMAP", first);
	dcp::AssetMap const moved((boost::filesystem::path(elsewhere + "/ASSETMAP")));
	for (size_t i = 0; i < std::min(moved.assets().size(), assets.size()); ++i) {
		EXPECT(moved.assets()[i].path() == elsewhere + assets[i].path.substr(dir.length()), "asset-map-moved", moved.assets()[i].path().string());
	}
	count("asset maps");
	count("asset map entries", assets.size());
	remove_tree(dir);
	remove_tree(elsewhere);
}

struct PKLAsset { string id; optional<string> annotation; string hash; int64_t size; string type; string filename; };

void
pkl_case(size_t n)
{
	auto const dir = fresh_dir("pkl");
	auto const standard = rng.coin() ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
	optional<string> const annotation = gen::maybe(gen::text(false));
	optional<string> const group = gen::maybe(gen::uuid(), 0.3);
	string const date = gen::date(), issuer = gen::text(false), creator = gen::text(false);
	begin_case("pkl " + std::to_string(n) + " " + printable(issuer) + " " + printable(creator) + " " + printable(show(annotation)));
	dcp::PKL pkl(standard, annotation, date, issuer, creator, group);
	vector<PKLAsset> assets;
	int const count_assets = rng.below(8);
	for (int i = 0; i < count_assets; ++i) {
		PKLAsset a = {
			gen::uuid(), gen::maybe(gen::text(false)), gen::hash(),
			rng.chance(0.3) ? int64_t(rng.next() >> 1) : int64_t(rng.below(5000000000ull)),
			rng.pick({string("application/mxf"), string("text/xml"), string("application/x-smpte-mxf;asdcpKind=Picture"), gen::text()}), gen::file_name(".mxf")
		};
		assets.push_back(a);
		pkl.add_asset(a.id, a.annotation, a.hash, a.size, a.type, a.filename);
	}
	auto const file = dir + "/pkl.xml";
	pkl.write_xml(file, shared_ptr<const dcp::CertificateChain>());
	dcp::PKL const back((boost::filesystem::path(file)));
	EXPECT(back.standard() == standard, "pkl-standard", "standard changed");
	EXPECT(back.id() == pkl.id(), "pkl-id", back.id());
	EXPECT(back.annotation_text() == annotation, "pkl-annotation", show(annotation) << " became " << show(back.annotation_text()));
	EXPECT(back.issue_date() == date && back.issuer() == issuer && back.creator() == creator, "pkl-metadata", back.issue_date() << " " << back.issuer() << " " << back.creator());
	EXPECT(back.group_id() == (standard == dcp::Standard::SMPTE ? group : optional<string>()), "pkl-group", show(group) << " became " << show(back.group_id()));
	auto const got = back.assets();
	EXPECT(got.size() == assets.size(), "pkl-count", got.size() << " rather than " << assets.size());
	for (size_t i = 0; i < std::min(got.size(), assets.size()); ++i) {
		auto const& a = assets[i];
		auto const& g = *got[i];
		EXPECT(g.id() == a.id, "pkl-asset-id", g.id());
		EXPECT(g.annotation_text() == a.annotation, "pkl-asset-annotation", show(a.annotation) << " became " << show(g.annotation_text()));
		EXPECT(g.hash() == a.hash, "pkl-asset-hash", g.hash());
		EXPECT(g.size() == a.size, "pkl-asset-size", a.size << " became " << g.size());
		EXPECT(g.type() == a.type, "pkl-asset-type", a.type << " became " << g.type());
		EXPECT(g.original_filename() == a.filename, "pkl-asset-filename", a.filename << " became " << show(g.original_filename()));
		EXPECT(back.hash(a.id) == a.hash && back.type(a.id) == a.type, "pkl-lookup", a.id);
	}
	EXPECT(!back.hash(gen::uuid()) && !back.type(gen::uuid()), "pkl-lookup-unknown", "unknown id found");
	auto const first = read_file(file);
	back.write_xml(file, shared_ptr<const dcp::CertificateChain>());
	EXPECT(read_file(file) == first, "pkl-rewrite", "document changed");
	count("packing lists");
	count("packing list entries", assets.size());
	remove_tree(dir);
}

void
c25()
{
	rule("random asset maps and packing lists written, read, compared field by field and rewritten; the XML also read directly");
	gen::init();
	auto const n = budget(600, 15000);
	for (size_t i = 0; i < n; ++i) {
		asset_map_case(i);
		pkl_case(i);
	}
}

KIT_CHECK("C25", c25);

/* ---------- C26 ---------- */

dcp::Fraction const rates[] = { {24, 1}, {25, 1}, {30, 1}, {48, 1}, {50, 1}, {60, 1}, {96, 1}, {120, 1} };

struct AssetSpec
{
	string node, prefix;
	string language_prefix;
	bool picture = false, text = false, atmos = false;
};

/** A reel asset made from XML, and then perhaps altered with its setters */
template <class T>
shared_ptr<T>
reel_asset(string const& name, dcp::Fraction rate, int64_t intrinsic, string const& extra)
{
	optional<int64_t> const entry = gen::maybe<int64_t>(rng.below(intrinsic));
	string xml = "<" + name + "><Id>urn:uuid:" + gen::uuid() + "</Id>";
	if (rng.chance(0.3)) {
		xml += "<AnnotationText>" + gen::escape(gen::text()) + "</AnnotationText>";
	}
	xml += "<EditRate>" + rate.as_string() + "</EditRate><IntrinsicDuration>" + std::to_string(intrinsic) + "</IntrinsicDuration>";
	if (entry) {
		xml += "<EntryPoint>" + std::to_string(*entry) + "</EntryPoint>";
	}
	if (rng.coin()) {
		xml += "<Duration>" + std::to_string(rng.below(intrinsic - entry.get_value_or(0)) + 1) + "</Duration>";
	}
	if (rng.chance(0.3)) {
		xml += "<KeyId>urn:uuid:" + gen::uuid() + "</KeyId>";
	}
	if (rng.coin()) {
		xml += "<Hash>" + gen::hash() + "</Hash>";
	}
	xml += extra + "</" + name + ">";
	cxml::Document doc(name);
	doc.read_string(xml);
	auto a = make_shared<T>(make_shared<cxml::Node>(doc.node()));
	if (rng.chance(0.3)) {
		a->set_annotation_text(gen::text());
	} else if (rng.chance(0.1)) {
		a->unset_annotation_text();
	}
	if (rng.chance(0.2)) {
		a->set_entry_point(rng.below(intrinsic));
	} else if (rng.chance(0.1)) {
		a->unset_entry_point();
	}
	if (rng.chance(0.2)) {
		a->set_duration(rng.below(intrinsic) + 1);
	}
	if (rng.chance(0.2)) {
		a->set_hash(gen::hash());
	}
	return a;
}

shared_ptr<dcp::Reel>
random_reel(dcp::Standard standard)
{
	auto reel = make_shared<dcp::Reel>();
	auto const rate = rates[rng.below(sizeof(rates) / sizeof(rates[0]))];
	int64_t const intrinsic = rng.chance(0.1) ? rng.range(1, 4000000000000ll) : rng.range(1, 200000);
	bool const smpte = standard == dcp::Standard::SMPTE;
	if (rng.chance(0.9)) {
		string extra = "<FrameRate>" + dcp::Fraction(rate.numerator, 1).as_string() + "</FrameRate><ScreenAspectRatio>" + (smpte ? "1998 1080" : rng.pick({string("1.85"), string("2.39"), string("1.77"), string("1.66"), string("1.33"), string("2.00")})) + "</ScreenAspectRatio>";
		shared_ptr<dcp::ReelPictureAsset> p;
		if (rng.chance(0.7)) {
			p = reel_asset<dcp::ReelMonoPictureAsset>("MainPicture", rate, intrinsic, extra);
		} else {
			p = reel_asset<dcp::ReelStereoPictureAsset>("MainStereoscopicPicture", rate, intrinsic, extra);
		}
		if (smpte && rng.coin()) {
			p->set_screen_aspect_ratio(dcp::Fraction(rng.range(1, 5000), rng.range(1, 3000)));
		}
		reel->add(p);
	}
	if (rng.chance(0.7)) {
		if (rng.coin()) {
			reel->add(make_shared<dcp::ReelSoundAsset>(gen::uuid(), rate, intrinsic, rng.below(intrinsic), gen::maybe(gen::hash()), gen::maybe(gen::uuid())));
		} else {
			reel->add(reel_asset<dcp::ReelSoundAsset>("MainSound", rate, intrinsic, ""));
		}
	}
	auto text = [&](string const& name) {
		string const extra = rng.coin() ? "<Language>" + gen::language().as_string() + "</Language>" : "";
		shared_ptr<dcp::ReelTextAsset> t;
		if (smpte) {
			t = reel_asset<dcp::ReelSMPTETextAsset>(name, rate, intrinsic, extra);
		} else {
			t = reel_asset<dcp::ReelInteropTextAsset>(name, rate, intrinsic, extra);
		}
		if (rng.chance(0.3)) {
			t->set_language(gen::language());
		}
		reel->add(t);
	};
	if (rng.coin()) {
		text("MainSubtitle");
	}
	for (int i = 0, n = rng.chance(0.6) ? 0 : rng.below(4); i < n; ++i) {
		text(smpte ? "ClosedCaption" : "MainClosedCaption");
	}
	if (smpte) {
		if (rng.chance(0.3)) {
			text("MainCaption");
		}
		for (int i = 0, n = rng.chance(0.7) ? 0 : rng.below(3); i < n; ++i) {
			text("ClosedSubtitle");
		}
		if (rng.chance(0.3)) {
			reel->add(reel_asset<dcp::ReelAtmosAsset>("AuxData", rate, intrinsic, "<DataType>urn:smpte:ul:060e2b34.04010105.0e090604.00000000</DataType>"));
		}
	}
	if (rng.coin()) {
		auto m = make_shared<dcp::ReelMarkersAsset>(rate, intrinsic);
		static vector<dcp::Marker> const all = {
			dcp::Marker::FFOC, dcp::Marker::LFOC, dcp::Marker::FFTC, dcp::Marker::LFTC, dcp::Marker::FFOI, dcp::Marker::LFOI,
			dcp::Marker::FFEC, dcp::Marker::LFEC, dcp::Marker::FFMC, dcp::Marker::LFMC, dcp::Marker::FFOB, dcp::Marker::LFOB
		};
		for (auto k: all) {
			if (rng.coin()) {
				int64_t const frame = rng.below(std::min<int64_t>(intrinsic, 360000)) + 1;
				m->set(k, dcp::Time(frame / rate.numerator / 3600, frame / rate.numerator / 60 % 60, frame / rate.numerator % 60, frame % rate.numerator, rate.numerator));
			}
		}
		if (rng.chance(0.3)) {
			m->unset(rng.pick(all));
		}
		if (rng.chance(0.3)) {
			m->set_annotation_text(gen::text());
		}
		reel->add(m);
	}
	return reel;
}

class Dump
{
public:
	template <class T> void operator()(string const& name, T const& v) {
		std::ostringstream o;
		o << v;
		_lines.push_back({name, o.str()});
	}
	void operator()(string const& name, optional<string> const& v) { _lines.push_back({name, show(v)}); }
	void operator()(string const& name, optional<int64_t> const& v) { _lines.push_back({name, v ? std::to_string(*v) : "none"}); }
	void operator()(string const& name, optional<int> const& v) { _lines.push_back({name, v ? std::to_string(*v) : "none"}); }
	void operator()(string const& name, optional<dcp::Size> const& v) { _lines.push_back({name, v ? std::to_string(v->width) + "x" + std::to_string(v->height) : "none"}); }

	vector<std::pair<string, string>> const& lines() const { return _lines; }
private:
	vector<std::pair<string, string>> _lines;
};

void
dump_asset(Dump& d, string const& name, shared_ptr<const dcp::ReelAsset> a, bool interop)
{
	if (!a) {
		d(name, string("absent"));
		return;
	}
	d(name + "-id", a->id());
	d(name + "-edit-rate", a->edit_rate().as_string());
	d(name + "-intrinsic-duration", a->intrinsic_duration());
	d(name + "-entry-point", a->entry_point());
	d(name + "-duration", a->duration());
	d(name + "-actual-duration", a->actual_duration());
	d(name + "-annotation", a->annotation_text());
	if (auto f = dynamic_pointer_cast<const dcp::ReelFileAsset>(a)) {
		d(name + "-hash", f->hash());
		d(name + "-key-id", f->key_id());
		d(name + "-encrypted", f->encrypted());
		d(name + "-key-type", f->key_type());
		d(name + "-reference", f->asset_ref().id());
	}
	if (auto p = dynamic_pointer_cast<const dcp::ReelPictureAsset>(a)) {
		d(name + "-frame-rate", p->frame_rate().as_string());
		if (interop) {
			d(name + "-aspect-ratio", std::lrint(p->screen_aspect_ratio().as_float() * 100));
		} else {
			d(name + "-aspect-ratio", p->screen_aspect_ratio().as_string());
		}
		d(name + "-stereo", bool(dynamic_pointer_cast<const dcp::ReelStereoPictureAsset>(p)));
	}
	if (auto t = dynamic_pointer_cast<const dcp::ReelTextAsset>(a)) {
		d(name + "-language", t->language());
		d(name + "-type", static_cast<int>(t->type()));
	}
	if (auto m = dynamic_pointer_cast<const dcp::ReelMarkersAsset>(a)) {
		for (auto const& i: m->get()) {
			d(name + "-marker", dcp::marker_to_string(i.first) + "=" + std::to_string(i.second.as_editable_units()) + "@" + std::to_string(i.second.tcr));
		}
	}
}

vector<std::pair<string, string>>
dump(dcp::CPL const& cpl, bool metadata)
{
	Dump d;
	bool const interop = cpl.standard() == dcp::Standard::INTEROP;
	d("standard", static_cast<int>(cpl.standard()));
	d("id", cpl.id());
	d("annotation", cpl.annotation_text());
	d("issuer", cpl.issuer());
	d("creator", cpl.creator());
	d("title", cpl.content_title_text());
	d("kind", cpl.content_kind().name());
	d("kind-scope", cpl.content_kind().scope());
	if (cpl.content_version()) {
		d("content-version", cpl.content_version()->id + " " + cpl.content_version()->label_text);
	}
	for (auto const& r: cpl.ratings()) {
		d("rating", r.agency + " " + r.label);
	}
	if (metadata) {
		for (auto const& c: cpl.content_versions()) {
			d("content-versions", c.id + " " + c.label_text);
		}
		d("full-title", cpl.full_content_title_text().get_value_or(""));
		d("full-title-language", cpl.full_content_title_text_language());
		d("territory", cpl.release_territory());
		d("territory-scope", cpl.release_territory_scope());
		d("version-number", cpl.version_number());
		d("status", cpl.status() ? dcp::status_to_string(*cpl.status()) : "none");
		d("chain", cpl.chain());
		d("distributor", cpl.distributor());
		d("facility", cpl.facility());
		std::ostringstream lum;
		lum.precision(9);
		if (cpl.luminance()) {
			lum << cpl.luminance()->value() << " " << dcp::Luminance::unit_to_string(cpl.luminance()->unit());
		}
		d("luminance", lum.str());
		d("sound-configuration", cpl.main_sound_configuration() ? cpl.main_sound_configuration()->as_string() : "none");
		d("sample-rate", cpl.main_sound_sample_rate());
		d("stored-area", cpl.main_picture_stored_area());
		d("active-area", cpl.main_picture_active_area());
		for (auto const& l: cpl.additional_subtitle_languages()) {
			d("subtitle-language", l);
		}
		d("sign-language", cpl.sign_language_video_language());
		d("edr", cpl.dolby_edr_image_transfer_function());
	}
	d("reels", cpl.reels().size());
	for (auto r: cpl.reels()) {
		d("reel-id", r->id());
		dump_asset(d, "picture", r->main_picture(), interop);
		dump_asset(d, "sound", r->main_sound(), interop);
		dump_asset(d, "subtitle", r->main_subtitle(), interop);
		dump_asset(d, "caption", r->main_caption(), interop);
		d("closed-subtitles", r->closed_subtitles().size());
		for (auto i: r->closed_subtitles()) {
			dump_asset(d, "closed-subtitle", i, interop);
		}
		d("closed-captions", r->closed_captions().size());
		for (auto i: r->closed_captions()) {
			dump_asset(d, "closed-caption", i, interop);
		}
		dump_asset(d, "markers", r->main_markers(), interop);
		dump_asset(d, "atmos", r->atmos(), interop);
	}
	return d.lines();
}

void
compare(vector<std::pair<string, string>> const& a, vector<std::pair<string, string>> const& b, string const& prefix)
{
	for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
		auto const none = std::make_pair(string("nothing"), string("nothing"));
		auto const& x = i < a.size() ? a[i] : none;
		auto const& y = i < b.size() ? b[i] : none;
		EXPECT(x == y, prefix + x.first, x.first << " " << x.second << " became " << y.first << " " << y.second);
		if (x.first != y.first) {
			/* out of step: one report is enough */
			break;
		}
	}
}

void
cpl_case(size_t n)
{
	auto const dir = fresh_dir("cpl");
	auto const standard = rng.chance(0.7) ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
	bool const smpte = standard == dcp::Standard::SMPTE;
	auto const profile = rng.pick({dcp::Profile::SMPTE_BV20, dcp::Profile::SMPTE_BV21, dcp::Profile::SMPTE_A});
	auto const kinds = dcp::ContentKind::all();
	auto const annotation = gen::text();
	dcp::CPL cpl(annotation, rng.chance(0.8) ? rng.pick(kinds) : dcp::ContentKind(gen::text(), gen::text()), standard, profile);
	begin_case("cpl " + std::to_string(n) + " " + printable(annotation));
	EXPECT(cpl.content_title_text() == annotation && cpl.annotation_text() == annotation, "title-defaults", cpl.content_title_text());
	EXPECT(!cpl.issuer().empty() && cpl.issuer().find('\0') == string::npos && cpl.issuer().length() < 100 && cpl.creator().length() < 100, "issuer-default", printable(cpl.issuer()));
	string date;
	if (rng.coin()) { cpl.set_annotation_text(gen::text()); }
	if (rng.coin()) { cpl.set_content_title_text(gen::text()); }
	if (rng.coin()) { cpl.set_issuer(gen::text()); }
	if (rng.coin()) { cpl.set_creator(gen::text()); }
	if (rng.coin()) { date = gen::date(); cpl.set_issue_date(date); }
	if (rng.coin()) { cpl.set_content_kind(rng.pick(kinds)); }

	bool metadata = smpte && profile != dcp::Profile::SMPTE_A;
	int const reels = rng.range(1, 4);
	for (int i = 0; i < reels; ++i) {
		cpl.add(random_reel(standard));
	}
	if (!cpl.reels().front()->main_picture()) {
		metadata = false;
	}
	if (metadata && profile == dcp::Profile::SMPTE_BV21 && cpl.reels().front()->main_sound()) {
		/* The sound asset itself would be needed to write this */
		return;
	}

	vector<dcp::ContentVersion> versions;
	for (int i = 0, k = metadata ? rng.range(1, 4) : 1; i < k; ++i) {
		versions.push_back(dcp::ContentVersion("urn:uuid:" + gen::uuid(), gen::text()));
	}
	if (versions.size() == 1 && rng.coin()) {
		cpl.set_content_version(versions[0]);
	} else {
		cpl.set_content_versions(versions);
	}
	vector<dcp::Rating> ratings;
	for (int i = 0, k = rng.below(4); i < k; ++i) {
		ratings.push_back(dcp::Rating(gen::text(), gen::text()));
	}
	cpl.set_ratings(ratings);

	if (rng.coin()) { cpl.set_full_content_title_text(gen::text()); }
	if (rng.coin()) { cpl.set_full_content_title_text_language(gen::language()); }
	if (rng.coin()) { cpl.set_release_territory(dcp::LanguageTag::RegionSubtag(rng.pick({string("GB"), string("US"), string("001"), string("419")}))); }
	if (rng.coin()) {
		cpl.set_version_number(rng.below(1000000));
		if (rng.coin()) { cpl.set_status(rng.pick({dcp::Status::FINAL, dcp::Status::TEMP, dcp::Status::PRE})); }
		if (rng.chance(0.1)) { cpl.set_version_number(0); }
	}
	if (rng.coin()) { cpl.set_chain(gen::text()); }
	if (rng.coin()) { cpl.set_distributor(gen::text()); }
	if (rng.coin()) { cpl.set_facility(gen::text()); }
	if (rng.coin()) {
		float const v = rng.pick({4.5f, 14.0f, 14.35f, 48.0f, 16.443f, 108.5f, 1000.25f, 0.0f, float(rng.real(0, 200))});
		cpl.set_luminance(dcp::Luminance(v, rng.coin() ? dcp::Luminance::Unit::FOOT_LAMBERT : dcp::Luminance::Unit::CANDELA_PER_SQUARE_METRE));
	}
	if (metadata && rng.chance(0.1)) {
		/* leave something necessary out: no metadata may be written */
		metadata = false;
	} else {
		dcp::MainSoundConfiguration config(rng.coin() ? dcp::MCASoundField::FIVE_POINT_ONE : dcp::MCASoundField::SEVEN_POINT_ONE, rng.range(1, 16));
		auto const used = dcp::used_audio_channels();
		for (int i = 0; i < config.channels(); ++i) {
			if (rng.coin()) {
				config.set_mapping(i, rng.pick(used));
			}
		}
		cpl.set_main_sound_configuration(config);
		cpl.set_main_sound_sample_rate(rng.coin() ? 48000 : 96000);
		cpl.set_main_picture_stored_area(dcp::Size(rng.range(1, 4096), rng.range(1, 2160)));
		cpl.set_main_picture_active_area(dcp::Size(2 * rng.range(1, 2048), 2 * rng.range(1, 1080)));
	}
	vector<dcp::LanguageTag> languages;
	for (int i = 0, k = rng.below(3); i < k; ++i) {
		languages.push_back(gen::language());
	}
	/* An additional language which is the same as that of the first subtitle would be the same list in the file */
	optional<string> first_language;
	for (auto r: cpl.reels()) {
		if (!first_language && r->main_subtitle()) {
			first_language = r->main_subtitle()->language();
		}
	}
	cpl.set_additional_subtitle_languages(languages);
	optional<string> sign, edr;
	for (int i = 0, k = rng.below(4); i < k; ++i) {
		if (rng.coin()) {
			auto const l = gen::language();
			cpl.set_sign_language_video_language(l);
			sign = l.as_string();
		} else {
			edr = gen::text();
			cpl.set_dolby_edr_image_transfer_function(*edr);
		}
	}
	EXPECT(cpl.sign_language_video_language() == sign, "set-sign-language", cpl.sign_language_video_language().get_value_or("none") << " rather than " << sign.get_value_or("none"));
	EXPECT(cpl.dolby_edr_image_transfer_function() == edr, "set-edr", cpl.dolby_edr_image_transfer_function().get_value_or("none") << " rather than " << edr.get_value_or("none"));

	auto const before = dump(cpl, metadata);
	auto const file = dir + "/cpl.xml";
	cpl.write_xml(file, shared_ptr<const dcp::CertificateChain>());
	auto const first = read_file(file);
	dcp::CPL const back((boost::filesystem::path(file)));
	EXPECT(back.read_composition_metadata() == metadata, "metadata-present", "metadata " << back.read_composition_metadata() << " rather than " << metadata);
	compare(before, dump(back, metadata), "cpl-");
	compare(before, dump(cpl, metadata), "cpl-undisturbed-");
	if (!date.empty()) {
		EXPECT(first.find("<IssueDate>" + date + "</IssueDate>") != string::npos, "cpl-issue-date", date);
	}

	back.write_xml(dir + "/cpl2.xml", shared_ptr<const dcp::CertificateChain>());
	auto const second = read_file(dir + "/cpl2.xml");
	string why;
	if (first != second) {
		size_t at = 0;
		while (at < first.length() && at < second.length() && first[at] == second[at]) {
			++at;
		}
		auto const from = at > 80 ? at - 80 : 0;
		why = first.substr(from, 160) + "\n became \n" + second.substr(from, 160);
	}
	EXPECT(first == second, "cpl-rewrite", why);

	if (metadata && cpl.release_territory()) {
		/* The scope of a territory can only come from a file */
		auto scoped = first;
		auto const at = scoped.find("ReleaseTerritory>");
		if (at != string::npos) {
			scoped.insert(at + 16, " scope=\"http://www.smpte-ra.org/schemas/429-16/2014/CPL-Metadata#scope/release-territory/UNM49\"");
			write_file(dir + "/scoped.xml", scoped);
			dcp::CPL const with((boost::filesystem::path(dir + "/scoped.xml")));
			with.write_xml(dir + "/scoped2.xml", shared_ptr<const dcp::CertificateChain>());
			dcp::CPL const again((boost::filesystem::path(dir + "/scoped2.xml")));
			EXPECT(with.release_territory_scope() && again.release_territory_scope() == with.release_territory_scope(), "cpl-territory-scope", "became " << show(again.release_territory_scope()));
			count("scoped territories");
		}
	}
	count(metadata ? "with composition metadata" : "without composition metadata");
	count("reels", cpl.reels().size());
	remove_tree(dir);
}

void
c26()
{
	rule("random CPLs with every setter and every kind of reel asset; all getters compared after reading; rewritten document identical");
	assumption("whole-number edit rates with markers on frames; non-empty annotation texts; a status only with a version number; Interop aspect ratios from the permitted list");
	gen::init();
	auto const n = budget(700, 20000);
	for (size_t i = 0; i < n; ++i) {
		cpl_case(i);
	}
	{
		dcp::CPL cpl("x", dcp::ContentKind::FEATURE, dcp::Standard::SMPTE);
		bool threw = false;
		try {
			cpl.write_xml(opt.scratch + "/empty.xml", shared_ptr<const dcp::CertificateChain>());
		} catch (std::exception&) {
			threw = true;
		}
		EXPECT(threw, "no-reels", "CPL without reels written");
		threw = false;
		auto const id = "urn:uuid:" + gen::uuid();
		try {
			cpl.set_content_versions({dcp::ContentVersion(id, "a"), dcp::ContentVersion(id, "b")});
		} catch (std::exception&) {
			threw = true;
		}
		EXPECT(threw, "duplicate-content-version", "accepted");
	}
}

KIT_CHECK("C26", c26);

}
