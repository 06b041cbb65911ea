/* C29 packages written and read, C30 equality, C33 combining, C39 queries and KDM delivery */
#include "gen.h"
#include "kit.h"
#include "pkg.h"
#include "asset_factory.h"
#include "combine.h"
#include "cpl.h"
#include "dcp.h"
#include "equality_options.h"
#include "exceptions.h"
#include "font_asset.h"
#include "interop_text_asset.h"
#include "mono_j2k_picture_asset.h"
#include "mxf.h"
#include "reel.h"
#include "reel_atmos_asset.h"
#include "reel_file_asset.h"
#include "reel_markers_asset.h"
#include "reel_mono_picture_asset.h"
#include "reel_picture_asset.h"
#include "reel_sound_asset.h"
#include "reel_text_asset.h"
#include "search.h"
#include "sound_asset.h"
#include "stereo_j2k_picture_asset.h"
#include "text_image.h"
#include "text_string.h"
#include "atmos_asset.h"
#include "smpte_text_asset.h"
#include "verify.h"
#include <libcxml/cxml.h>
#include <boost/core/demangle.hpp>
#include <boost/filesystem.hpp>
#include <algorithm>
#include <functional>
#include <set>

using namespace kit;
using std::dynamic_pointer_cast;
using std::function;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;
using boost::optional;
using pkg::Kind;
namespace bfs = boost::filesystem;

namespace {

string
kind_name(shared_ptr<dcp::Asset> a)
{
	auto const& x = *a;
	return boost::core::demangle(typeid(x).name());
}

/** What a reel's file assets should be, in any order: id, role */
string
use_key(pkg::Spec const& spec, pkg::Use const& u, string const& id)
{
	auto const& a = spec.assets[u.asset];
	return id + " " + std::to_string(u.entry) + "+" + std::to_string(u.duration ? u.duration : a.frames - u.entry) + " of " + std::to_string(a.frames) + " [" + u.annotation.get_value_or("none") + "]" + (a.kind == Kind::TEXT ? " role " + std::to_string(u.role) + " " + u.language : "") + (a.crypt.on ? " key " + a.crypt.key_id : "");
}

string
reel_asset_key(dcp::ReelFileAsset const& r)
{
	auto text = dynamic_cast<dcp::ReelTextAsset const*>(&r);
	return r.asset_ref().id() + " " + std::to_string(r.entry_point().get_value_or(0)) + "+" + std::to_string(r.duration().get_value_or(0)) + " of " + std::to_string(r.intrinsic_duration()) + " [" + r.annotation_text().get_value_or("none") + "]" + (text ? " role " + std::to_string(int(text->type())) + " " + text->language().get_value_or("none") : "") + (r.key_id() ? " key " + *r.key_id() : "");
}

vector<string>
ids(vector<shared_ptr<dcp::Asset>> const& assets)
{
	vector<string> out;
	for (auto a: assets) {
		out.push_back(a->id());
	}
	return out;
}

/** Check that the CPLs and reels of `d` are those of the spec */
void
check_structure(dcp::DCP const& d, pkg::Spec const& spec, vector<string> const& asset_ids, vector<string> const& cpl_ids, string const& prefix)
{
	auto cpls = d.cpls();
	EXPECT(cpls.size() == spec.cpls.size(), prefix + "-cpls", cpls.size() << " CPLs rather than " << spec.cpls.size());
	for (size_t c = 0; c < spec.cpls.size(); ++c) {
		auto i = std::find_if(cpls.begin(), cpls.end(), [&](shared_ptr<dcp::CPL> x) { return x->id() == cpl_ids[c]; });
		EXPECT(i != cpls.end(), prefix + "-cpl", "CPL " << cpl_ids[c] << " not found");
		if (i == cpls.end()) {
			continue;
		}
		auto cpl = *i;
		EXPECT(cpl->content_title_text() == spec.cpls[c].title, prefix + "-title", cpl->content_title_text());
		auto reels = cpl->reels();
		EXPECT(reels.size() == spec.cpls[c].reels.size(), prefix + "-reels", reels.size());
		for (size_t r = 0; r < std::min(reels.size(), spec.cpls[c].reels.size()); ++r) {
			auto const& want_reel = spec.cpls[c].reels[r];
			std::multiset<string> want, have;
			for (auto const& u: want_reel.uses) {
				want.insert(use_key(spec, u, asset_ids[u.asset]));
			}
			for (auto a: reels[r]->file_assets()) {
				have.insert(reel_asset_key(*a));
			}
			EXPECT(want == have, prefix + "-reel-assets", "reel " << r << " has " << have.size() << " assets, wanted " << want.size() << (have.empty() ? "" : " " + printable(*have.begin())) << " / " << printable(*want.begin()));
			auto m = reels[r]->main_markers();
			EXPECT(bool(m) == want_reel.has_markers && (!m || m->get().size() == want_reel.markers.size()), prefix + "-markers", "markers differ");
			observed();
		}
	}
}

void
give_keys(dcp::DCP& d, pkg::Spec const& spec)
{
	for (auto cpl: d.cpls()) {
		d.add(pkg::kdm(spec, cpl->id()));
	}
}

shared_ptr<dcp::Asset>
find(vector<shared_ptr<dcp::Asset>> const& assets, string const& id)
{
	for (auto a: assets) {
		if (a->id() == id) {
			return a;
		}
	}
	return {};
}

bool
used(pkg::Spec const& spec, size_t asset)
{
	for (auto const& c: spec.cpls) {
		for (auto const& r: c.reels) {
			for (auto const& u: r.uses) {
				if (u.asset == int(asset)) {
					return true;
				}
			}
		}
	}
	return false;
}

struct Notes
{
	int errors = 0;
	string last;
	dcp::NoteHandler handler() {
		return [this](dcp::NoteType t, string s) {
			if (t == dcp::NoteType::ERROR) {
				++errors;
				last += (last.empty() ? "" : "; ") + s;
			}
		};
	}
};

/* ---------- C29 ---------- */

void
package_case(size_t n)
{
	auto const spec = pkg::random({});
	auto const dir = fresh_dir("dcp");
	begin_case("package " + std::to_string(n) + " " + spec.describe());
	auto built = pkg::build(spec, dir);
	auto const asset_ids = ids(built.assets);
	vector<string> cpl_ids;
	for (auto c: built.cpls) {
		cpl_ids.push_back(c->id());
	}
	pkg::check_lists(dir, spec.smpte, "lists");

	dcp::DCP d((bfs::path(dir)));
	vector<dcp::VerificationNote> notes;
	d.read(&notes);
	EXPECT(notes.empty(), "read-notes", notes.size() << " notes on reading, first " << (notes.empty() ? "" : dcp::note_to_string(notes[0])));
	EXPECT(d.standard() == (spec.smpte ? dcp::Standard::SMPTE : dcp::Standard::INTEROP), "standard", "differs");
	check_structure(d, spec, asset_ids, cpl_ids, "read");
	give_keys(d, spec);
	auto const assets = d.assets();
	std::set<string> seen;
	for (auto a: assets) {
		EXPECT(seen.insert(a->id()).second, "asset-twice", a->id());
	}
	for (size_t i = 0; i < spec.assets.size(); ++i) {
		auto a = find(assets, asset_ids[i]);
		EXPECT(a, "asset-missing", spec.assets[i].file << " not among assets read");
		if (a) {
			EXPECT(bfs::canonical(*a->file()) == bfs::canonical(dir + "/" + spec.assets[i].file), "asset-file", a->file()->string() << " rather than " << spec.assets[i].file);
			pkg::check_content(spec.assets[i], a, "read");
			EXPECT(a->hash() == pkg::sha1(dir + "/" + spec.assets[i].file), "asset-hash", "hash given for " << spec.assets[i].file << " is not that of the file");
		}
	}
	for (auto cpl: d.cpls()) {
		for (auto r: cpl->reel_file_assets()) {
			EXPECT(r->asset_ref().resolved(), "unresolved", r->asset_ref().id());
			if (r->asset_ref().resolved() && r->hash()) {
				EXPECT(*r->hash() == pkg::sha1(r->asset_ref().asset()->file()->string()), "reel-hash", "hash in CPL is not that of the file");
			}
		}
	}
	Notes a, b;
	EXPECT(d.equals(*built.dcp, {}, a.handler()), "equal-to-original", a.last);
	EXPECT(built.dcp->equals(d, {}, b.handler()), "original-equal", b.last);

	/* Write what was read */
	if (rng.coin()) {
		bool const original = rng.coin();
		dcp::DCP again((bfs::path(dir)));
		again.read();
		again.write_xml({}, original ? dcp::Filenames::ORIGINAL : dcp::Filenames::NEW);
		pkg::check_lists(dir, spec.smpte, "rewrite");
		dcp::DCP third((bfs::path(dir)));
		third.read();
		check_structure(third, spec, asset_ids, cpl_ids, "rewrite");
		count("rewritten");
	}

	/* A change to any essence file can be seen */
	vector<size_t> candidates;
	for (size_t i = 0; i < spec.assets.size(); ++i) {
		if (spec.smpte || spec.assets[i].kind != Kind::TEXT) {
			candidates.push_back(i);
		}
	}
	if (!candidates.empty()) {
		auto const i = rng.pick(candidates);
		auto const file = dir + "/" + spec.assets[i].file;
		auto data = read_file(file);
		/* in the latter half so that the file can most likely still be opened */
		auto const at = data.size() / 2 + rng.below(data.size() / 2);
		data[at] ^= 1 << rng.below(8);
		write_file(file, data);
		try {
			dcp::DCP changed((bfs::path(dir)));
			changed.read();
			auto x = find(changed.assets(), asset_ids[i]);
			if (x) {
				EXPECT(x->hash() != pkg::sha1(file), "change-hidden", "changed file " << spec.assets[i].file << " has the hash that the package says");
				count("changes seen");
			}
		} catch (std::exception&) {
			count("changes refused");
		}
	}
	note_max("assets", spec.assets.size());
	remove_tree(dir);
}

void
c29()
{
	rule("random packages of both standards: lists recomputed from the files, structure and content compared with the description they were built from");
	gen::init();
	auto const n = budget(220, 6000);
	for (size_t i = 0; i < n; ++i) {
		package_case(i);
	}
}

KIT_CHECK("C29", c29);

/* ---------- C30 ---------- */

struct Mutation
{
	string name;
	/** returns false if it cannot be applied */
	function<bool (pkg::Spec&)> apply;
	/** Allow it in the options; may be empty */
	function<void (dcp::EqualityOptions&)> allow;
};

pkg::Use*
pick_use(pkg::Spec& s, function<bool (pkg::Asset const&, pkg::Use const&)> ok)
{
	vector<pkg::Use*> all;
	for (auto& c: s.cpls) {
		for (auto& r: c.reels) {
			for (auto& u: r.uses) {
				if (ok(s.assets[u.asset], u)) {
					all.push_back(&u);
				}
			}
		}
	}
	return all.empty() ? nullptr : rng.pick(all);
}

pkg::Asset*
pick_asset(pkg::Spec& s, function<bool (pkg::Asset const&)> ok)
{
	auto u = pick_use(s, [&](pkg::Asset const& a, pkg::Use const&) { return ok(a); });
	return u ? &s.assets[u->asset] : nullptr;
}

Mutation
text_mutation(string const& name, function<void (pkg::Text&)> f, bool images = false, function<void (dcp::EqualityOptions&)> allow = {})
{
	return {
		"text-" + name,
		[f, images](pkg::Spec& s) {
			auto a = pick_asset(s, [images](pkg::Asset const& x) { return x.kind == Kind::TEXT && (images || !x.texts[0].image); });
			if (!a) {
				return false;
			}
			f(a->texts[rng.below(a->texts.size())]);
			return true;
		},
		allow
	};
}

Mutation
asset_mutation(string const& name, function<bool (pkg::Asset const&)> ok, function<void (pkg::Asset&)> f, function<void (dcp::EqualityOptions&)> allow = {})
{
	return {
		name,
		[ok, f](pkg::Spec& s) {
			auto a = pick_asset(s, ok);
			if (!a) {
				return false;
			}
			f(*a);
			return true;
		},
		allow
	};
}

Mutation
use_mutation(string const& name, function<bool (pkg::Asset const&, pkg::Use const&)> ok, function<void (pkg::Asset&, pkg::Use&)> f, function<void (dcp::EqualityOptions&)> allow = {})
{
	return {
		name,
		[ok, f](pkg::Spec& s) {
			auto u = pick_use(s, ok);
			if (!u) {
				return false;
			}
			f(s.assets[u->asset], *u);
			return true;
		},
		allow
	};
}

/** Remove one use in a reel */
Mutation
removal(string const& name, function<bool (pkg::Asset const&, pkg::Use const&)> ok)
{
	return {
		"remove-" + name,
		[ok](pkg::Spec& s) {
			auto u = pick_use(s, ok);
			if (!u) {
				return false;
			}
			for (auto& c: s.cpls) {
				for (auto& r: c.reels) {
					for (size_t i = 0; i < r.uses.size(); ++i) {
						if (&r.uses[i] == u && r.uses.size() > 1) {
							r.uses.erase(r.uses.begin() + i);
							return true;
						}
					}
				}
			}
			return false;
		},
		{}
	};
}

bool is_picture(pkg::Asset const& a) { return a.kind == Kind::MONO || a.kind == Kind::STEREO; }

vector<Mutation> const&
mutations()
{
	auto text = [](pkg::Asset const& a) { return a.kind == Kind::TEXT; };
	auto sound = [](pkg::Asset const& a) { return a.kind == Kind::SOUND; };
	auto lax_sound = [](dcp::EqualityOptions& o) { o.sound_assets_can_differ = true; };
	auto lax_picture = [](dcp::EqualityOptions& o) { o.max_mean_pixel_error = 5000; o.max_std_dev_pixel_error = 5000; };
	auto different_picture = [](pkg::Asset& a) { auto& c = a.content[rng.below(a.content.size())]; c = (c + 1 + rng.below(pkg::pictures - 1)) % pkg::pictures; };
	auto role = [](int r) { return [r](pkg::Asset const& a, pkg::Use const& u) { return a.kind == Kind::TEXT && u.role == r; }; };
	static vector<Mutation> const m = {
		{ "cpl-annotation", [](pkg::Spec& s) { auto& c = s.cpls[0]; c.annotation = c.annotation.get_value_or("") + "x"; return true; }, [](dcp::EqualityOptions& o) { o.cpl_annotation_texts_can_differ = true; } },
		{ "cpl-kind", [](pkg::Spec& s) { s.cpls[0].kind = (s.cpls[0].kind + 1) % pkg::kinds().size(); return true; }, {} },
		{ "reel-extra", [](pkg::Spec& s) { s.cpls[0].reels.push_back(s.cpls[0].reels[0]); return true; }, {} },
		{ "cpl-extra", [](pkg::Spec& s) { s.cpls.push_back(s.cpls[0]); return true; }, {} },
		{ "markers-presence", [](pkg::Spec& s) { auto& r = s.cpls[0].reels[rng.below(s.cpls[0].reels.size())]; r.has_markers = !r.has_markers; return true; }, {} },
		{ "markers-value", [](pkg::Spec& s) {
			for (auto& c: s.cpls) {
				for (auto& r: c.reels) {
					if (r.has_markers) {
						auto& v = r.markers[rng.below(12)];
						v = (v + 1 + rng.below(40)) % 48;
						return true;
					}
				}
			}
			return false;
		}, {} },
		use_mutation("entry", [](pkg::Asset const& a, pkg::Use const& u) { return u.entry + std::max(1, u.duration) < a.frames; }, [](pkg::Asset&, pkg::Use& u) { ++u.entry; }),
		use_mutation("duration", [](pkg::Asset const& a, pkg::Use const& u) { return u.duration > 0 && u.entry + u.duration < a.frames; }, [](pkg::Asset&, pkg::Use& u) { ++u.duration; }),
		use_mutation("reel-annotation", [](pkg::Asset const&, pkg::Use const&) { return true; }, [](pkg::Asset&, pkg::Use& u) { u.annotation = u.annotation.get_value_or("") + "x"; }, [](dcp::EqualityOptions& o) { o.reel_annotation_texts_can_differ = true; }),
		removal("picture", [](pkg::Asset const& a, pkg::Use const&) { return is_picture(a); }),
		removal("sound", [](pkg::Asset const& a, pkg::Use const&) { return a.kind == Kind::SOUND; }),
		removal("atmos", [](pkg::Asset const& a, pkg::Use const&) { return a.kind == Kind::ATMOS; }),
		removal("subtitle", role(0)),
		removal("caption", role(1)),
		removal("closed-subtitle", role(2)),
		removal("closed-caption", role(3)),
		asset_mutation("picture-frame", is_picture, different_picture, lax_picture),
		asset_mutation("picture-length", is_picture, [](pkg::Asset& a) { ++a.frames; a.content.push_back(a.content[0]); if (a.kind == Kind::STEREO) { a.content.push_back(a.content[0]); } }),
		asset_mutation("picture-shape", is_picture, [](pkg::Asset& a) { a.shape = (a.shape + 1) % pkg::shapes; }),
		asset_mutation("picture-kind", is_picture, [](pkg::Asset& a) {
			if (a.kind == Kind::MONO) {
				a.kind = Kind::STEREO;
				vector<int> c;
				for (auto i: a.content) { c.push_back(i); c.push_back(i); }
				a.content = c;
			} else {
				a.kind = Kind::MONO;
				a.content.resize(a.frames);
			}
		}),
		asset_mutation("picture-rate", is_picture, [](pkg::Asset& a) { a.rate = 25; }),
		asset_mutation("sound-samples", sound, [](pkg::Asset& a) { ++a.seed; }, lax_sound),
		asset_mutation("sound-one-sample", sound, [](pkg::Asset& a) {
			a.odd_channel = rng.below(a.channels);
			a.odd_index = rng.below(int64_t(a.frames) * 48000 / a.rate);
			a.odd_by = rng.range(1, 3);
		}, [](dcp::EqualityOptions& o) { o.max_audio_sample_error = 3; }),
		asset_mutation("sound-channels", sound, [](pkg::Asset& a) { a.channels = a.channels % 16 + 1; }, lax_sound),
		asset_mutation("sound-length", sound, [](pkg::Asset& a) { ++a.frames; }),
		text_mutation("words", [](pkg::Text& t) { t.text += "x"; }),
		text_mutation("italic", [](pkg::Text& t) { t.italic = !t.italic; }),
		text_mutation("bold", [](pkg::Text& t) { t.bold = !t.bold; }),
		text_mutation("underline", [](pkg::Text& t) { t.underline = !t.underline; }),
		text_mutation("colour", [](pkg::Text& t) { t.colour ^= 1 << rng.below(24); }),
		text_mutation("size", [](pkg::Text& t) { ++t.size; }),
		text_mutation("effect", [](pkg::Text& t) { t.effect = (t.effect + 1) % 3; }),
		text_mutation("effect-colour", [](pkg::Text& t) { t.effect_colour ^= 1 << rng.below(24); }),
		text_mutation("direction", [](pkg::Text& t) { t.direction = (t.direction + 1) % 4; }),
		text_mutation("in", [](pkg::Text& t) { t.in += 3; t.out += 3; }, true),
		text_mutation("out", [](pkg::Text& t) { t.out += 3; }, true),
		text_mutation("fade-up", [](pkg::Text& t) { t.fade += 12; }, true),
		text_mutation("fade-down", [](pkg::Text& t) { t.fade_down += 12; }, true),
		text_mutation("h-align", [](pkg::Text& t) { t.h_align = (t.h_align + 1) % 3; }, true),
		text_mutation("v-align", [](pkg::Text& t) { t.v_align = (t.v_align + 1) % 3; }, true),
		text_mutation("v-position", [](pkg::Text& t) { t.v_position = t.v_position > 50 ? t.v_position - 3 : t.v_position + 3; }, true, [](dcp::EqualityOptions& o) { o.max_text_vertical_position_error = 0.05; }),
		text_mutation("h-position", [](pkg::Text& t) { t.h_align = t.h_align == 1 ? 0 : t.h_align; t.h_position += 7; }, true),
		asset_mutation("text-image", [](pkg::Asset const& a) { return a.kind == Kind::TEXT && a.texts[0].image; }, [](pkg::Asset& a) { a.texts[0].picture = (a.texts[0].picture + 1) % 4; }),
		asset_mutation("text-image-or-string", text, [](pkg::Asset& a) { for (auto& t: a.texts) { t.image = !t.image; } }),
		asset_mutation("text-extra", text, [](pkg::Asset& a) { a.texts.push_back(a.texts.back()); a.texts.back().id = gen::uuid(); a.texts.back().in += 480; a.texts.back().out += 480; }),
		asset_mutation("text-title", text, [](pkg::Asset& a) { a.title += "x"; }),
		asset_mutation("font-extra", [](pkg::Asset const& a) { return a.kind == Kind::TEXT && !a.fonts.empty(); }, [](pkg::Asset& a) { a.fonts.push_back({ "another", "data" }); },
			[](dcp::EqualityOptions& o) { o.load_font_nodes_can_differ = true; }),
	};
	return m;
}

/** Things in the text asset that only SMPTE has */
vector<Mutation> const&
smpte_mutations()
{
	auto text = [](pkg::Asset const& a) { return a.kind == Kind::TEXT; };
	static vector<Mutation> const m = {
		asset_mutation("text-language", text, [](pkg::Asset& a) { a.language = a.language == "en" ? "fr-FR" : "en"; }),
		asset_mutation("text-reel-number", text, [](pkg::Asset& a) { ++a.reel_number; }),
		asset_mutation("text-start", text, [](pkg::Asset& a) { ++a.start; }),
		asset_mutation("text-issue-date", text, [](pkg::Asset& a) { a.issue_date = "2021-02-03T04:05:06+00:00"; }, [](dcp::EqualityOptions& o) { o.issue_dates_can_differ = true; }),
	};
	return m;
}

dcp::EqualityOptions
fresh_options()
{
	/* Things made separately have different ids and so different hashes */
	dcp::EqualityOptions o;
	o.reel_hashes_can_differ = true;
	o.asset_hashes_can_differ = true;
	return o;
}

dcp::EqualityOptions
random_options()
{
	dcp::EqualityOptions o;
	o.max_mean_pixel_error = rng.below(3);
	o.max_std_dev_pixel_error = rng.below(3);
	o.max_audio_sample_error = rng.below(3);
	o.cpl_annotation_texts_can_differ = rng.coin();
	o.reel_annotation_texts_can_differ = rng.coin();
	o.reel_hashes_can_differ = rng.coin();
	o.asset_hashes_can_differ = rng.coin();
	o.issue_dates_can_differ = rng.coin();
	o.load_font_nodes_can_differ = rng.coin();
	o.sound_assets_can_differ = rng.coin();
	o.keep_going = rng.coin();
	o.max_text_vertical_position_error = rng.coin() ? 0 : 0.1;
	return o;
}

bool
verdict(dcp::DCP const& a, dcp::DCP const& b, dcp::EqualityOptions const& o, string const& what)
{
	Notes n;
	bool const r = a.equals(b, o, n.handler());
	EXPECT(r || n.errors, "no-error-note", "unequal without an error note: " << what);
	observed();
	return r;
}

void
equality_case(size_t n, Mutation const& mutation)
{
	pkg::Spec spec, other;
	bool found = false;
	for (int i = 0; i < 60 && !found; ++i) {
		pkg::Limits l;
		l.cpls = 1;
		l.reels = 2;
		l.awkward_names = false;
		spec = pkg::random(l);
		bool const only_smpte = std::any_of(smpte_mutations().begin(), smpte_mutations().end(), [&](Mutation const& m) { return m.name == mutation.name; });
		if (only_smpte && !spec.smpte) {
			continue;
		}
		other = spec;
		found = mutation.apply(other);
	}
	if (!found) {
		count("not applicable");
		return;
	}
	begin_case("equality " + std::to_string(n) + " " + mutation.name + " " + spec.describe());
	auto const da = fresh_dir("eqa"), db = fresh_dir("eqb"), dc = fresh_dir("eqc");
	auto a = pkg::build(spec, da);
	auto b = pkg::build(spec, db);
	auto c = pkg::build(other, dc);

	auto o = fresh_options();
	o.keep_going = rng.coin();
	EXPECT(verdict(*a.dcp, *a.dcp, {}, "itself"), "self", "not equal to itself");
	EXPECT(verdict(*a.dcp, *b.dcp, o, "twin"), "twin", "two packages made alike are unequal");
	EXPECT(verdict(*b.dcp, *a.dcp, o, "twin"), "twin", "two packages made alike are unequal (other order)");
	EXPECT(!verdict(*a.dcp, *c.dcp, o, mutation.name), "missed:" + mutation.name, "difference not noticed" << (o.keep_going ? " with keep_going" : ""));
	EXPECT(!verdict(*c.dcp, *a.dcp, o, mutation.name), "missed-reverse:" + mutation.name, "difference not noticed in reverse order" << (o.keep_going ? " with keep_going" : ""));
	if (mutation.allow) {
		mutation.allow(o);
		EXPECT(verdict(*a.dcp, *c.dcp, o, mutation.name), "permitted:" + mutation.name, "difference which is permitted makes them unequal");
		EXPECT(verdict(*c.dcp, *a.dcp, o, mutation.name), "permitted:" + mutation.name, "difference which is permitted makes them unequal (other order)");
		count("permitted differences");
	}

	/* Asset by asset, including those of other kinds */
	for (int k = 0; k < 6; ++k) {
		auto x = rng.pick(a.assets);
		auto y = rng.pick(c.assets);
		Notes nx, ny;
		bool const xy = x->equals(y, o, nx.handler());
		bool const yx = y->equals(x, o, ny.handler());
		EXPECT(xy == yx, "asset-order", "verdict of comparing " << kind_name(x) << " with " << kind_name(y) << " depends on the order");
		EXPECT(xy || nx.errors, "asset-no-note", "unequal without note: " << kind_name(x) << " and " << kind_name(y));
		EXPECT(!xy || kind_name(x) == kind_name(y), "asset-kinds", kind_name(x) << " equal to " << kind_name(y));
		observed();
	}

	/* A copy, under all sorts of options */
	dcp::DCP r1((bfs::path(da))), r2((bfs::path(da)));
	r1.read();
	r2.read();
	give_keys(r1, spec);
	give_keys(r2, spec);
	for (int k = 0; k < 3; ++k) {
		EXPECT(verdict(r1, r2, random_options(), "copy"), "copy", "a copy is not equal");
	}
	count("compared " + mutation.name);
	remove_tree(da);
	remove_tree(db);
	remove_tree(dc);
}

/** Everything a single text has */
struct Attributes
{
	optional<string> font;
	bool italic = rng.coin(), bold = rng.coin(), underline = rng.coin();
	dcp::Colour colour, effect_colour;
	int size = rng.range(1, 100);
	float aspect = rng.range(5, 20) / 10.0f;
	int in = rng.below(100000), out = rng.below(100000), up = rng.below(100), down = rng.below(100);
	float h = rng.below(100) / 100.0f, v = rng.below(100) / 100.0f, z = rng.range(-100, 100) / 100.0f;
	int h_align = rng.below(3), v_align = rng.below(3), direction = rng.below(4), effect = rng.below(3);
	vector<dcp::Text::VariableZPosition> vz;
	string text = gen::text();
	float space = rng.range(-20, 20) / 10.0f;
	vector<dcp::Ruby> rubies;
	string png = "png" + gen::text(), id = gen::uuid();

	dcp::Time time(int units) const { return dcp::Time(units, 250, 250); }

	dcp::TextString as_string() const
	{
		return dcp::TextString(
			font, italic, bold, underline, colour, size, aspect, time(in), time(out), h, dcp::HAlign(h_align), v, dcp::VAlign(v_align), z, vz,
			dcp::Direction(direction), text, dcp::Effect(effect), effect_colour, time(up), time(down), space, rubies
			);
	}

	dcp::TextImage as_image() const
	{
		return dcp::TextImage(
			dcp::ArrayData(reinterpret_cast<uint8_t const*>(png.data()), png.size()), id, time(in), time(out), h, dcp::HAlign(h_align), v, dcp::VAlign(v_align), z, vz,
			time(up), time(down)
			);
	}
};

/** @param strings true if strings have the attribute; likewise images */
struct Alteration
{
	string name;
	function<void (Attributes&)> apply;
	bool strings, images;
};

vector<Alteration> const&
alterations()
{
	auto shift = [](float v) { return rng.coin() ? v + 0.25f : v - 0.25f; };
	auto ruby = [](Attributes& a) -> dcp::Ruby& { return a.rubies[rng.below(a.rubies.size())]; };
	static vector<Alteration> const m = {
		{ "font", [](Attributes& a) { a.font = a.font.get_value_or("") + "x"; }, true, false },
		{ "no-font", [](Attributes& a) { if (a.font) { a.font = boost::none; } else { a.font = string(""); } }, true, false },
		{ "italic", [](Attributes& a) { a.italic = !a.italic; }, true, false },
		{ "bold", [](Attributes& a) { a.bold = !a.bold; }, true, false },
		{ "underline", [](Attributes& a) { a.underline = !a.underline; }, true, false },
		{ "red", [](Attributes& a) { a.colour.r ^= 1 << rng.below(8); }, true, false },
		{ "green", [](Attributes& a) { a.colour.g ^= 1 << rng.below(8); }, true, false },
		{ "blue", [](Attributes& a) { a.colour.b ^= 1 << rng.below(8); }, true, false },
		{ "effect-colour", [](Attributes& a) { a.effect_colour.b ^= 1 << rng.below(8); }, true, false },
		{ "size", [](Attributes& a) { ++a.size; }, true, false },
		{ "aspect", [shift](Attributes& a) { a.aspect = shift(a.aspect); }, true, false },
		{ "in", [](Attributes& a) { ++a.in; }, true, true },
		{ "out", [](Attributes& a) { ++a.out; }, true, true },
		{ "fade-up", [](Attributes& a) { ++a.up; }, true, true },
		{ "fade-down", [](Attributes& a) { ++a.down; }, true, true },
		{ "h-position", [shift](Attributes& a) { a.h = shift(a.h); }, true, true },
		{ "v-position", [shift](Attributes& a) { a.v = shift(a.v); }, true, true },
		{ "z-position", [shift](Attributes& a) { a.z = shift(a.z); }, true, true },
		{ "h-align", [](Attributes& a) { a.h_align = (a.h_align + 1 + rng.below(2)) % 3; }, true, true },
		{ "v-align", [](Attributes& a) { a.v_align = (a.v_align + 1 + rng.below(2)) % 3; }, true, true },
		{ "direction", [](Attributes& a) { a.direction = (a.direction + 1 + rng.below(3)) % 4; }, true, false },
		{ "effect", [](Attributes& a) { a.effect = (a.effect + 1 + rng.below(2)) % 3; }, true, false },
		{ "variable-z-extra", [](Attributes& a) { a.vz.push_back({0.5f, 7}); }, true, true },
		{ "variable-z-position", [shift](Attributes& a) { auto& z = a.vz[rng.below(a.vz.size())]; z.position = shift(z.position); }, true, true },
		{ "variable-z-duration", [](Attributes& a) { ++a.vz[rng.below(a.vz.size())].duration; }, true, true },
		{ "words", [](Attributes& a) { a.text += "x"; }, true, false },
		{ "space", [shift](Attributes& a) { a.space = shift(a.space); }, true, false },
		{ "ruby-extra", [](Attributes& a) { a.rubies.push_back({"b", "a"}); }, true, false },
		{ "ruby-base", [ruby](Attributes& a) { ruby(a).base += "x"; }, true, false },
		{ "ruby-annotation", [ruby](Attributes& a) { ruby(a).annotation += "x"; }, true, false },
		{ "ruby-size", [ruby, shift](Attributes& a) { auto& r = ruby(a); r.size = shift(r.size); }, true, false },
		{ "ruby-position", [ruby](Attributes& a) { auto& r = ruby(a); r.position = r.position == dcp::RubyPosition::BEFORE ? dcp::RubyPosition::AFTER : dcp::RubyPosition::BEFORE; }, true, false },
		{ "ruby-offset", [ruby, shift](Attributes& a) { auto& r = ruby(a); r.offset = shift(r.offset); }, true, false },
		{ "ruby-spacing", [ruby, shift](Attributes& a) { auto& r = ruby(a); r.spacing = shift(r.spacing); }, true, false },
		{ "ruby-aspect", [ruby, shift](Attributes& a) { auto& r = ruby(a); r.aspect_adjust = shift(r.aspect_adjust); }, true, false },
		{ "image", [](Attributes& a) { a.png += "x"; }, false, true },
	};
	return m;
}

Attributes
attributes()
{
	Attributes a;
	if (rng.coin()) {
		a.font = rng.pick({string("f"), string("another"), string("")});
	}
	a.colour = dcp::Colour(rng.below(256), rng.below(256), rng.below(256));
	a.effect_colour = dcp::Colour(rng.below(256), rng.below(256), rng.below(256));
	for (int i = 0, n = rng.range(1, 3); i < n; ++i) {
		a.vz.push_back({rng.range(-100, 100) / 10.0f, int64_t(rng.range(1, 500))});
		dcp::Ruby r(gen::text(), gen::text());
		r.size = rng.range(1, 20) / 10.0f;
		r.position = rng.coin() ? dcp::RubyPosition::BEFORE : dcp::RubyPosition::AFTER;
		r.offset = rng.range(-10, 10) / 10.0f;
		r.spacing = rng.range(-10, 10) / 10.0f;
		r.aspect_adjust = rng.range(5, 20) / 10.0f;
		a.rubies.push_back(r);
	}
	return a;
}

/** Both ways of comparing, in both orders */
template <class T>
void
compare_texts(T const& a, T const& b, bool same, string const& name)
{
	EXPECT((a == b) == same, "text:" + name, "operator== says " << (a == b));
	EXPECT((b == a) == same, "text-reverse:" + name, "operator== says " << (b == a));
	EXPECT((a != b) != same, "text-unequal:" + name, "operator!= says " << (a != b));
	auto const p = make_shared<T>(a), q = make_shared<T>(b);
	Notes m, n;
	bool const pq = p->equals(q, {}, m.handler());
	bool const qp = q->equals(p, {}, n.handler());
	EXPECT(pq == same, "text-equals:" + name, "equals() says " << pq << " " << m.last);
	EXPECT(qp == same, "text-equals-reverse:" + name, "equals() says " << qp << " " << n.last);
	EXPECT((pq || m.errors) && (qp || n.errors), "text-note:" + name, "unequal without an error note");
	EXPECT(!same || (!m.errors && !n.errors), "text-equal-note:" + name, "equal with an error note");
	observed(7);
}

void
text_case(size_t n, Alteration const& alteration)
{
	auto const a = attributes();
	begin_case("single text " + std::to_string(n) + " " + alteration.name + " " + a.id);
	auto b = a;
	compare_texts(a.as_string(), b.as_string(), true, "copy");
	compare_texts(a.as_image(), b.as_image(), true, "image-copy");
	alteration.apply(b);
	compare_texts(a.as_string(), b.as_string(), !alteration.strings, alteration.name);
	compare_texts(a.as_image(), b.as_image(), !alteration.images, "image-" + alteration.name);

	auto const s = make_shared<dcp::TextString>(a.as_string());
	auto const i = make_shared<dcp::TextImage>(a.as_image());
	Notes x, y;
	EXPECT(!s->equals(i, {}, x.handler()) && x.errors, "text-kinds", "a string equals an image");
	EXPECT(!i->equals(s, {}, y.handler()) && y.errors, "text-kinds", "an image equals a string");
	count("single texts");
}

void
c30()
{
	rule("packages built twice from one description, and once with a single difference of a named kind; both orders; permitted by option or not");
	gen::init();
	vector<Mutation> all = mutations();
	auto const& s = smpte_mutations();
	all.insert(all.end(), s.begin(), s.end());
	auto const n = budget(240, 5000);
	for (size_t i = 0; i < n; ++i) {
		equality_case(i, all[(i * opt.shards + opt.shard) % all.size()]);
	}
	auto const texts = budget(3600, 100000);
	for (size_t i = 0; i < texts; ++i) {
		text_case(i, alterations()[i % alterations().size()]);
	}
}

KIT_CHECK("C30", c30);

/* ---------- C33 ---------- */

std::map<string, string>
snapshot(string const& dir)
{
	std::map<string, string> out;
	for (auto const& f: pkg::files_in(dir)) {
		out[f] = pkg::sha1(dir + "/" + f);
	}
	return out;
}

/** Move the fonts of an interop subtitle to directories of their own so that they have the same filename */
bool
clash_fonts(string const& dir, pkg::Spec const& spec)
{
	bool done = false;
	for (auto const& a: spec.assets) {
		if (a.kind != Kind::TEXT || a.fonts.size() < 2) {
			continue;
		}
		auto const sub = dir + "/" + a.file;
		auto const parent = bfs::path(sub).parent_path().string();
		auto xml = read_file(sub);
		auto const old_hash = pkg::sha1(sub);
		auto const old_size = xml.size();
		auto map = read_file(dir + "/ASSETMAP");
		for (size_t i = 0; i < a.fonts.size(); ++i) {
			auto const from = "font_" + std::to_string(i) + ".ttf";
			auto const to = "d" + std::to_string(i) + "/font.ttf";
			auto const p = xml.find(from);
			if (p == string::npos || !file_exists(parent + "/" + from)) {
				return done;
			}
			xml.replace(p, from.size(), to);
			bfs::create_directories(parent + "/d" + std::to_string(i));
			bfs::rename(parent + "/" + from, parent + "/" + to);
			auto const relative = bfs::path(a.file).parent_path().string() + "/" + from;
			auto const q = map.find(relative);
			map.replace(q, relative.size(), bfs::path(a.file).parent_path().string() + "/" + to);
		}
		write_file(sub, xml);
		write_file(dir + "/ASSETMAP", map);
		for (auto const& f: pkg::files_in(dir)) {
			if (f.find("pkl_") == 0 || f.find("cpl_") == 0) {
				auto text = read_file(dir + "/" + f);
				size_t p;
				while ((p = text.find(old_hash)) != string::npos) {
					text.replace(p, old_hash.size(), pkg::sha1(sub));
				}
				auto const size = "<Size>" + std::to_string(old_size) + "</Size>";
				if ((p = text.find(size)) != string::npos) {
					text.replace(p, size.size(), "<Size>" + std::to_string(xml.size()) + "</Size>");
				}
				write_file(dir + "/" + f, text);
			}
		}
		done = true;
	}
	return done;
}

void
combine_case(size_t n)
{
	pkg::Limits limits;
	limits.reels = 2;
	int const inputs = rng.range(1, 4);
	bool const smpte = rng.coin();
	bool const mixed = inputs > 1 && rng.chance(0.08);
	vector<pkg::Spec> specs;
	for (int i = 0; i < inputs; ++i) {
		pkg::Spec s;
		do {
			s = pkg::random(limits);
		} while (s.smpte != (mixed && i == inputs - 1 ? !smpte : smpte));
		specs.push_back(s);
	}
	string d;
	for (auto const& s: specs) {
		d += " {" + s.describe() + "}";
	}
	begin_case("combine " + std::to_string(n) + d);
	auto const top = fresh_dir("combine");
	vector<string> dirs;
	vector<bfs::path> paths;
	std::map<string, pkg::Asset const*> want;
	std::map<string, string> want_hash;
	std::set<string> cpl_ids;
	for (int i = 0; i < inputs; ++i) {
		auto const dir = top + "/in" + std::to_string(i);
		bfs::create_directories(dir);
		auto b = pkg::build(specs[i], dir, false);
		/* Sometimes something from an earlier package, in a copy of the file */
		if (i && !mixed && rng.coin()) {
			auto earlier = dirs[rng.below(dirs.size())];
			vector<string> mxf;
			for (auto const& f: pkg::files_in(earlier)) {
				if (f.size() > 4 && f.substr(f.size() - 4) == ".mxf") {
					mxf.push_back(f);
				}
			}
			if (!mxf.empty()) {
				auto const to = dir + "/shared.mxf";
				bfs::copy_file(earlier + "/" + rng.pick(mxf), to);
				auto asset = dcp::asset_factory(to, false);
				auto reel = make_shared<dcp::Reel>();
				if (auto p = dynamic_pointer_cast<dcp::MonoJ2KPictureAsset>(asset)) {
					reel->add(make_shared<dcp::ReelMonoPictureAsset>(p, 0));
				} else if (auto s = dynamic_pointer_cast<dcp::SoundAsset>(asset)) {
					reel->add(make_shared<dcp::ReelSoundAsset>(s, 0));
				}
				if (!reel->file_assets().empty()) {
					auto cpl = make_shared<dcp::CPL>("shared", dcp::ContentKind::SHORT, smpte ? dcp::Standard::SMPTE : dcp::Standard::INTEROP);
					cpl->add(reel);
					b.dcp->add(cpl);
					b.cpls.push_back(cpl);
					count("shared assets");
				} else {
					bfs::remove(to);
				}
			}
		}
		b.dcp->write_xml();
		for (auto c: b.cpls) {
			cpl_ids.insert(c->id());
		}
		for (size_t k = 0; k < b.assets.size(); ++k) {
			want[b.assets[k]->id()] = &specs[i].assets[k];
			want_hash[b.assets[k]->id()] = pkg::sha1(dir + "/" + specs[i].assets[k].file);
		}
		if (!specs[i].smpte && rng.chance(0.4) && clash_fonts(dir, specs[i])) {
			count("fonts with the same name");
		}
		dirs.push_back(dir);
		paths.push_back(dir);
	}
	/* The same package given twice */
	bool const twice = !mixed && rng.chance(0.1);
	if (twice) {
		paths.push_back(paths[0]);
	}
	vector<std::map<string, string>> before;
	for (auto const& i: dirs) {
		before.push_back(snapshot(i));
	}

	auto const out = top + "/out";
	bool threw = false;
	try {
		dcp::combine(paths, out, "issuer", "creator", "2020-01-01T00:00:00+00:00", "annotation");
	} catch (dcp::CombineError&) {
		threw = true;
	}
	EXPECT(threw == mixed, "mixed-standards", (mixed ? "mixture accepted" : "refused"));
	for (size_t i = 0; i < dirs.size(); ++i) {
		EXPECT(snapshot(dirs[i]) == before[i], "input-modified", "input " << i << " changed");
	}
	if (mixed) {
		EXPECT(pkg::files_in(out).empty(), "mixed-output", "something was written for a refused combination");
		remove_tree(top);
		count("refused");
		return;
	}

	pkg::check_lists(out, smpte, twice ? "twice-lists" : "lists");
	dcp::DCP r((bfs::path(out)));
	r.read();
	std::set<string> have;
	for (auto c: r.cpls()) {
		have.insert(c->id());
	}
	EXPECT(have == cpl_ids, "cpls", have.size() << " CPLs rather than " << cpl_ids.size());
	for (auto const& s: specs) {
		give_keys(r, s);
	}
	std::set<string> got;
	for (auto c: r.cpls()) {
		for (auto a: c->reel_file_assets()) {
			EXPECT(a->asset_ref().resolved(), "unresolved", a->asset_ref().id());
			if (a->asset_ref().resolved() && a->hash()) {
				auto const file = a->asset_ref().asset()->file()->string();
				EXPECT(*a->hash() == pkg::sha1(file), "reel-hash", "hash in CPL is not that of " << bfs::path(file).filename().string());
			}
		}
	}
	for (auto a: r.assets(true)) {
		auto i = want.find(a->id());
		if (i != want.end()) {
			got.insert(a->id());
			pkg::check_content(*i->second, a, "combined");
			if (i->second->kind != Kind::TEXT || smpte) {
				EXPECT(pkg::sha1(a->file()->string()) == want_hash[a->id()], "content", "content of " << a->file()->string() << " is not that of the input");
			}
		}
	}
	EXPECT(got.size() == want.size(), "assets", got.size() << " assets rather than " << want.size());
	count("combined");
	if (twice) {
		count("same input twice");
	}
	remove_tree(top);
}

void
c33()
{
	rule("1-4 random packages with clashing names and shared assets combined; lists recomputed from the files, content by id, inputs compared before and after");
	gen::init();
	auto const n = budget(160, 4000);
	for (size_t i = 0; i < n; ++i) {
		combine_case(i);
	}
}

KIT_CHECK("C33", c33);

/* ---------- C39 ---------- */

void
query_case(size_t n)
{
	auto spec = pkg::random({});
	/* Often, share keys between assets */
	if (rng.coin()) {
		pkg::Crypt const* first = nullptr;
		for (auto& a: spec.assets) {
			if (a.crypt.on) {
				if (first && rng.coin()) {
					a.crypt = *first;
				} else {
					first = &a.crypt;
				}
			}
		}
	}
	auto const dir = fresh_dir("query");
	begin_case("queries " + std::to_string(n) + " " + spec.describe());
	auto built = pkg::build(spec, dir);
	auto const asset_ids = ids(built.assets);
	vector<string> cpl_ids;
	for (auto c: built.cpls) {
		cpl_ids.push_back(c->id());
	}

	auto check = [&](dcp::DCP const& d, string const& when) {
		check_structure(d, spec, asset_ids, cpl_ids, "query");
		bool any_of_all = false, all_of_all = true;
		for (size_t c = 0; c < spec.cpls.size(); ++c) {
			shared_ptr<dcp::CPL> cpl;
			for (auto i: d.cpls()) {
				if (i->id() == cpl_ids[c]) {
					cpl = i;
				}
			}
			if (!cpl) {
				continue;
			}
			bool any = false, all = true;
			int64_t duration = 0;
			std::multiset<string> want, have;
			for (auto const& r: spec.cpls[c].reels) {
				int64_t reel = INT64_MAX;
				bool picture = false;
				for (auto const& u: r.uses) {
					auto const& a = spec.assets[u.asset];
					any = any || a.crypt.on;
					all = all && a.crypt.on;
					want.insert(asset_ids[u.asset]);
					int64_t const actual = u.duration ? u.duration : a.frames - u.entry;
					if (is_picture(a)) {
						reel = actual;
						picture = true;
					} else if (!picture) {
						reel = std::min(reel, actual);
					}
				}
				if (!picture && r.has_markers) {
					reel = std::min<int64_t>(reel, 48);
				}
				duration += reel;
			}
			for (auto a: cpl->reel_file_assets()) {
				have.insert(a->asset_ref().id());
			}
			EXPECT(want == have, "file-assets", have.size() << " rather than " << want.size() << " " << when);
			EXPECT(cpl->any_encrypted() == any, "any-encrypted", cpl->any_encrypted() << " " << when);
			EXPECT(cpl->all_encrypted() == all, "all-encrypted", cpl->all_encrypted() << " " << when);
			EXPECT(cpl->duration() == duration, "duration", cpl->duration() << " rather than " << duration << " " << when);
			auto reels = cpl->reels();
			for (size_t r = 0; r < std::min(reels.size(), spec.cpls[c].reels.size()); ++r) {
				int roles[4] = { 0, 0, 0, 0 };
				bool picture = false, sound = false, atmos = false;
				for (auto const& u: spec.cpls[c].reels[r].uses) {
					auto const kind = spec.assets[u.asset].kind;
					picture = picture || is_picture(spec.assets[u.asset]);
					sound = sound || kind == Kind::SOUND;
					atmos = atmos || kind == Kind::ATMOS;
					if (kind == Kind::TEXT) {
						++roles[u.role];
					}
				}
				auto x = reels[r];
				EXPECT(bool(x->main_picture()) == picture && bool(x->main_sound()) == sound && bool(x->atmos()) == atmos && bool(x->main_subtitle()) == bool(roles[0]) && bool(x->main_caption()) == bool(roles[1])
				       && int(x->closed_subtitles().size()) == roles[2] && int(x->closed_captions().size()) == roles[3], "reel-contents", "reel " << r << " " << when);
			}
			any_of_all = any_of_all || any;
			all_of_all = all_of_all && all;
		}
		EXPECT(d.any_encrypted() == any_of_all, "dcp-any-encrypted", when);
		EXPECT(d.all_encrypted() == all_of_all, "dcp-all-encrypted", when);
		observed();
	};
	check(*built.dcp, "as built");

	dcp::DCP d((bfs::path(dir)));
	d.read();
	check(d, "as read");

	for (auto const& s: d.cpl_summaries()) {
		for (size_t c = 0; c < spec.cpls.size(); ++c) {
			if (cpl_ids[c] == s.cpl_id) {
				bool any = false;
				for (auto const& r: spec.cpls[c].reels) {
					for (auto const& u: r.uses) {
						any = any || spec.assets[u.asset].crypt.on;
					}
				}
				EXPECT(s.encrypted == any, "summary-encrypted", s.encrypted);
			}
		}
	}
	EXPECT(d.cpl_summaries().size() == spec.cpls.size(), "summaries", d.cpl_summaries().size());

	/* Some of the keys, for one of the CPLs */
	auto const all_assets = d.assets();
	std::set<string> given;
	auto const which = rng.below(spec.cpls.size());
	dcp::DecryptedKDM kdm(dcp::LocalTime("2020-01-01T00:00:00+00:00"), dcp::LocalTime("2030-01-01T00:00:00+00:00"), string("a"), string("b"), "2020-01-01T00:00:00+00:00");
	auto const standard = spec.smpte ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
	for (auto const& a: spec.assets) {
		if (a.crypt.on && rng.chance(0.6)) {
			kdm.add_key(string("MDIK"), a.crypt.key_id, dcp::Key(a.crypt.key), cpl_ids[which], standard);
			given.insert(a.crypt.key_id);
		}
	}
	/* and something else */
	kdm.add_key(string("MDAK"), gen::uuid(), dcp::Key(hex(rng.bytes(16))), cpl_ids[which], standard);
	bool const before_resolve = rng.coin();
	shared_ptr<dcp::DCP> target = make_shared<dcp::DCP>(bfs::path(dir));
	if (before_resolve) {
		/* as for a CPL whose assets are found later */
		auto const vf = fresh_dir("vf");
		for (auto cpl: built.cpls) {
			target->add(make_shared<dcp::CPL>(*cpl->file()));
		}
		for (auto cpl: target->cpls()) {
			for (auto a: cpl->reel_file_assets()) {
				EXPECT(!a->asset_ref().resolved(), "resolved-early", a->asset_ref().id());
			}
		}
		target->add(kdm);
		target->resolve_refs(all_assets);
		for (auto cpl: target->cpls()) {
			for (auto a: cpl->reel_file_assets()) {
				EXPECT(a->asset_ref().resolved(), "not-resolved", a->asset_ref().id());
				if (a->asset_ref().resolved()) {
					EXPECT(a->asset_ref().asset()->id() == a->asset_ref().id(), "resolved-wrongly", a->asset_ref().id() << " to " << a->asset_ref().asset()->id());
				}
			}
		}
		remove_tree(vf);
		count("resolved later");
	} else {
		target->read();
		target->add(kdm);
	}
	std::set<size_t> in_cpl;
	for (auto const& r: spec.cpls[which].reels) {
		for (auto const& u: r.uses) {
			in_cpl.insert(u.asset);
		}
	}
	for (size_t i = 0; i < spec.assets.size(); ++i) {
		auto const& a = spec.assets[i];
		auto asset = find(target->assets(), asset_ids[i]);
		auto mxf = dynamic_pointer_cast<dcp::MXF>(asset);
		if (!mxf) {
			continue;
		}
		EXPECT(mxf->encrypted() == a.crypt.on, "asset-encrypted", a.file);
		if (a.crypt.on) {
			EXPECT(mxf->key_id() == a.crypt.key_id, "asset-key-id", a.file);
		}
		bool const expect = a.crypt.on && given.count(a.crypt.key_id) && in_cpl.count(i);
		EXPECT(bool(mxf->key()) == expect, expect ? "key-not-delivered" : "key-delivered", kind_name(asset) << " " << a.file << (expect ? " should have been given its key" : " was given a key"));
		if (mxf->key() && expect) {
			EXPECT(mxf->key()->hex() == a.crypt.key, "wrong-key", a.file);
		}
		if (!a.crypt.on || mxf->key()) {
			pkg::check_content(a, asset, "readable");
		}
		count(expect ? "keys delivered" : "no key");
	}
	remove_tree(dir);
}

void
c39()
{
	rule("random packages of both standards with every kind of asset and partly shared keys; answers computed from the description; partial KDMs for one CPL, before or after references are resolved");
	gen::init();
	auto const n = budget(320, 8000);
	for (size_t i = 0; i < n; ++i) {
		query_case(i);
	}
}

KIT_CHECK("C39", c39);

/* ---------- C41 ---------- */

/** Make directories with and without asset maps below dir; note in `want` those which should be found */
void
grow_tree(string const& dir, int depth, bool visible, std::multiset<string>& want, vector<string>& closed)
{
	bool found = false;
	if (rng.chance(depth == 0 ? 0.03 : 0.25)) {
		auto const name = rng.pick({string("ASSETMAP"), string("ASSETMAP.xml")});
		write_file(dir + "/" + name, rng.coin() ? "" : "<AssetMap/>");
		if (rng.chance(0.1)) {
			write_file(dir + "/ASSETMAP", "");
			write_file(dir + "/ASSETMAP.xml", "");
		}
		found = true;
	} else if (rng.chance(0.4)) {
		write_file(dir + "/" + rng.pick({string("ASSETMAP.XML"), string("assetmap"), string("ASSETMAP.xml.bak"), string("ASSETMAP2"), string("VOLINDEX"), string("pkl.xml"), string("XASSETMAP")}), "x");
	}
	bool const shut = !found && depth > 0 && rng.chance(0.08);
	if (found && visible) {
		want.insert(dir);
		count(depth > 1 ? "deep packages" : "shallow packages");
	}
	if (depth < 6) {
		for (int i = 0, n = rng.below(depth < 2 ? 5 : 3); i < n; ++i) {
			auto const sub = dir + "/" + rng.pick({string("d"), string("a b"), string("\xc3\xa9"), string(".hidden"), string("x.mxf")}) + std::to_string(i);
			bfs::create_directory(sub);
			grow_tree(sub, depth + 1, visible && !found && !shut, want, closed);
		}
	}
	if (shut) {
		closed.push_back(dir);
		count("closed directories");
	}
}

void
find_case(size_t n)
{
	auto const dir = fresh_dir("find");
	std::multiset<string> want, have;
	vector<string> closed;
	grow_tree(dir, 0, true, want, closed);
	begin_case("find " + std::to_string(n) + " packages " + std::to_string(want.size()) + " closed " + std::to_string(closed.size()) + " seed " + std::to_string(rng.next()), !want.empty());
	/* Innermost come first */
	for (auto const& i: closed) {
		bfs::permissions(i, bfs::no_perms);
	}
	for (auto const& i: dcp::find_potential_dcps(dir)) {
		have.insert(i.string());
	}
	for (auto i = closed.rbegin(); i != closed.rend(); ++i) {
		bfs::permissions(*i, bfs::owner_all);
	}
	for (auto const& i: want) {
		EXPECT(have.count(i) == want.count(i), "not-found", i << " found " << have.count(i) << " times");
	}
	for (auto const& i: have) {
		EXPECT(want.count(i), "wrongly-found", i);
	}
	observed();
	remove_tree(dir);
}

/** Take the block about an asset out of an XML list; @return the block */
string
take_block(string const& file, string const& id)
{
	auto xml = read_file(file);
	auto const at = xml.find("<Id>urn:uuid:" + id + "</Id>");
	if (at == string::npos) {
		harness_error("no block for an asset");
	}
	auto const from = xml.rfind("<Asset>", at);
	auto const end = string("</Asset>");
	auto const to = xml.find(end, at) + end.length();
	auto const block = xml.substr(from, to - from);
	xml.erase(from, to - from);
	write_file(file, xml);
	return block;
}

void
put_block(string const& file, string const& block)
{
	auto xml = read_file(file);
	auto const at = xml.find("</AssetList>");
	if (at == string::npos) {
		harness_error("no asset list");
	}
	xml.insert(at, block);
	write_file(file, xml);
}

string
pkl_in(string const& dir)
{
	for (auto const& f: pkg::files_in(dir)) {
		if (f.find("pkl_") == 0) {
			return dir + "/" + f;
		}
	}
	harness_error("no PKL");
	return {};
}

void
resolve_case(size_t n)
{
	int const packages = rng.range(1, 3);
	bool const smpte = rng.coin();
	vector<pkg::Spec> specs;
	vector<pkg::Built> built;
	vector<string> dirs;
	string description;
	for (int i = 0; i < packages; ++i) {
		pkg::Limits l;
		l.reels = 2;
		l.encrypt = false;
		l.awkward_names = false;
		pkg::Spec s;
		do {
			s = pkg::random(l);
		} while (s.smpte != smpte);
		/* Another CPL with some of the same content, perhaps to go to another package */
		auto extra = s.cpls[rng.below(s.cpls.size())];
		extra.title += " version";
		s.cpls.push_back(extra);
		description += " " + s.describe();
		specs.push_back(s);
	}
	bool const leave_out = packages > 1 && rng.chance(0.25);
	bool const fault = rng.chance(0.25);
	begin_case("resolve " + std::to_string(n) + (leave_out ? " one left out" : "") + (fault ? " faulty" : "") + description, packages > 1);

	/* asset id: directory it is really in, asset */
	std::map<string, std::pair<int, pkg::Asset const*>> where;
	std::map<string, int> cpl_in;
	for (int i = 0; i < packages; ++i) {
		dirs.push_back(fresh_dir("resolve" + std::to_string(i)));
		built.push_back(pkg::build(specs[i], dirs[i]));
		for (size_t a = 0; a < specs[i].assets.size(); ++a) {
			where[built[i].assets[a]->id()] = { i, &specs[i].assets[a] };
		}
		for (auto c: built[i].cpls) {
			cpl_in[c->id()] = i;
		}
	}
	auto const map_name = smpte ? "/ASSETMAP.xml" : "/ASSETMAP";
	/* Only those which are used are in the package */
	std::set<string> used;
	for (auto const& b: built) {
		for (auto c: b.cpls) {
			for (auto a: c->reel_file_assets()) {
				used.insert(a->asset_ref().id());
			}
		}
	}
	for (int from = 0; from < packages; ++from) {
		if (packages == 1 || rng.chance(0.2)) {
			continue;
		}
		int const to = (from + 1 + rng.below(packages - 1)) % packages;
		auto const id = built[from].cpls.back()->id();
		put_block(dirs[to] + map_name, take_block(dirs[from] + map_name, id));
		put_block(pkl_in(dirs[to]), take_block(pkl_in(dirs[from]), id));
		auto const file = built[from].cpls.back()->file();
		bfs::rename(*file, dirs[to] + "/" + file->filename().string());
		cpl_in[id] = to;
		count("CPLs moved to another package");
	}

	vector<int> order;
	for (int i = 0; i < packages; ++i) {
		order.push_back(i);
	}
	for (int i = packages - 1; i > 0; --i) {
		std::swap(order[i], order[rng.below(i + 1)]);
	}
	if (leave_out) {
		order.pop_back();
	}
	auto const missing = dirs[0] + "_absent/below";
	vector<bfs::path> paths;
	for (auto i: order) {
		if (rng.chance(0.3)) {
			paths.push_back(missing);
		}
		paths.push_back(dirs[i]);
	}
	auto given = [&](int i) { return std::find(order.begin(), order.end(), i) != order.end(); };

	optional<string> broken;
	if (fault) {
		/* Remove a file which an asset map says is there */
		for (auto const& i: where) {
			if (given(i.second.first) && used.count(i.first)) {
				broken = i.first;
				bfs::remove(dirs[i.second.first] + "/" + i.second.second->file);
				break;
			}
		}
	}

	bool const tolerant = rng.coin();
	vector<shared_ptr<dcp::CPL>> cpls;
	bool refused = false;
	try {
		cpls = dcp::find_and_resolve_cpls(paths, tolerant);
	} catch (dcp::ReadError& e) {
		refused = true;
		EXPECT(broken && !tolerant, "refused", "tolerant " << tolerant << " " << e.what());
	}
	EXPECT(!file_exists(dirs[0] + "_absent"), "made-directory", "a directory which did not exist was made");
	EXPECT(refused || !broken || tolerant, "faulty-accepted", "package with missing file accepted");
	if (!refused) {
		std::multiset<string> want, have;
		for (auto const& i: cpl_in) {
			if (given(i.second)) {
				want.insert(i.first);
			}
		}
		for (auto c: cpls) {
			have.insert(c->id());
			for (auto a: c->reel_file_assets()) {
				auto const id = a->asset_ref().id();
				auto const home = where.find(id);
				if (home == where.end()) {
					violation("odd-asset", id);
					continue;
				}
				bool const outside = home->second.first != cpl_in[c->id()];
				bool const expect = given(home->second.first) && id != broken.get_value_or("");
				EXPECT(a->asset_ref().resolved() == expect, expect ? "unresolved" : "resolved", id << (outside ? " in another package" : " in the same package"));
				if (expect && a->asset_ref().resolved()) {
					EXPECT(a->asset_ref().asset()->id() == id, "resolved-wrongly", id);
					pkg::check_content(*home->second.second, a->asset_ref().asset(), "resolved");
					count(outside ? "references to other packages" : "references within a package");
				}
				observed();
			}
		}
		EXPECT(want == have, "cpls", have.size() << " CPLs rather than " << want.size());
	} else {
		count("refused");
	}
	for (auto const& d: dirs) {
		remove_tree(d);
	}
}

void
c41()
{
	rule("random trees with asset maps at any depth, near misses in name and directories without permissions; packages with CPLs that use content of one another, given in any order, some left out, with directories that do not exist");
	gen::init();
	auto const n = budget(400, 8000);
	for (size_t i = 0; i < n; ++i) {
		find_case(i);
		if (i % 2 == 0) {
			resolve_case(i);
		}
	}
}

KIT_CHECK("C41", c41);

}
