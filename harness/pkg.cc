#include "pkg.h"
#include "gen.h"
#include "kit.h"
#include "atmos_asset.h"
#include "atmos_asset_reader.h"
#include "atmos_asset_writer.h"
#include "atmos_frame.h"
#include "cpl.h"
#include "dcp.h"
#include "interop_text_asset.h"
#include "j2k_transcode.h"
#include "local_time.h"
#include "mono_j2k_picture_asset.h"
#include "mono_j2k_picture_asset_reader.h"
#include "mono_j2k_picture_asset_writer.h"
#include "mono_j2k_picture_frame.h"
#include "openjpeg_image.h"
#include "reel.h"
#include "reel_atmos_asset.h"
#include "reel_interop_text_asset.h"
#include "reel_markers_asset.h"
#include "reel_mono_picture_asset.h"
#include "reel_smpte_text_asset.h"
#include "reel_sound_asset.h"
#include "reel_stereo_picture_asset.h"
#include "smpte_text_asset.h"
#include "sound_asset.h"
#include "sound_asset_reader.h"
#include "sound_asset_writer.h"
#include "sound_frame.h"
#include "stereo_j2k_picture_asset.h"
#include "stereo_j2k_picture_asset_reader.h"
#include "stereo_j2k_picture_asset_writer.h"
#include "stereo_j2k_picture_frame.h"
#include "text_image.h"
#include "text_string.h"
#include <libcxml/cxml.h>
#include <openssl/evp.h>
#include <boost/filesystem.hpp>
#include <algorithm>
#include <cmath>
#include <set>

using namespace kit;
using std::dynamic_pointer_cast;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;
using boost::optional;
namespace bfs = boost::filesystem;

namespace pkg {

dcp::Size const sizes[] = { { 96, 64 }, { 64, 48 } };

dcp::ArrayData const&
picture(int which, int shape)
{
	static std::map<std::pair<int, int>, dcp::ArrayData> cache;
	auto const key = std::make_pair(which, shape);
	auto i = cache.find(key);
	if (i == cache.end()) {
		auto image = make_shared<dcp::OpenJPEGImage>(sizes[shape]);
		for (int c = 0; c < 3; ++c) {
			for (int y = 0; y < sizes[shape].height; ++y) {
				for (int x = 0; x < sizes[shape].width; ++x) {
					image->data(c)[y * sizes[shape].width + x] = (x * (7 + which * 5) + y * (11 + c * 3) + which * 600 + ((x / 16 + y / 16 + which) & 1) * 500) & 4095;
				}
			}
		}
		i = cache.emplace(key, dcp::compress_j2k(image, 100000000, 24, false, false, "test")).first;
	}
	return i->second;
}

vector<dcp::ContentKind> const&
kinds()
{
	static vector<dcp::ContentKind> const k = { dcp::ContentKind::FEATURE, dcp::ContentKind::SHORT, dcp::ContentKind::TRAILER, dcp::ContentKind::TEST, dcp::ContentKind::ADVERTISEMENT };
	return k;
}

Crypt
crypt()
{
	Crypt c;
	c.on = true;
	c.key_id = gen::uuid();
	c.key = hex(rng.bytes(16));
	return c;
}

static Text
random_text(int number, bool image)
{
	Text t;
	t.image = image;
	t.id = gen::uuid();
	t.picture = rng.below(4);
	t.text = gen::text();
	t.italic = rng.coin();
	t.bold = rng.coin();
	t.underline = rng.coin();
	t.colour = rng.below(0x1000000);
	t.size = rng.range(8, 80);
	/* In order, not at the same time, and at times which are exact in either standard */
	t.in = number * 48 + 12 * rng.below(2);
	t.out = t.in + 12 * rng.range(1, 2);
	t.v_align = rng.below(3);
	t.h_align = rng.below(3);
	t.v_position = rng.range(0, 100);
	t.h_position = rng.range(0, 50);
	t.effect = rng.below(3);
	t.direction = rng.below(4);
	t.effect_colour = rng.below(0x1000000);
	t.fade = 12 * rng.below(4);
	t.fade_down = 12 * rng.below(4);
	return t;
}

Spec
random(Limits const& limits)
{
	Spec s;
	s.smpte = rng.coin();
	int number = 0;
	bool const encrypt_some = limits.encrypt && rng.coin();
	auto name = [&](string const& extension) {
		auto n = std::to_string(number++);
		if (limits.awkward_names && rng.chance(0.2)) {
			return gen::file_name("") + n + extension;
		}
		if (limits.awkward_names && rng.chance(0.1)) {
			return "sub" + n + "/file" + extension;
		}
		return "file" + n + extension;
	};
	auto asset = [&](Kind kind, int frames) {
		Asset a;
		a.kind = kind;
		a.frames = frames;
		a.seed = rng.next();
		if (encrypt_some && rng.chance(0.7) && !(kind == Kind::TEXT && !s.smpte)) {
			a.crypt = crypt();
		}
		switch (kind) {
		case Kind::MONO:
		case Kind::STEREO:
			a.shape = rng.below(shapes);
			for (int i = 0; i < frames * (kind == Kind::STEREO ? 2 : 1); ++i) {
				a.content.push_back(rng.below(pictures));
			}
			break;
		case Kind::SOUND:
			a.channels = rng.range(1, 16);
			a.language = rng.pick({string("en"), string("fr-FR"), string("de-DE")});
			break;
		case Kind::TEXT:
		{
			a.title = gen::text();
			a.reel_number = rng.range(1, 9);
			a.language = rng.pick({string("en"), string("fr-FR"), string("de-DE")});
			int const fonts = s.smpte ? int(rng.below(2)) : int(rng.below(3));
			for (int i = 0; i < fonts; ++i) {
				auto const b = rng.bytes(rng.range(1, 200));
				a.fonts.push_back({ "font" + std::to_string(i), string(b.begin(), b.end()) });
			}
			bool const images = rng.chance(0.3);
			for (int i = 0, n = rng.range(1, 5); i < n; ++i) {
				a.texts.push_back(random_text(i, images));
				if (!s.smpte) {
					/* Interop subtitles have no direction */
					a.texts.back().direction = 0;
				}
			}
			break;
		}
		default:
			break;
		}
		a.file = kind == Kind::TEXT ? (s.smpte ? name(".mxf") : "sub" + std::to_string(number++) + "/" + "subs.xml") : name(".mxf");
		s.assets.push_back(a);
		return int(s.assets.size()) - 1;
	};

	for (int c = 0, n = rng.range(1, limits.cpls); c < n; ++c) {
		Cpl cpl;
		cpl.title = gen::text();
		cpl.kind = rng.below(kinds().size());
		if (rng.coin()) {
			cpl.annotation = gen::text();
		}
		for (int r = 0, m = rng.range(1, limits.reels); r < m; ++r) {
			Reel reel;
			int const frames = rng.range(1, 4);
			auto use = [&](Kind kind, int role = 0) {
				Use u;
				/* Sometimes share something we already have */
				if (rng.chance(0.25)) {
					for (size_t i = 0; i < s.assets.size(); ++i) {
						if (s.assets[i].kind == kind && s.assets[i].frames == frames) {
							u.asset = i;
						}
					}
				}
				if (u.asset < 0) {
					u.asset = asset(kind, frames);
				}
				u.entry = rng.chance(0.3) ? rng.below(frames) : 0;
				u.duration = rng.chance(0.7) ? rng.range(1, frames - u.entry) : 0;
				if (rng.chance(0.3)) {
					u.annotation = gen::text();
				}
				u.role = role;
				u.language = kind == Kind::TEXT ? s.assets[u.asset].language : "";
				reel.uses.push_back(u);
			};
			if (limits.complete || rng.chance(0.8)) {
				use(rng.chance(0.75) ? Kind::MONO : Kind::STEREO);
			}
			if (rng.chance(0.7)) {
				use(Kind::SOUND);
			}
			if (rng.chance(0.5)) {
				use(Kind::TEXT, 0);
			}
			if (s.smpte && rng.chance(0.3)) {
				use(Kind::TEXT, 1);
			}
			if (s.smpte) {
				for (int i = 0, k = rng.chance(0.3) ? rng.range(1, 2) : 0; i < k; ++i) {
					use(Kind::TEXT, 2);
				}
			}
			for (int i = 0, k = rng.chance(0.3) ? rng.range(1, 3) : 0; i < k; ++i) {
				use(Kind::TEXT, 3);
			}
			if (s.smpte && rng.chance(0.25)) {
				use(Kind::ATMOS);
			}
			if (reel.uses.empty()) {
				use(Kind::SOUND);
			}
			if (rng.chance(0.4)) {
				reel.has_markers = true;
				for (int i = 0, k = rng.below(5); i < k; ++i) {
					reel.markers[rng.below(12)] = rng.below(48);
				}
			}
			cpl.reels.push_back(reel);
		}
		s.cpls.push_back(cpl);
	}
	return s;
}

string
Spec::describe() const
{
	string d = smpte ? "SMPTE" : "Interop";
	for (auto const& c: cpls) {
		d += " CPL[" + printable(c.title);
		for (auto const& r: c.reels) {
			d += " reel(";
			for (auto const& u: r.uses) {
				auto const& a = assets[u.asset];
				d += string(" ") + "MSPAT"[int(a.kind)] + std::to_string(u.asset) + (a.kind == Kind::TEXT ? "r" + std::to_string(u.role) : "") + (a.crypt.on ? "*" : "") + ":" + std::to_string(a.frames) + "@" + std::to_string(u.entry) + "+" + std::to_string(u.duration);
			}
			d += r.has_markers ? " m" + std::to_string(r.markers.size()) + ")" : " )";
		}
		d += "]";
	}
	return d;
}

int32_t
sample(Asset const& a, int channel, int64_t index)
{
	uint64_t x = a.seed ^ (uint64_t(channel) * 0x9e3779b97f4a7c15ull) ^ (uint64_t(index) * 0xbf58476d1ce4e5b9ull);
	x ^= x >> 29;
	x *= 0x94d049bb133111ebull;
	auto v = int32_t((x >> 33) & 0xffffff) - (1 << 23);
	if (channel == a.odd_channel && index == a.odd_index) {
		v += v > 0 ? -a.odd_by : a.odd_by;
	}
	return v;
}

dcp::ArrayData
atmos_frame(Asset const& a, int frame)
{
	dcp::ArrayData d(200 + frame * 13);
	for (int i = 0; i < d.size(); ++i) {
		d.data()[i] = sample(a, frame, i) >> 8;
	}
	return d;
}

static dcp::ArrayData
png(int which, string const& id)
{
	/* Nothing looks inside these */
	string s = "\x89PNG\r\n\x1a\n" + std::string(20 + which * 10, char('a' + which)) + id;
	dcp::ArrayData d(s.size());
	memcpy(d.data(), s.data(), s.size());
	return d;
}

static shared_ptr<dcp::Text>
make_text(Text const& t, Asset const& a)
{
	auto colour = [](int c) { return dcp::Colour((c >> 16) & 0xff, (c >> 8) & 0xff, c & 0xff); };
	auto time = [](int f) { return dcp::Time(f, 24, 24); };
	auto const ha = static_cast<dcp::HAlign>(t.h_align);
	auto const va = static_cast<dcp::VAlign>(t.v_align);
	auto const hp = ha == dcp::HAlign::CENTER ? 0 : t.h_position / 100.0f;
	if (t.image) {
		return make_shared<dcp::TextImage>(png(t.picture, t.id), t.id, time(t.in), time(t.out), hp, ha, t.v_position / 100.0f, va, 0, vector<dcp::Text::VariableZPosition>(), time(t.fade), time(t.fade_down));
	}
	return make_shared<dcp::TextString>(
		a.fonts.empty() ? optional<string>() : a.fonts[0].first, t.italic, t.bold, t.underline, colour(t.colour), t.size, 1.0f, time(t.in), time(t.out),
		hp, ha, t.v_position / 100.0f, va, 0, vector<dcp::Text::VariableZPosition>(), static_cast<dcp::Direction>(t.direction), t.text, static_cast<dcp::Effect>(t.effect), colour(t.effect_colour),
		time(t.fade), time(t.fade_down), 0, vector<dcp::Ruby>()
		);
}

static void
set_crypt(Asset const& a, shared_ptr<dcp::MXF> mxf)
{
	if (a.crypt.on) {
		mxf->set_key_id(a.crypt.key_id);
		mxf->set_key(dcp::Key(a.crypt.key));
	}
}

shared_ptr<dcp::Asset>
build_asset(Asset const& a, bool smpte, string const& dir)
{
	auto const standard = smpte ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
	auto const file = bfs::path(dir) / a.file;
	bfs::create_directories(file.parent_path());
	switch (a.kind) {
	case Kind::MONO:
	case Kind::STEREO:
	{
		shared_ptr<dcp::J2KPictureAsset> p;
		if (a.kind == Kind::MONO) {
			p = make_shared<dcp::MonoJ2KPictureAsset>(dcp::Fraction(a.rate, 1), standard);
		} else {
			p = make_shared<dcp::StereoJ2KPictureAsset>(dcp::Fraction(a.rate, 1), standard);
		}
		set_crypt(a, p);
		auto w = p->start_write(file, dcp::Behaviour::MAKE_NEW);
		for (auto i: a.content) {
			w->write(picture(i, a.shape));
		}
		w->finalize();
		return p;
	}
	case Kind::SOUND:
	{
		auto s = make_shared<dcp::SoundAsset>(dcp::Fraction(a.rate, 1), 48000, a.channels, dcp::LanguageTag(a.language), standard);
		set_crypt(a, s);
		auto w = s->start_write(file, {}, dcp::SoundAsset::AtmosSync::DISABLED, dcp::SoundAsset::MCASubDescriptors::ENABLED);
		int const n = 48000 / a.rate * a.frames;
		vector<vector<int32_t>> data(a.channels, vector<int32_t>(n));
		vector<int32_t const*> pointers;
		for (int c = 0; c < a.channels; ++c) {
			for (int i = 0; i < n; ++i) {
				data[c][i] = sample(a, c, i);
			}
			pointers.push_back(data[c].data());
		}
		w->write(pointers.data(), a.channels, n);
		w->finalize();
		return s;
	}
	case Kind::ATMOS:
	{
		auto s = make_shared<dcp::AtmosAsset>(dcp::Fraction(a.rate, 1), 0, 10, 118, 1);
		set_crypt(a, s);
		auto w = s->start_write(file);
		for (int i = 0; i < a.frames; ++i) {
			auto const d = atmos_frame(a, i);
			w->write(d.data(), d.size());
		}
		w->finalize();
		return s;
	}
	case Kind::TEXT:
	{
		shared_ptr<dcp::TextAsset> text;
		if (smpte) {
			auto t = make_shared<dcp::SMPTETextAsset>();
			set_crypt(a, t);
			t->set_content_title_text(a.title);
			t->set_language(dcp::LanguageTag(a.language));
			t->set_reel_number(a.reel_number);
			t->set_edit_rate(dcp::Fraction(a.rate, 1));
			t->set_time_code_rate(a.rate);
			t->set_start_time(dcp::Time(a.start, 24, 24));
			t->set_intrinsic_duration(a.frames);
			t->set_issue_date(dcp::LocalTime(a.issue_date));
			text = t;
		} else {
			auto t = make_shared<dcp::InteropTextAsset>();
			t->set_movie_title(a.title);
			t->set_language(a.language);
			t->set_reel_number(std::to_string(a.reel_number));
			text = t;
		}
		for (auto const& f: a.fonts) {
			dcp::ArrayData d(f.second.size());
			memcpy(d.data(), f.second.data(), f.second.size());
			text->add_font(f.first, d);
		}
		for (auto const& t: a.texts) {
			text->add(make_text(t, a));
		}
		text->write(file);
		return text;
	}
	}
	return {};
}

static vector<dcp::Marker> const markers = {
	dcp::Marker::FFOC, dcp::Marker::LFOC, dcp::Marker::FFTC, dcp::Marker::LFTC, dcp::Marker::FFOI, dcp::Marker::LFOI,
	dcp::Marker::FFEC, dcp::Marker::LFEC, dcp::Marker::FFMC, dcp::Marker::LFMC, dcp::Marker::FFOB, dcp::Marker::LFOB
};

Built
build(Spec const& spec, string const& dir, bool write, shared_ptr<const dcp::CertificateChain> signer)
{
	Built b;
	b.dir = dir;
	auto const standard = spec.smpte ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
	for (auto const& a: spec.assets) {
		b.assets.push_back(build_asset(a, spec.smpte, dir));
	}
	b.dcp = make_shared<dcp::DCP>(bfs::path(dir));
	for (auto const& c: spec.cpls) {
		auto cpl = make_shared<dcp::CPL>(c.title, kinds()[c.kind], standard);
		if (c.annotation) {
			cpl->set_annotation_text(*c.annotation);
		}
		for (auto const& r: c.reels) {
			auto reel = make_shared<dcp::Reel>();
			for (auto const& u: r.uses) {
				auto const& a = spec.assets[u.asset];
				auto asset = b.assets[u.asset];
				dcp::Fraction const rate(a.rate, 1);
				shared_ptr<dcp::ReelFileAsset> ra;
				switch (a.kind) {
				case Kind::MONO:
					ra = make_shared<dcp::ReelMonoPictureAsset>(dynamic_pointer_cast<dcp::MonoJ2KPictureAsset>(asset), u.entry);
					break;
				case Kind::STEREO:
					ra = make_shared<dcp::ReelStereoPictureAsset>(dynamic_pointer_cast<dcp::StereoJ2KPictureAsset>(asset), u.entry);
					break;
				case Kind::SOUND:
					ra = make_shared<dcp::ReelSoundAsset>(dynamic_pointer_cast<dcp::SoundAsset>(asset), u.entry);
					break;
				case Kind::ATMOS:
					ra = make_shared<dcp::ReelAtmosAsset>(dynamic_pointer_cast<dcp::AtmosAsset>(asset), u.entry);
					break;
				case Kind::TEXT:
				{
					auto const role = static_cast<dcp::TextType>(u.role);
					shared_ptr<dcp::ReelTextAsset> rt;
					if (spec.smpte) {
						rt = make_shared<dcp::ReelSMPTETextAsset>(role, dynamic_pointer_cast<dcp::SMPTETextAsset>(asset), rate, a.frames, u.entry);
					} else {
						rt = make_shared<dcp::ReelInteropTextAsset>(role, dynamic_pointer_cast<dcp::InteropTextAsset>(asset), rate, a.frames, u.entry);
					}
					rt->set_language(dcp::LanguageTag(u.language));
					ra = rt;
					break;
				}
				}
				auto rp = dynamic_pointer_cast<dcp::ReelPictureAsset>(ra);
				if (rp && !spec.smpte) {
					/* one of those that can be expressed */
					rp->set_screen_aspect_ratio(dcp::Fraction(2000, 1000));
				}
				if (u.duration) {
					ra->set_duration(u.duration);
				}
				if (u.annotation) {
					ra->set_annotation_text(*u.annotation);
				}
				reel->add(ra);
			}
			if (r.has_markers) {
				auto m = make_shared<dcp::ReelMarkersAsset>(dcp::Fraction(24, 1), 48);
				for (auto const& i: r.markers) {
					m->set(markers[i.first], dcp::Time(i.second, 24, 24));
				}
				reel->add(m);
			}
			cpl->add(reel);
		}
		b.cpls.push_back(cpl);
		b.dcp->add(cpl);
	}
	if (write) {
		b.dcp->write_xml(signer);
	}
	return b;
}

void
check_content(Asset const& a, shared_ptr<dcp::Asset> asset, string const& prefix)
{
	auto same = [](uint8_t const* data, int size, dcp::ArrayData const& d) { return size == d.size() && memcmp(data, d.data(), size) == 0; };
	switch (a.kind) {
	case Kind::MONO:
	{
		auto p = dynamic_pointer_cast<dcp::MonoJ2KPictureAsset>(asset);
		EXPECT(p, prefix + "-kind", "not a mono picture");
		if (!p) {
			return;
		}
		EXPECT(p->intrinsic_duration() == a.frames, prefix + "-duration", p->intrinsic_duration() << " rather than " << a.frames);
		EXPECT(p->edit_rate() == dcp::Fraction(a.rate, 1) && p->size() == sizes[a.shape] && p->frame_rate() == dcp::Fraction(a.rate, 1), prefix + "-picture-format", p->size().width << " wide at " << p->edit_rate().as_string() << " and " << p->frame_rate().as_string());
		EXPECT(int64_t(p->screen_aspect_ratio().numerator) * sizes[a.shape].height == int64_t(p->screen_aspect_ratio().denominator) * sizes[a.shape].width, prefix + "-picture-aspect", p->screen_aspect_ratio().as_string());
		auto r = p->start_read();
		for (int i = 0; i < std::min<int>(a.frames, p->intrinsic_duration()); ++i) {
			auto f = r->get_frame(i);
			EXPECT(same(f->data(), f->size(), picture(a.content[i], a.shape)), prefix + "-picture", "frame " << i << " differs");
		}
		break;
	}
	case Kind::STEREO:
	{
		auto p = dynamic_pointer_cast<dcp::StereoJ2KPictureAsset>(asset);
		EXPECT(p, prefix + "-kind", "not a stereo picture");
		if (!p) {
			return;
		}
		EXPECT(p->intrinsic_duration() == a.frames, prefix + "-duration", p->intrinsic_duration() << " rather than " << a.frames);
		EXPECT(p->edit_rate() == dcp::Fraction(a.rate, 1) && p->size() == sizes[a.shape] && p->frame_rate() == dcp::Fraction(a.rate * 2, 1), prefix + "-picture-format", p->size().width << " wide at " << p->edit_rate().as_string() << " and " << p->frame_rate().as_string());
		EXPECT(int64_t(p->screen_aspect_ratio().numerator) * sizes[a.shape].height == int64_t(p->screen_aspect_ratio().denominator) * sizes[a.shape].width, prefix + "-picture-aspect", p->screen_aspect_ratio().as_string());
		auto r = p->start_read();
		for (int i = 0; i < std::min<int>(a.frames, p->intrinsic_duration()); ++i) {
			auto f = r->get_frame(i);
			EXPECT(same(f->left()->data(), f->left()->size(), picture(a.content[i * 2], a.shape)), prefix + "-left", "frame " << i << " differs");
			EXPECT(same(f->right()->data(), f->right()->size(), picture(a.content[i * 2 + 1], a.shape)), prefix + "-right", "frame " << i << " differs");
		}
		break;
	}
	case Kind::SOUND:
	{
		auto s = dynamic_pointer_cast<dcp::SoundAsset>(asset);
		EXPECT(s, prefix + "-kind", "not sound");
		if (!s) {
			return;
		}
		EXPECT(s->intrinsic_duration() == a.frames, prefix + "-duration", s->intrinsic_duration() << " rather than " << a.frames);
		EXPECT(s->channels() == a.channels && s->edit_rate() == dcp::Fraction(a.rate, 1), prefix + "-sound-format", s->channels());
		auto r = s->start_read();
		int const per = 48000 / a.rate;
		for (int i = 0; i < std::min<int>(a.frames, s->intrinsic_duration()); ++i) {
			auto f = r->get_frame(i);
			bool ok = f->samples() == per && f->channels() == a.channels;
			for (int k = 0; ok && k < per; k += 1 + k % 7) {
				for (int c = 0; c < a.channels; ++c) {
					ok = ok && f->get(c, k) == sample(a, c, int64_t(i) * per + k);
				}
			}
			EXPECT(ok, prefix + "-sound", "frame " << i << " differs");
		}
		break;
	}
	case Kind::ATMOS:
	{
		auto s = dynamic_pointer_cast<dcp::AtmosAsset>(asset);
		EXPECT(s, prefix + "-kind", "not atmos");
		if (!s) {
			return;
		}
		EXPECT(s->intrinsic_duration() == a.frames, prefix + "-duration", s->intrinsic_duration() << " rather than " << a.frames);
		auto r = s->start_read();
		for (int i = 0; i < std::min<int>(a.frames, s->intrinsic_duration()); ++i) {
			auto f = r->get_frame(i);
			EXPECT(same(f->data(), f->size(), atmos_frame(a, i)), prefix + "-atmos", "frame " << i << " differs");
		}
		break;
	}
	case Kind::TEXT:
	{
		auto t = dynamic_pointer_cast<dcp::TextAsset>(asset);
		EXPECT(t, prefix + "-kind", "not text");
		if (!t) {
			return;
		}
		std::multiset<string> want, have;
		auto key = [](dcp::Text const& x) {
			string k = std::to_string(std::lround(x.in().as_seconds() * 24)) + " " + std::to_string(std::lround(x.out().as_seconds() * 24)) + " ";
			if (auto s = dynamic_cast<dcp::TextString const*>(&x)) {
				return k + s->text() + " " + std::to_string(s->size()) + (s->italic() ? "i" : "") + (s->underline() ? "u" : "") + s->colour().to_argb_string() + " " + s->font().get_value_or("none");
			}
			auto i = dynamic_cast<dcp::TextImage const*>(&x);
			auto d = i->png_image();
			return k + i->id() + string(reinterpret_cast<char const*>(d.data()), d.size());
		};
		for (auto const& i: a.texts) {
			want.insert(key(*make_text(i, a)));
		}
		for (auto i: t->texts()) {
			have.insert(key(*i));
		}
		EXPECT(want == have, prefix + "-texts", have.size() << " texts, wanted " << want.size() << (have.empty() ? "" : " first " + printable(*have.begin())) << " / " << printable(*want.begin()));
		auto fonts = t->font_data();
		EXPECT(fonts.size() == a.fonts.size(), prefix + "-font-count", fonts.size() << " fonts rather than " << a.fonts.size());
		for (auto const& f: a.fonts) {
			auto i = fonts.find(f.first);
			EXPECT(i != fonts.end() && string(reinterpret_cast<char const*>(i->second.data()), i->second.size()) == f.second, prefix + "-font", "font " << f.first << " differs");
		}
		if (auto s = dynamic_pointer_cast<dcp::SMPTETextAsset>(asset)) {
			EXPECT(s->content_title_text() == a.title && s->language() == a.language && s->reel_number() == a.reel_number, prefix + "-text-metadata", printable(s->content_title_text()));
		} else if (auto n = dynamic_pointer_cast<dcp::InteropTextAsset>(asset)) {
			EXPECT(n->movie_title() == a.title && n->language() == a.language && n->reel_number() == std::to_string(a.reel_number), prefix + "-text-metadata", printable(n->movie_title()));
		}
		break;
	}
	}
	observed(a.frames);
}

dcp::DecryptedKDM
kdm(Spec const& spec, string const& cpl_id)
{
	dcp::DecryptedKDM k(dcp::LocalTime("2020-01-01T00:00:00+00:00"), dcp::LocalTime("2030-01-01T00:00:00+00:00"), string("a"), string("b"), "2020-01-01T00:00:00+00:00");
	for (auto const& a: spec.assets) {
		if (a.crypt.on) {
			k.add_key(string("MDIK"), a.crypt.key_id, dcp::Key(a.crypt.key), cpl_id, spec.smpte ? dcp::Standard::SMPTE : dcp::Standard::INTEROP);
		}
	}
	return k;
}

string
sha1(string const& file)
{
	auto const data = read_file(file);
	unsigned char digest[EVP_MAX_MD_SIZE];
	unsigned int length = 0;
	EVP_Digest(data.data(), data.size(), digest, &length, EVP_sha1(), nullptr);
	unsigned char out[64];
	EVP_EncodeBlock(out, digest, length);
	return reinterpret_cast<char*>(out);
}

vector<string>
files_in(string const& dir)
{
	vector<string> out;
	for (auto i = bfs::recursive_directory_iterator(dir); i != bfs::recursive_directory_iterator(); ++i) {
		if (bfs::is_regular_file(i->path())) {
			out.push_back(i->path().string().substr(dir.size() + 1));
		}
	}
	std::sort(out.begin(), out.end());
	return out;
}

void
check_lists(string const& dir, bool smpte, string const& prefix)
{
	auto const map_name = smpte ? "ASSETMAP.xml" : "ASSETMAP";
	auto const vol_name = smpte ? "VOLINDEX.xml" : "VOLINDEX";
	EXPECT(file_exists(dir + "/" + map_name), prefix + "-assetmap", "missing");
	EXPECT(file_exists(dir + "/" + vol_name), prefix + "-volindex", "missing");
	if (!file_exists(dir + "/" + map_name)) {
		return;
	}

	auto urn = [](string s) { return s.substr(0, 9) == "urn:uuid:" ? s.substr(9) : "?" + s; };

	cxml::Document map("AssetMap");
	map.read_file(dir + "/" + map_name);
	std::map<string, string> paths;
	std::set<string> used;
	vector<string> pkls;
	for (auto i: map.node_child("AssetList")->node_children("Asset")) {
		auto const id = urn(i->string_child("Id"));
		auto chunks = i->node_child("ChunkList")->node_children("Chunk");
		EXPECT(chunks.size() == 1, prefix + "-chunks", chunks.size());
		auto const path = chunks.empty() ? string() : chunks[0]->string_child("Path");
		EXPECT(paths.insert({ id, path }).second, prefix + "-map-id-twice", id << " for " << path << " and " << paths[id]);
		EXPECT(used.insert(path).second, prefix + "-map-path-twice", path);
		EXPECT(file_exists(dir + "/" + path), prefix + "-map-path", path << " does not exist");
		if (i->optional_node_child("PackingList")) {
			pkls.push_back(id);
		}
		if (!chunks.empty() && file_exists(dir + "/" + path)) {
			auto const length = chunks[0]->optional_number_child<int64_t>("Length");
			EXPECT(length && *length == int64_t(bfs::file_size(dir + "/" + path)), prefix + "-map-length", path);
		}
	}
	EXPECT(!pkls.empty(), prefix + "-no-pkl", "no packing list in map");
	for (auto const& f: files_in(dir)) {
		if (f != map_name && f != vol_name) {
			EXPECT(used.count(f), prefix + "-unlisted", f << " is not in the asset map");
		}
	}

	std::set<string> packed;
	for (auto const& p: pkls) {
		if (!file_exists(dir + "/" + paths[p])) {
			continue;
		}
		cxml::Document pkl("PackingList");
		pkl.read_file(dir + "/" + paths[p]);
		EXPECT(urn(pkl.string_child("Id")) == p, prefix + "-pkl-id", pkl.string_child("Id"));
		for (auto i: pkl.node_child("AssetList")->node_children("Asset")) {
			auto const id = urn(i->string_child("Id"));
			EXPECT(packed.insert(id).second, prefix + "-pkl-twice", id);
			auto j = paths.find(id);
			EXPECT(j != paths.end(), prefix + "-pkl-not-in-map", id);
			if (j == paths.end() || !file_exists(dir + "/" + j->second)) {
				continue;
			}
			auto const file = dir + "/" + j->second;
			EXPECT(i->string_child("Hash") == sha1(file), prefix + "-pkl-hash", "hash of " << j->second << " is not that of the file");
			EXPECT(i->number_child<int64_t>("Size") == int64_t(bfs::file_size(file)), prefix + "-pkl-size", j->second << " size " << i->string_child("Size"));
			if (auto name = i->optional_string_child("OriginalFileName")) {
				EXPECT(*name == bfs::path(file).filename().string(), prefix + "-pkl-name", *name << " for " << j->second);
			}
			/* The id is that which the file has */
			if (file.size() > 4 && file.substr(file.size() - 4) == ".xml") {
				auto const text = read_file(file);
				EXPECT(text.find(id) != string::npos, prefix + "-true-id", id << " is not in " << j->second);
			}
			observed();
		}
	}
	for (auto const& i: paths) {
		if (std::find(pkls.begin(), pkls.end(), i.first) == pkls.end()) {
			EXPECT(packed.count(i.first), prefix + "-not-packed", i.second << " is in the map but in no packing list");
		}
	}
}

}
