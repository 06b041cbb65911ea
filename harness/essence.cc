/* C31: encrypted essence; C32: resuming the writing of pictures */

#include "gen.h"
#include "kit.h"
#include "pkg.h"
#include "atmos_asset.h"
#include "atmos_asset_reader.h"
#include "atmos_asset_writer.h"
#include "atmos_frame.h"
#include "crypto_context.h"
#include "equality_options.h"
#include "exceptions.h"
#include "key.h"
#include "local_time.h"
#include "mono_j2k_picture_asset.h"
#include "mono_j2k_picture_asset_reader.h"
#include "mono_j2k_picture_frame.h"
#include "j2k_picture_asset_writer.h"
#include "smpte_text_asset.h"
#include "sound_asset.h"
#include "sound_asset_reader.h"
#include "sound_frame.h"
#include "stereo_j2k_picture_asset.h"
#include "stereo_j2k_picture_asset_reader.h"
#include "stereo_j2k_picture_frame.h"
#include "text_image.h"
#include "text_string.h"
#include <boost/filesystem.hpp>
#include <openssl/md5.h>
#include <cstring>
#include <set>

using namespace kit;
using pkg::Kind;
using std::dynamic_pointer_cast;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;
namespace bfs = boost::filesystem;

namespace {

pkg::Asset
random_asset(Kind kind, bool encrypt)
{
	pkg::Asset a;
	a.kind = kind;
	a.file = "asset";
	a.rate = rng.pick({24, 25, 30});
	a.frames = rng.range(1, 4);
	a.seed = rng.next();
	if (encrypt) {
		a.crypt = pkg::crypt();
	}
	switch (kind) {
	case Kind::MONO:
	case Kind::STEREO:
		a.shape = rng.below(pkg::shapes);
		for (int i = 0; i < a.frames * (kind == Kind::STEREO ? 2 : 1); ++i) {
			a.content.push_back(rng.below(pkg::pictures));
		}
		break;
	case Kind::SOUND:
		a.channels = rng.range(1, 8);
		break;
	case Kind::ATMOS:
		a.rate = 24;
		break;
	case Kind::TEXT:
	{
		a.rate = 24;
		a.frames = 480;
		a.title = "A title for these subtitles";
		int const fonts = rng.below(3);
		for (int i = 0; i < fonts; ++i) {
			auto b = rng.bytes(rng.range(64, 3000));
			a.fonts.push_back(std::make_pair("font" + std::to_string(i), string(b.begin(), b.end())));
		}
		bool const image = rng.chance(0.3);
		int const n = rng.range(1, 5);
		for (int i = 0; i < n; ++i) {
			pkg::Text t;
			t.image = image;
			t.id = gen::uuid();
			t.picture = rng.below(4);
			t.text = "Words which nobody without the key may see " + gen::uuid();
			t.in = i * 24;
			t.out = i * 24 + 12;
			a.texts.push_back(t);
		}
		break;
	}
	}
	return a;
}

string
to_string(uint8_t const* data, int size)
{
	return string(reinterpret_cast<char const*>(data), size);
}

/** Parts of the content which are long and varied enough that they would not be in the file by chance,
 *  or in the metadata by right.
 */
vector<string>
secrets(pkg::Asset const& a)
{
	vector<string> whole;
	switch (a.kind) {
	case Kind::MONO:
	case Kind::STEREO:
		for (auto i: a.content) {
			auto const& p = pkg::picture(i, a.shape);
			auto s = to_string(p.data(), p.size());
			/* Only after the start of data, as the main header is given in the metadata */
			auto const sod = s.find("\xff\x93");
			whole.push_back(s.substr(sod + 2));
		}
		break;
	case Kind::SOUND:
	{
		int const per = 48000 / a.rate;
		for (int f = 0; f < a.frames; ++f) {
			string s;
			for (int i = 0; i < per; ++i) {
				for (int c = 0; c < a.channels; ++c) {
					auto const v = pkg::sample(a, c, int64_t(f) * per + i);
					s += char(v & 0xff);
					s += char((v >> 8) & 0xff);
					s += char((v >> 16) & 0xff);
				}
			}
			whole.push_back(s);
		}
		break;
	}
	case Kind::ATMOS:
		for (int f = 0; f < a.frames; ++f) {
			auto const d = pkg::atmos_frame(a, f);
			whole.push_back(to_string(d.data(), d.size()));
		}
		break;
	case Kind::TEXT:
		for (auto const& f: a.fonts) {
			whole.push_back(f.second);
		}
		for (auto const& t: a.texts) {
			if (!t.image) {
				whole.push_back(t.text);
			}
		}
		break;
	}

	vector<string> out;
	size_t const window = 20;
	for (auto const& w: whole) {
		if (w.size() < window) {
			continue;
		}
		for (size_t i = 0; i + window <= w.size(); i += std::max<size_t>(1, w.size() / 12)) {
			auto s = w.substr(i, window);
			if (std::set<char>(s.begin(), s.end()).size() >= 10) {
				out.push_back(s);
			}
		}
	}
	return out;
}

shared_ptr<dcp::Asset>
open_asset(Kind kind, string const& file)
{
	switch (kind) {
	case Kind::MONO:
		return make_shared<dcp::MonoJ2KPictureAsset>(bfs::path(file));
	case Kind::STEREO:
		return make_shared<dcp::StereoJ2KPictureAsset>(bfs::path(file));
	case Kind::SOUND:
		return make_shared<dcp::SoundAsset>(bfs::path(file));
	case Kind::ATMOS:
		return make_shared<dcp::AtmosAsset>(bfs::path(file));
	case Kind::TEXT:
		return make_shared<dcp::SMPTETextAsset>(bfs::path(file));
	}
	return {};
}

/** Each of the things that can be read from an asset, as bytes; none if it gave an exception */
vector<boost::optional<string>>
contents(Kind kind, string const& file, dcp::Key const& key, int frames, string& complaint)
{
	vector<boost::optional<string>> out;
	auto protect = [&](std::function<string()> fn) {
		try {
			out.push_back(fn());
		} catch (std::exception& e) {
			out.push_back(boost::none);
		} catch (...) {
			complaint = "something other than a std::exception was thrown";
			out.push_back(boost::none);
		}
	};
	try {
		auto asset = open_asset(kind, file);
		dynamic_pointer_cast<dcp::MXF>(asset)->set_key(key);
		switch (kind) {
		case Kind::MONO:
		{
			auto r = dynamic_pointer_cast<dcp::MonoJ2KPictureAsset>(asset)->start_read();
			for (int i = 0; i < frames; ++i) {
				protect([&]() { auto f = r->get_frame(i); return to_string(f->data(), f->size()); });
			}
			break;
		}
		case Kind::STEREO:
		{
			auto r = dynamic_pointer_cast<dcp::StereoJ2KPictureAsset>(asset)->start_read();
			for (int i = 0; i < frames; ++i) {
				protect([&]() { auto f = r->get_frame(i); return to_string(f->left()->data(), f->left()->size()) + "|" + to_string(f->right()->data(), f->right()->size()); });
			}
			break;
		}
		case Kind::SOUND:
		{
			auto r = dynamic_pointer_cast<dcp::SoundAsset>(asset)->start_read();
			for (int i = 0; i < frames; ++i) {
				protect([&]() { auto f = r->get_frame(i); return to_string(f->data(), f->size()); });
			}
			break;
		}
		case Kind::ATMOS:
		{
			auto r = dynamic_pointer_cast<dcp::AtmosAsset>(asset)->start_read();
			for (int i = 0; i < frames; ++i) {
				protect([&]() { auto f = r->get_frame(i); return to_string(f->data(), f->size()); });
			}
			break;
		}
		case Kind::TEXT:
		{
			auto t = dynamic_pointer_cast<dcp::SMPTETextAsset>(asset);
			string s;
			for (auto i: t->texts()) {
				s += std::to_string(i->in().as_seconds()) + " " + std::to_string(i->out().as_seconds()) + " ";
				if (auto ts = dynamic_pointer_cast<const dcp::TextString>(i)) {
					s += ts->text() + "\n";
				} else if (auto ti = dynamic_pointer_cast<const dcp::TextImage>(i)) {
					auto d = ti->png_image();
					s += ti->id() + to_string(d.data(), d.size()) + "\n";
				}
			}
			for (auto const& i: t->font_data()) {
				s += i.first + ":" + to_string(i.second.data(), i.second.size());
			}
			out.push_back(s);
			break;
		}
		}
	} catch (std::exception& e) {
		return vector<boost::optional<string>>(kind == Kind::TEXT ? 1 : frames);
	} catch (...) {
		complaint = "something other than a std::exception was thrown";
		return vector<boost::optional<string>>(kind == Kind::TEXT ? 1 : frames);
	}
	return out;
}

uint64_t
u64_at(string const& s, size_t position)
{
	uint64_t v;
	memcpy(&v, s.data() + position, 8);
	return v;
}

void
crypt_case(size_t n)
{
	auto const kind = static_cast<Kind>(rng.below(5));
	bool const encrypt = !rng.chance(0.15);
	bool const smpte = kind == Kind::TEXT || kind == Kind::ATMOS || rng.coin();
	auto a = random_asset(kind, encrypt);
	begin_case("essence " + std::to_string(n) + " " + "MSPAT"[int(kind)] + (smpte ? " SMPTE" : " Interop") + (encrypt ? " encrypted" : " clear") + " frames " + std::to_string(a.frames) + " seed " + std::to_string(a.seed));
	auto const dir = fresh_dir("essence");
	auto const file = dir + "/asset";
	string kind_name(1, "MSPAT"[int(kind)]);

	auto written = pkg::build_asset(a, smpte, dir);
	auto mxf = dynamic_pointer_cast<dcp::MXF>(written);
	EXPECT(mxf->encrypted() == encrypt, "written-encrypted", mxf->encrypted());
	auto const bytes = read_file(file);

	/* What is in the file */
	auto const s = secrets(a);
	int found = 0;
	for (auto const& i: s) {
		found += bytes.find(i) != string::npos;
	}
	if (encrypt) {
		EXPECT(found == 0, "plaintext:" + kind_name, found << " of " << s.size() << " samples of the content are in the encrypted file");
		count("samples of content looked for in encrypted files", s.size());
	} else {
		EXPECT(found == int(s.size()), "clear:" + kind_name, found << " of " << s.size() << " samples of the content are in the unencrypted file");
		count("samples of content found in clear files", found);
	}
	if (encrypt) {
		auto const key = dcp::Key(a.crypt.key);
		EXPECT(bytes.find(to_string(key.value(), 16)) == string::npos && bytes.find(a.crypt.key) == string::npos, "key-in-file", "the key is in the file");
	}

	/* Read it */
	auto read = open_asset(kind, file);
	auto read_mxf = dynamic_pointer_cast<dcp::MXF>(read);
	EXPECT(read_mxf->encrypted() == encrypt, "read-encrypted:" + kind_name, "says encrypted=" << read_mxf->encrypted());
	EXPECT(static_cast<bool>(read_mxf->key_id()) == encrypt, "read-key-id:" + kind_name, "key ID given: " << static_cast<bool>(read_mxf->key_id()));
	EXPECT(read->id() == written->id(), "read-id", read->id());
	EXPECT((read_mxf->standard() == dcp::Standard::SMPTE) == smpte, "read-standard", "standard differs");
	EXPECT(read_mxf->can_be_read() == !encrypt, "can-be-read:" + kind_name, "can_be_read() without key is " << read_mxf->can_be_read());
	if (!encrypt) {
		pkg::check_content(a, read, "clear");
		count("clear assets");
		remove_tree(dir);
		return;
	}
	EXPECT(read_mxf->key_id() && *read_mxf->key_id() == a.crypt.key_id, "key-id:" + kind_name, read_mxf->key_id().get_value_or("none") << " rather than " << a.crypt.key_id);
	read_mxf->set_key(dcp::Key(a.crypt.key));
	EXPECT(read_mxf->can_be_read(), "can-be-read:" + kind_name, "can_be_read() with key is false");
	pkg::check_content(a, read, "right-key");

	string complaint;
	auto const right = contents(kind, file, dcp::Key(a.crypt.key), a.frames, complaint);
	for (auto const& i: right) {
		EXPECT(i, "right-key-exception:" + kind_name, "reading with the right key gave an exception");
	}

	/* Wrong keys: something else entirely, or differing in one bit */
	for (int k = 0; k < 3; ++k) {
		dcp::Key wrong = [&]() {
			if (k == 0) {
				return dcp::Key(pkg::crypt().key);
			}
			dcp::Key right_key(a.crypt.key);
			uint8_t v[16];
			memcpy(v, right_key.value(), 16);
			v[rng.below(16)] ^= 1 << rng.below(8);
			return dcp::Key(v);
		}();
		auto const got = contents(kind, file, wrong, a.frames, complaint);
		for (size_t i = 0; i < got.size(); ++i) {
			EXPECT(!got[i], "wrong-key:" + kind_name, "reading part " << i << " with a wrong key gave " << (got[i] ? got[i]->size() : 0) << " bytes and no exception");
		}
		count("frames read with wrong key", got.size());
		if (kind != Kind::TEXT) {
			auto other = open_asset(kind, file);
			auto other_mxf = dynamic_pointer_cast<dcp::MXF>(other);
			other_mxf->set_key(wrong);
			EXPECT(!other_mxf->can_be_read(), "can-be-read-wrong-key:" + kind_name, "can_be_read() with a wrong key is true");
			other_mxf->set_key(dcp::Key(a.crypt.key));
			EXPECT(other_mxf->can_be_read(), "can-be-read-again:" + kind_name, "can_be_read() with the right key after a wrong one is false");
		}
		observed(got.size());
	}

	if (kind == Kind::ATMOS) {
		/* Copy it frame by frame */
		auto source = dynamic_pointer_cast<dcp::AtmosAsset>(read);
		auto copy = make_shared<dcp::AtmosAsset>(source->edit_rate(), source->first_frame(), source->max_channel_count(), source->max_object_count(), source->atmos_version());
		auto from = source->start_read();
		auto to = copy->start_write(dir + "/copy");
		for (int i = 0; i < a.frames; ++i) {
			to->write(from->get_frame(i));
		}
		to->finalize();
		pkg::check_content(a, make_shared<dcp::AtmosAsset>(boost::filesystem::path(dir + "/copy")), "copied");
	}

	/* First the wrong key, then the right one */
	auto again = open_asset(kind, file);
	try {
		dynamic_pointer_cast<dcp::MXF>(again)->set_key(dcp::Key(pkg::crypt().key));
	} catch (std::exception&) {
	}
	dynamic_pointer_cast<dcp::MXF>(again)->set_key(dcp::Key(a.crypt.key));
	pkg::check_content(a, again, "right-after-wrong");

	/* Without integrity checks the content is still that which was written */
	if (kind == Kind::MONO) {
		auto r = dynamic_pointer_cast<dcp::MonoJ2KPictureAsset>(read)->start_read();
		r->set_check_hmac(false);
		auto f = r->get_frame(0);
		EXPECT(right[0] && to_string(f->data(), f->size()) == *right[0], "no-hmac", "frame read without integrity check differs");
	}

	/* Tampering */
	auto const footer = u64_at(bytes, 32);
	/* Where the first record is */
	auto const start = bytes.find("\x21\x46\x52\x4d", 1024);
	if (start == string::npos || footer <= start || footer > bytes.size()) {
		harness_error("unexpected layout of file");
	}
	for (int k = 0; k < 6; ++k) {
		auto changed = bytes;
		auto const where = start + rng.below(footer - start);
		if (k == 5 && where + 64 < footer) {
			/* Several blocks the same */
			changed.replace(where, 32, changed.substr(where + 32, 32));
		} else {
			changed[where] ^= 1 << rng.below(8);
		}
		if (changed == bytes) {
			continue;
		}
		write_file(dir + "/tampered", changed);
		auto const got = contents(kind, dir + "/tampered", dcp::Key(a.crypt.key), a.frames, complaint);
		int exceptions = 0;
		for (size_t i = 0; i < got.size(); ++i) {
			exceptions += !got[i];
			EXPECT(!got[i] || (i < right.size() && *got[i] == right[i].get_value_or("")), "tampered:" + kind_name, "byte " << where << " changed: part " << i << " read without exception but differs");
		}
		EXPECT(exceptions > 0, "tampered-unnoticed:" + kind_name, "byte " << where << " of the essence changed but nothing was noticed");
		count("tampered files");
		observed(got.size());
	}
	EXPECT(complaint.empty(), "odd-exception", complaint);
	remove_tree(dir);
}

void
c31()
{
	rule("assets of five kinds with random content, keys and lengths; read with the right key, wrong keys (one bit different or random), right after wrong, and with one byte of essence changed");
	assumption("the stand-in container for MXF encrypts and authenticates as the real one does");
	gen::init();
	auto const n = budget(1200, 12000);
	for (size_t i = 0; i < n; ++i) {
		crypt_case(i);
	}
}

/* ---------- C32 ---------- */

string
md5(string const& s)
{
	uint8_t digest[MD5_DIGEST_LENGTH];
	MD5(reinterpret_cast<uint8_t const*>(s.data()), s.size(), digest);
	return hex(vector<uint8_t>(digest, digest + sizeof(digest)));
}

void
resume_case(size_t n)
{
	bool const stereo = rng.coin();
	bool const encrypt = rng.chance(0.4);
	bool const smpte = rng.coin();
	auto const standard = smpte ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
	int const shape = rng.below(pkg::shapes);
	int const frames = rng.range(1, 7);
	int const parts = frames * (stereo ? 2 : 1);
	vector<int> content;
	for (int i = 0; i < parts; ++i) {
		content.push_back(rng.below(pkg::pictures));
	}
	int const interruptions = rng.range(1, 3);
	auto const c = pkg::crypt();
	begin_case(string("resume ") + std::to_string(n) + (stereo ? " stereo" : " mono") + (smpte ? " SMPTE" : " Interop") + (encrypt ? " encrypted" : "") + " parts " + std::to_string(parts) + " interruptions " + std::to_string(interruptions) + " seed " + std::to_string(rng.next()), parts > 1);
	auto const dir = fresh_dir("resume");
	auto const file = dir + "/picture.mxf";

	auto make = [&]() {
		shared_ptr<dcp::J2KPictureAsset> p;
		if (stereo) {
			p = make_shared<dcp::StereoJ2KPictureAsset>(dcp::Fraction(24, 1), standard);
		} else {
			p = make_shared<dcp::MonoJ2KPictureAsset>(dcp::Fraction(24, 1), standard);
		}
		if (encrypt) {
			p->set_key_id(c.key_id);
			p->set_key(dcp::Key(c.key));
		}
		return p;
	};

	vector<dcp::J2KFrameInfo> info;
	auto check_info = [&](string const& when) {
		auto const bytes = read_file(file);
		uint64_t last = 0;
		for (size_t i = 0; i < info.size(); ++i) {
			EXPECT(info[i].offset + info[i].size <= bytes.size(), "info-range", "frame " << i << " said to be at " << info[i].offset << "+" << info[i].size << " in file of " << bytes.size() << " " << when);
			if (info[i].offset + info[i].size > bytes.size()) {
				continue;
			}
			EXPECT(i == 0 || info[i].offset == last, "info-offset", "frame " << i << " said to be at " << info[i].offset << " but the last one ended at " << last << " " << when);
			last = info[i].offset + info[i].size;
			auto const data = bytes.substr(info[i].offset, info[i].size);
			EXPECT(md5(data) == info[i].hash, "info-hash", "hash of frame " << i << " is not that of the data in the file " << when);
			auto const& p = pkg::picture(content[i], shape);
			auto const in_clear = data.find(to_string(p.data(), p.size())) != string::npos;
			EXPECT(in_clear == !encrypt, "info-content", "frame " << i << (in_clear ? " is" : " is not") << " in clear at the place it is said to be " << when);
			observed();
		}
	};

	/* How far it gets each time */
	vector<int> stops;
	for (int i = 0; i < interruptions; ++i) {
		stops.push_back(rng.range(i ? stops.back() : 1, parts));
	}

	shared_ptr<dcp::J2KPictureAsset> asset;
	for (int attempt = 0; attempt <= interruptions; ++attempt) {
		int const until = attempt == interruptions ? parts : stops[attempt];
		/* Resume with the same object, or (as an encrypted asset's ID is in its integrity checks) with a new one if it is in clear */
		if (!asset || (!encrypt && rng.coin())) {
			asset = make();
		}
		auto writer = asset->start_write(file, attempt ? dcp::Behaviour::OVERWRITE_EXISTING : dcp::Behaviour::MAKE_NEW);
		if (attempt) {
			check_info("before attempt " + std::to_string(attempt));
		}
		/* Some of the frames that were written last may not have been safely stored, so they are written again */
		int const known = attempt ? rng.range(1, int(info.size())) : 0;
		for (int i = 0; i < until; ++i) {
			auto const& p = pkg::picture(content[i], shape);
			if (i > 0 && i < known) {
				writer->fake_write(info[i]);
				count("frames claimed");
			} else {
				/* Either by pointer or by data */
				auto const w = rng.coin() ? writer->write(p) : writer->write(p.data(), p.size());
				if (i < int(info.size())) {
					EXPECT(w.offset == info[i].offset && w.size == info[i].size, "rewritten-info", "frame " << i << " rewritten at " << w.offset << "+" << w.size << " rather than " << info[i].offset << "+" << info[i].size);
					EXPECT(encrypt || w.hash == info[i].hash, "rewritten-hash", "hash of frame " << i << " differs on rewriting");
					info[i] = w;
				} else {
					info.push_back(w);
				}
			}
		}
		if (attempt == interruptions) {
			bool const r = writer->finalize();
			EXPECT(r, "finalize", "finalize() returned false");
		} else {
			switch (rng.below(3)) {
			case 0:
				if (stereo && until % 2) {
					/* With only one eye of the last frame this cannot succeed */
					try {
						writer->finalize();
						violation("finalize-half", "finalize() succeeded with half a frame");
					} catch (std::exception&) {
					}
				} else {
					writer->finalize();
				}
				count("interrupted by finalising");
				break;
			case 1:
				writer.reset();
				count("interrupted by destruction");
				break;
			case 2:
			{
				/* As if the process had been killed */
				auto const bytes = read_file(file);
				writer.reset();
				write_file(file, bytes);
				count("interrupted by loss");
				break;
			}
			}
		}
	}
	check_info("at the end");
	EXPECT(int(info.size()) == parts, "info-count", info.size());
	EXPECT(asset->intrinsic_duration() == frames, "duration", asset->intrinsic_duration() << " rather than " << frames);

	pkg::Asset spec;
	spec.kind = stereo ? Kind::STEREO : Kind::MONO;
	spec.frames = frames;
	spec.shape = shape;
	spec.content = content;
	auto read = open_asset(spec.kind, file);
	EXPECT(read->id() == asset->id(), "id", read->id() << " rather than " << asset->id());
	if (encrypt) {
		dynamic_pointer_cast<dcp::MXF>(read)->set_key(dcp::Key(c.key));
	}
	pkg::check_content(spec, read, "resumed");

	/* The same in one go */
	auto const once = dir + "/once.mxf";
	auto whole = make();
	auto writer = whole->start_write(once, dcp::Behaviour::MAKE_NEW);
	for (int i = 0; i < parts; ++i) {
		auto const w = writer->write(pkg::picture(content[i], shape));
		EXPECT(w.offset == info[i].offset && w.size == info[i].size && (encrypt || w.hash == info[i].hash), "once-info", "frame " << i << " at " << w.offset << " rather than " << info[i].offset);
	}
	writer->finalize();
	whole->set_file(once);
	std::string note;
	EXPECT(whole->equals(read, {}, [&](dcp::NoteType t, string s) { if (t == dcp::NoteType::ERROR) { note = s; } }), "unequal", "not equal to that written in one go: " << note);
	EXPECT(bfs::file_size(once) == bfs::file_size(file), "length", bfs::file_size(file) << " bytes rather than " << bfs::file_size(once));
	observed();
	remove_tree(dir);
}

void
c32()
{
	rule("mono and stereo pictures of random length written with one to three interruptions (finalised, abandoned, or lost) at random places and resumed");
	assumption("the stand-in container for MXF resumes as the real one does");
	gen::init();
	auto const n = budget(1200, 12000);
	for (size_t i = 0; i < n; ++i) {
		resume_case(i);
	}
}

KIT_CHECK("C31", c31);
KIT_CHECK("C32", c32);

}
