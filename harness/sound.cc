/* C18 (sync packets in sound assets), C19 sound samples, C28 sound configuration and channel labels */
#include "gen.h"
#include "kit.h"
#include "cpl.h"
#include "exceptions.h"
#include "main_sound_configuration.h"
#include "mono_j2k_picture_asset.h"
#include "reel.h"
#include "reel_mono_picture_asset.h"
#include "reel_sound_asset.h"
#include "sound_asset.h"
#include "sound_asset_reader.h"
#include "sound_asset_writer.h"
#include "sound_frame.h"
#include <asdcp/AS_DCP.h>
#include <asdcp/KLV.h>
#include <libcxml/cxml.h>
#include <algorithm>
#include <cmath>
#include <set>

using namespace kit;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;
using boost::optional;

namespace dcp { extern ASDCP::Dictionary const* asdcp_smpte_dict; }

namespace {

int const lowest = -(1 << 23);
int const highest = (1 << 23) - 1;

int const rates[] = { 24, 25, 30, 48, 50, 60, 96, 100, 120 };

/* ---------- C19 ---------- */

struct Expected { int low, high; };

int32_t
random_int()
{
	switch (rng.below(8)) {
	case 0: return rng.pick({0, 1, -1, lowest, highest, lowest + 1, highest - 1, highest + 1, lowest - 1, INT32_MAX, INT32_MIN, 1 << 23, (1 << 24) - 1, 1 << 24});
	case 1: return int32_t(rng.next());
	default: return rng.range(lowest, highest);
	}
}

Expected
expect_int(int32_t v)
{
	auto const c = std::max(lowest, std::min(highest, v));
	return { c, c };
}

float
random_float()
{
	switch (rng.below(8)) {
	case 0: return rng.pick({0.0f, -0.0f, 1.0f, -1.0f, 1.5f, -1.5f, 1e30f, -1e30f, HUGE_VALF, -HUGE_VALF, 1e-30f, 0.99999994f, -0.99999994f, 1.0f / (1 << 23), 0.5f / (1 << 23)});
	case 1: return rng.real(-2, 2);
	default: return rng.real(-1, 1);
	}
}

Expected
expect_float(float v)
{
	double const d = double(v) * (1 << 23);
	if (d >= highest) {
		return { highest, highest };
	}
	if (d <= lowest + 1) {
		/* The most negative value may be left unused, to be symmetrical */
		return { lowest, lowest + 1 };
	}
	/* halves may go either way */
	return { int(std::ceil(d - 0.5)), int(std::floor(d + 0.5)) };
}

void
round_trip(size_t n)
{
	auto const dir = fresh_dir("snd");
	auto const standard = rng.coin() ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
	int const rate = rates[rng.below(9)];
	int const sampling = rng.chance(0.8) ? 48000 : 96000;
	int const channels = rng.chance(0.3) ? rng.pick({1, 2, 6, 14, 16}) : rng.range(1, 16);
	int const per_frame = sampling / rate;
	int const total = rng.chance(0.4) ? per_frame * rng.range(1, 4) : rng.range(1, per_frame * 4);
	begin_case("sound " + std::to_string(n) + " rate " + std::to_string(rate) + " sampling " + std::to_string(sampling) + " channels " + std::to_string(channels) + " samples " + std::to_string(total));

	dcp::SoundAsset asset(dcp::Fraction(rate, 1), sampling, channels, gen::language(), standard);
	auto const file = dir + "/sound.mxf";
	vector<vector<Expected>> expected(channels, vector<Expected>(total, Expected{0, 0}));
	{
		auto writer = asset.start_write(file, {}, dcp::SoundAsset::AtmosSync::DISABLED, rng.coin() ? dcp::SoundAsset::MCASubDescriptors::ENABLED : dcp::SoundAsset::MCASubDescriptors::DISABLED);
		int done = 0;
		while (done < total) {
			int const chunk = std::min<int>(total - done, rng.chance(0.3) ? rng.range(1, 5) : rng.chance(0.3) ? per_frame : rng.range(1, per_frame * 2));
			int const given = rng.chance(0.6) ? channels : rng.below(channels + 1);
			if (rng.coin()) {
				vector<vector<float>> data(given, vector<float>(chunk));
				vector<float const*> pointers;
				for (int c = 0; c < given; ++c) {
					for (int i = 0; i < chunk; ++i) {
						data[c][i] = random_float();
						expected[c][done + i] = expect_float(data[c][i]);
					}
					pointers.push_back(data[c].data());
				}
				writer->write(pointers.data(), given, chunk);
			} else {
				vector<vector<int32_t>> data(given, vector<int32_t>(chunk));
				vector<int32_t const*> pointers;
				for (int c = 0; c < given; ++c) {
					for (int i = 0; i < chunk; ++i) {
						data[c][i] = random_int();
						expected[c][done + i] = expect_int(data[c][i]);
					}
					pointers.push_back(data[c].data());
				}
				writer->write(pointers.data(), given, chunk);
			}
			done += chunk;
			count("writes");
		}
		writer->finalize();
	}
	int const frames = (total + per_frame - 1) / per_frame;
	EXPECT(asset.intrinsic_duration() == frames, "duration-written", asset.intrinsic_duration() << " rather than " << frames);

	dcp::SoundAsset const back((boost::filesystem::path(file)));
	EXPECT(back.intrinsic_duration() == frames, "duration", back.intrinsic_duration() << " rather than " << frames);
	EXPECT(back.channels() == channels && back.sampling_rate() == sampling && back.bit_depth() == 24 && back.edit_rate() == dcp::Fraction(rate, 1), "format", back.channels() << " channels at " << back.sampling_rate());
	EXPECT(back.id() == asset.id(), "id", back.id());
	auto reader = back.start_read();
	for (int f = 0; f < frames; ++f) {
		auto frame = reader->get_frame(f);
		EXPECT(frame->samples() == per_frame && frame->channels() == channels, "frame-size", frame->samples() << " samples of " << frame->channels());
		if (frame->samples() != per_frame || frame->channels() != channels) {
			break;
		}
		int bad = 0;
		for (int c = 0; c < channels; ++c) {
			for (int i = 0; i < per_frame; ++i) {
				int const at = f * per_frame + i;
				auto const e = at < total ? expected[c][at] : Expected{0, 0};
				auto const v = frame->get(c, i);
				if (v < e.low || v > e.high) {
					violation(at < total ? (e.low == 0 && e.high == 0 ? "silence" : v != 0 && (v < 0) != (e.low < 0) ? "opposite-sign" : "sample") : "padding", "channel " + std::to_string(c) + " sample " + std::to_string(at) + " is " + std::to_string(v) + " rather than " + std::to_string(e.low));
					if (++bad > 3) {
						break;
					}
				}
			}
			observed(per_frame);
			if (bad) {
				break;
			}
		}
	}
	note_max("frames", frames);
	count("assets");
	remove_tree(dir);
}

/** Sound made elsewhere with 16 bits */
void
sixteen()
{
	auto const dir = fresh_dir("s16");
	int const channels = rng.range(1, 8);
	begin_case("16-bit with " + std::to_string(channels) + " channels");
	ASDCP::WriterInfo info;
	info.LabelSetType = ASDCP::LS_MXF_SMPTE;
	auto const id = rng.bytes(16);
	memcpy(info.AssetUUID, id.data(), 16);
	ASDCP::PCM::AudioDescriptor desc;
	desc.EditRate = ASDCP::Rational(24, 1);
	desc.AudioSamplingRate = ASDCP::Rational(48000, 1);
	desc.Locked = 0;
	desc.ChannelCount = channels;
	desc.QuantizationBits = 16;
	desc.BlockAlign = 2 * channels;
	desc.AvgBps = 48000 * desc.BlockAlign;
	desc.LinkedTrackID = 0;
	desc.ChannelFormat = ASDCP::PCM::CF_NONE;
	desc.ContainerDuration = 0;
	ASDCP::PCM::MXFWriter writer;
	auto const file = dir + "/s.mxf";
	if (writer.OpenWrite(file, info, desc).Failure()) {
		harness_error("could not write 16-bit sound");
	}
	ASDCP::PCM::FrameBuffer buffer(2000 * desc.BlockAlign);
	buffer.Size(2000 * desc.BlockAlign);
	vector<int16_t> values(2000 * channels);
	for (size_t i = 0; i < values.size(); ++i) {
		values[i] = rng.chance(0.1) ? rng.pick({0, -1, 1, -32768, 32767}) : int(rng.range(-32768, 32767));
		buffer.Data()[i * 2] = values[i] & 0xff;
		buffer.Data()[i * 2 + 1] = (values[i] >> 8) & 0xff;
	}
	if (writer.WriteFrame(buffer).Failure() || writer.Finalize().Failure()) {
		harness_error("could not write 16-bit sound frame");
	}
	dcp::SoundAsset const back((boost::filesystem::path(file)));
	auto frame = back.start_read()->get_frame(0);
	EXPECT(frame->samples() == 2000 && frame->channels() == channels, "frame-size-16", frame->samples());
	for (int i = 0; i < 2000; ++i) {
		for (int c = 0; c < channels; ++c) {
			EXPECT(frame->get(c, i) == values[i * channels + c], "sample-16", frame->get(c, i) << " rather than " << values[i * channels + c]);
		}
	}
	remove_tree(dir);
}

void
c19()
{
	rule("random chunkings, channel counts, rates and integer/float samples including extremes; every sample of every frame read back");
	gen::init();
	auto const n = budget(2400, 30000);
	for (size_t i = 0; i < n; ++i) {
		round_trip(i);
		if (i % 16 == 0) {
			sixteen();
		}
	}
}

KIT_CHECK("C19", c19);

/* ---------- C18 ---------- */

uint32_t
take(vector<bool> const& bits, size_t& at, int n)
{
	uint32_t v = 0;
	for (int i = 0; i < n; ++i) {
		v = (v << 1) | (bits[at++] ? 1 : 0);
	}
	return v;
}

void
sync_case(size_t n)
{
	auto const dir = fresh_dir("sync");
	int const rate = rates[rng.below(9)];
	int const channels = rng.range(14, 16);
	int const per_frame = 48000 / rate;
	int const frames = rng.chance(0.05) ? rng.range(30, 300) : rng.range(1, 12);
	begin_case("sync " + std::to_string(n) + " rate " + std::to_string(rate) + " frames " + std::to_string(frames));
	dcp::SoundAsset asset(dcp::Fraction(rate, 1), 48000, channels, gen::language(), dcp::Standard::SMPTE);
	auto const file = dir + "/sound.mxf";
	int const marks = rng.range(1, 1000);
	{
		auto writer = asset.start_write(file, {}, dcp::SoundAsset::AtmosSync::ENABLED, dcp::SoundAsset::MCASubDescriptors::ENABLED);
		int done = 0;
		int const total = frames * per_frame;
		int const given = rng.coin() ? channels : rng.below(channels + 1);
		while (done < total) {
			int const chunk = std::min<int>(total - done, rng.range(1, per_frame * 2));
			vector<vector<int32_t>> data(channels, vector<int32_t>(chunk));
			vector<int32_t const*> pointers;
			for (int c = 0; c < channels; ++c) {
				for (int i = 0; i < chunk; ++i) {
					data[c][i] = c < given ? (done + i) * 7 + c * marks : 0;
				}
				pointers.push_back(data[c].data());
			}
			writer->write(pointers.data(), given, chunk);
			done += chunk;
		}
		writer->finalize();

		/* Read it back, with our own decoder */
		dcp::SoundAsset const back((boost::filesystem::path(file)));
		auto reader = back.start_read();
		string id = asset.id();
		id.erase(std::remove(id.begin(), id.end(), '-'), id.end());
		int const packets = rate <= 30 ? 4 : rate <= 60 ? 2 : 1;
		int next = 0;
		int last = 0;
		for (int f = 0; f < frames; ++f) {
			auto frame = reader->get_frame(f);
			vector<bool> bits;
			for (int i = 0; i < per_frame; ++i) {
				for (int c = 0; c < channels; ++c) {
					if (c == 13) {
						continue;
					}
					auto const e = c < given ? (f * per_frame + i) * 7 + c * marks : 0;
					EXPECT(frame->get(c, i) == e, "other-channel", "channel " << c << " is " << frame->get(c, i) << " rather than " << e);
				}
			}
			for (int i = 0; i < per_frame; i += 4) {
				int s[4];
				for (int k = 0; k < 4; ++k) {
					s[k] = frame->get(13, i + k);
				}
				bool const first = s[0] > 0, second = s[2] > 0;
				EXPECT((s[0] > 0) == (s[1] > 0) && (s[2] > 0) == (s[3] > 0) && s[0] && s[1] && s[2] && s[3], "shape", "not a sync waveform at frame " << f << " sample " << i);
				bits.push_back(first != second);
				/* A new bit always begins on the other side of zero */
				EXPECT(last == 0 || (last > 0) != first, "phase", "phase not continuous at frame " << f << " sample " << i);
				last = s[3];
			}
			size_t at = 0;
			for (int p = 0; p < packets; ++p) {
				EXPECT(take(bits, at, 16) == 0x4d56, "header", "packet header wrong in frame " << f);
				uint32_t crc = 0;
				for (size_t k = at; k < at + 64; ++k) {
					bool const top = bool(crc & 0x8000) != bits[k];
					crc = (crc << 1) & 0xffff;
					if (top) {
						crc ^= 0x1021;
					}
				}
				auto const code = take(bits, at, 4);
				EXPECT(code < 9 && rates[code] == rate, "rate-code", code << " for " << rate);
				take(bits, at, 2);
				auto const part = take(bits, at, 2);
				EXPECT(int(part) == next, "part-number", part << " rather than " << next << " in frame " << f);
				char word[16];
				snprintf(word, sizeof(word), "%08x", take(bits, at, 32));
				EXPECT(id.substr(part * 8, 8) == word, "identifier", "part " << part << " is " << word << " of " << id << " in frame " << f << " at rate " << rate);
				auto const index = take(bits, at, 24);
				EXPECT(int(index) == f, "frame-index", index << " rather than " << f);
				EXPECT(take(bits, at, 16) == crc, "checksum", "wrong in frame " << f);
				EXPECT(take(bits, at, 4) == 0, "spare", "not zero");
				int const pad = rate % 24 == 0 && rate != 120 ? 25 : rate % 25 == 0 ? 20 : 0;
				for (int k = 0; k < pad; ++k) {
					EXPECT(!bits[at++], "pad", "not zero");
				}
				next = (next + 1) % 4;
				count("packets");
			}
			EXPECT(at == bits.size(), "length", at << " bits of " << bits.size());
		}
	}
	note_max("frames", frames);
	remove_tree(dir);
}

void
c18()
{
	rule("sync channel of written assets decoded from samples to packets by an independent decoder, all rates");
	gen::init();
	auto const n = budget(120, 3000);
	for (size_t i = 0; i < n; ++i) {
		sync_case(i);
	}
}

KIT_CHECK("C18", c18);

/* ---------- C28 ---------- */

struct Label { dcp::Channel channel; string id51, id71; vector<string> synonyms; };

vector<Label> const labels = {
	{ dcp::Channel::LEFT, "L", "L", {} },
	{ dcp::Channel::RIGHT, "R", "R", {} },
	{ dcp::Channel::CENTRE, "C", "C", {} },
	{ dcp::Channel::LFE, "LFE", "LFE", {} },
	{ dcp::Channel::LS, "Ls", "Lss", {"Lslss"} },
	{ dcp::Channel::RS, "Rs", "Rss", {"Rsrss"} },
	{ dcp::Channel::HI, "HI", "HI", {} },
	{ dcp::Channel::VI, "VIN", "VIN", {"VI-N"} },
	{ dcp::Channel::BSL, "Lrs", "Lrs", {"Lsr"} },
	{ dcp::Channel::BSR, "Rrs", "Rrs", {"Rsr"} },
	{ dcp::Channel::MOTION_DATA, "DBOX", "DBOX", {"DBOX2", "Mtn"} },
	{ dcp::Channel::SYNC_SIGNAL, "FSKSync", "FSKSync", {"Sync"} },
	{ dcp::Channel::SIGN_LANGUAGE, "SLVS", "SLVS", {} },
	{ dcp::Channel::LC, "Lc", "Lc", {} },
	{ dcp::Channel::RC, "Rc", "Rc", {} }
};

string
expected_string(bool seven, vector<int> const& model)
{
	string s = seven ? "71" : "51";
	char separator = '/';
	for (auto i: model) {
		s += separator;
		s += i < 0 ? "-" : seven ? labels[i].id71 : labels[i].id51;
		separator = ',';
	}
	return s;
}

void
check_model(dcp::MainSoundConfiguration const& c, bool seven, vector<int> const& model, string const& when)
{
	EXPECT(c.valid(), "valid", when);
	EXPECT(c.field() == (seven ? dcp::MCASoundField::SEVEN_POINT_ONE : dcp::MCASoundField::FIVE_POINT_ONE), "field", when);
	EXPECT(c.channels() == int(model.size()), "channels", c.channels() << " rather than " << model.size() << " " << when);
	for (size_t i = 0; i < model.size() && int(i) < c.channels(); ++i) {
		auto const m = c.mapping(i);
		EXPECT(bool(m) == (model[i] >= 0) && (!m || *m == labels[model[i]].channel), "mapping", "channel " << i << " " << when);
	}
}

void
configuration_case(size_t n)
{
	bool const seven = rng.coin();
	vector<int> model(rng.range(0, 16), -1);
	std::unique_ptr<dcp::MainSoundConfiguration> config;
	bool parsed = rng.coin();
	if (parsed) {
		string s = seven ? "71" : "51";
		char separator = '/';
		for (auto& i: model) {
			i = int(rng.below(labels.size() + 2)) - 2;
			i = std::max(i, -1);
			string id = "-";
			if (i >= 0) {
				vector<string> all = labels[i].synonyms;
				all.push_back(labels[i].id51);
				all.push_back(labels[i].id71);
				id = rng.pick(all);
				if (rng.chance(0.3)) {
					for (auto& ch: id) {
						ch = rng.coin() ? toupper(ch) : tolower(ch);
					}
				}
			}
			s += separator + id;
			separator = ',';
		}
		begin_case("parse " + s);
		config.reset(new dcp::MainSoundConfiguration(s));
		EXPECT(config->as_string() == s, "unchanged-string", s << " became " << config->as_string());
	} else {
		begin_case("build " + std::to_string(n) + " " + std::to_string(model.size()) + (seven ? " 7.1" : " 5.1"));
		config.reset(new dcp::MainSoundConfiguration(seven ? dcp::MCASoundField::SEVEN_POINT_ONE : dcp::MCASoundField::FIVE_POINT_ONE, model.size()));
		EXPECT(config->as_string() == expected_string(seven, model), "string", config->as_string());
	}
	check_model(*config, seven, model, "at first");
	for (int k = 0, steps = rng.below(10); k < steps; ++k) {
		if (!model.empty() && rng.chance(0.8)) {
			int const at = rng.below(model.size());
			int const l = rng.below(labels.size());
			model[at] = l;
			config->set_mapping(at, labels[l].channel);
		} else {
			model.resize(rng.range(0, 16), -1);
			config->set_channels(model.size());
		}
		check_model(*config, seven, model, "after change");
		EXPECT(config->as_string() == expected_string(seven, model), "string", config->as_string() << " rather than " << expected_string(seven, model));
		dcp::MainSoundConfiguration const again(config->as_string());
		check_model(again, seven, model, "after parsing " + config->as_string());
	}

	/* Something wrong in it */
	string bad = expected_string(seven, model);
	if (rng.coin()) {
		bad += (model.empty() ? "/" : ",") + rng.pick({string("X"), string("Lx"), string(""), string("LL"), string("- "), string("left"), string("Lfe2"), string("--"), string("R "), string("é")});
	} else {
		vector<int> many(rng.range(17, 40), -1);
		bad = expected_string(seven, many);
	}
	dcp::MainSoundConfiguration const wrong(bad);
	EXPECT(!wrong.valid(), "invalid-accepted", bad);
	EXPECT(wrong.as_string() == bad, "invalid-string", bad << " became " << wrong.as_string());
	int threw = 0;
	try { wrong.field(); } catch (dcp::MainSoundConfigurationError&) { ++threw; }
	try { wrong.channels(); } catch (dcp::MainSoundConfigurationError&) { ++threw; }
	try { wrong.mapping(0); } catch (dcp::MainSoundConfigurationError&) { ++threw; }
	EXPECT(threw == 3, "invalid-access", bad << " gave " << threw);
	count(parsed ? "parsed configurations" : "built configurations");
}

string
label_text(ASDCP::UL const& ul)
{
	char b[128];
	ul.EncodeString(b, sizeof(b));
	return b;
}

void
labels_case()
{
	for (auto field: { dcp::MCASoundField::FIVE_POINT_ONE, dcp::MCASoundField::SEVEN_POINT_ONE }) {
		std::set<string> ids, names, uls;
		auto const used = dcp::used_audio_channels();
		for (auto c: used) {
			begin_case("label of channel " + std::to_string(int(c)));
			auto const id = dcp::channel_to_mca_id(c, field);
			auto const name = dcp::channel_to_mca_name(c, field);
			auto const ul = label_text(dcp::channel_to_mca_universal_label(c, field, dcp::asdcp_smpte_dict));
			EXPECT(ids.insert(id).second, "label-id-distinct", id);
			EXPECT(names.insert(name).second, "label-name-distinct", name);
			EXPECT(uls.insert(ul).second, "label-ul-distinct", ul);
			EXPECT(dcp::mca_id_to_channel(id) == c, "label-back", id);
			for (auto const& l: labels) {
				if (l.channel == c) {
					EXPECT(id == (field == dcp::MCASoundField::SEVEN_POINT_ONE ? l.id71 : l.id51), "label-id", id);
				}
			}
		}
	}
	EXPECT(!dcp::mca_id_to_channel("x") && !dcp::mca_id_to_channel(""), "label-unknown", "accepted");
}

/** Labels in a written asset, seen through the CPL which refers to it */
void
written_case(size_t n)
{
	auto const dir = fresh_dir("mca");
	int const channels = rng.range(1, 16);
	vector<dcp::Channel> extra;
	vector<dcp::Channel> const possible = { dcp::Channel::HI, dcp::Channel::VI, dcp::Channel::BSL, dcp::Channel::BSR };
	for (int i = 0, k = rng.below(6); i < k; ++i) {
		extra.push_back(rng.pick(possible));
	}
	auto const language = gen::language();
	begin_case("written labels " + std::to_string(n) + " channels " + std::to_string(channels) + " extra " + std::to_string(extra.size()));
	auto sound = make_shared<dcp::SoundAsset>(dcp::Fraction(24, 1), 48000, channels, language, dcp::Standard::SMPTE);
	bool const include = rng.chance(0.9);
	{
		auto writer = sound->start_write(dir + "/s.mxf", extra, dcp::SoundAsset::AtmosSync::DISABLED, include ? dcp::SoundAsset::MCASubDescriptors::ENABLED : dcp::SoundAsset::MCASubDescriptors::DISABLED);
		vector<float> zero(2000);
		vector<float const*> p(channels, zero.data());
		writer->write(p.data(), channels, 2000);
		writer->finalize();
	}
	bool const seven = std::find(extra.begin(), extra.end(), dcp::Channel::BSL) != extra.end() || std::find(extra.begin(), extra.end(), dcp::Channel::BSR) != extra.end();
	std::set<int> active = { 0, 1, 2, 3, 4, 5 };
	for (auto e: extra) {
		active.insert(int(e));
	}
	while (!active.empty() && *active.rbegin() >= channels) {
		active.erase(std::prev(active.end()));
	}

	auto back = make_shared<dcp::SoundAsset>(boost::filesystem::path(dir + "/s.mxf"));
	if (include) {
		EXPECT(back->active_channels() == int(active.size()), "active-channels", back->active_channels() << " rather than " << active.size());
		EXPECT(back->language() == language.as_string(), "sound-language", back->language().get_value_or("none"));
	}

	dcp::CPL cpl("x", dcp::ContentKind::FEATURE, dcp::Standard::SMPTE, dcp::Profile::SMPTE_BV21);
	cpl.set_content_version(dcp::ContentVersion("urn:uuid:" + gen::uuid(), "1"));
	cpl.set_main_sound_configuration(dcp::MainSoundConfiguration(seven ? dcp::MCASoundField::SEVEN_POINT_ONE : dcp::MCASoundField::FIVE_POINT_ONE, channels));
	cpl.set_main_sound_sample_rate(48000);
	cpl.set_main_picture_stored_area(dcp::Size(1998, 1080));
	cpl.set_main_picture_active_area(dcp::Size(1998, 1080));
	auto reel = make_shared<dcp::Reel>();
	reel->add(make_shared<dcp::ReelSoundAsset>(back, 0));
	cxml::Document picture("MainPicture");
	picture.read_string("<MainPicture><Id>urn:uuid:" + gen::uuid() + "</Id><EditRate>24 1</EditRate><IntrinsicDuration>24</IntrinsicDuration><FrameRate>24 1</FrameRate><ScreenAspectRatio>1998 1080</ScreenAspectRatio></MainPicture>");
	reel->add(make_shared<dcp::ReelMonoPictureAsset>(make_shared<cxml::Node>(picture.node())));
	cpl.add(reel);
	cpl.write_xml(dir + "/cpl.xml", shared_ptr<const dcp::CertificateChain>());

	auto check = [&](string const& file) {
		cxml::Document doc("CompositionPlaylist");
		doc.read_file(file);
		auto meta = doc.node_child("ReelList")->node_child("Reel")->node_child("AssetList")->node_child("CompositionMetadataAsset");
		auto list = meta->optional_node_child("MCASubDescriptors");
		EXPECT(bool(list) == include, "descriptors-present", "descriptors " << bool(list));
		if (!list) {
			return;
		}
		auto groups = list->node_children("SoundfieldGroupLabelSubDescriptor");
		EXPECT(groups.size() == 1, "one-group", groups.size());
		if (groups.size() != 1) {
			return;
		}
		auto g = groups[0];
		EXPECT(g->string_child("MCATagSymbol") == (seven ? "sg71" : "sg51"), "group-symbol", g->string_child("MCATagSymbol"));
		EXPECT(g->string_child("MCATagName") == (seven ? "7.1DS" : "5.1"), "group-name", g->string_child("MCATagName"));
		EXPECT(g->string_child("RFC5646SpokenLanguage") == language.as_string(), "group-language", g->string_child("RFC5646SpokenLanguage"));
		auto const link = g->string_child("MCALinkID");
		std::set<int> seen;
		std::set<string> links = { link };
		for (auto c: list->node_children("AudioChannelLabelSubDescriptor")) {
			int const number = c->number_child<int>("MCAChannelID") - 1;
			EXPECT(seen.insert(number).second, "channel-twice", number);
			auto const channel = static_cast<dcp::Channel>(number);
			string expected;
			for (auto const& l: labels) {
				if (l.channel == channel) {
					expected = "ch" + (seven ? l.id71 : l.id51);
				}
			}
			EXPECT(c->string_child("MCATagSymbol") == expected, "channel-symbol", c->string_child("MCATagSymbol") << " rather than " << expected);
			auto const field = seven ? dcp::MCASoundField::SEVEN_POINT_ONE : dcp::MCASoundField::FIVE_POINT_ONE;
			EXPECT(c->string_child("MCATagName") == dcp::channel_to_mca_name(channel, field), "channel-name", c->string_child("MCATagName"));
			EXPECT(c->string_child("MCALabelDictionaryID") == "urn:smpte:ul:" + label_text(dcp::channel_to_mca_universal_label(channel, field, dcp::asdcp_smpte_dict)), "channel-ul", c->string_child("MCALabelDictionaryID"));
			EXPECT(c->string_child("SoundfieldGroupLinkID") == link, "channel-group", "not linked to the group");
			EXPECT(links.insert(c->string_child("MCALinkID")).second, "channel-link", "link used twice");
			EXPECT(c->string_child("RFC5646SpokenLanguage") == language.as_string(), "channel-language", c->string_child("RFC5646SpokenLanguage"));
		}
		EXPECT(seen == active, "channels-labelled", seen.size() << " labelled, " << active.size() << " in use");
	};
	check(dir + "/cpl.xml");
	/* and again after the CPL has been read */
	dcp::CPL const again((boost::filesystem::path(dir + "/cpl.xml")));
	if (include) {
		again.write_xml(dir + "/cpl2.xml", shared_ptr<const dcp::CertificateChain>());
		check(dir + "/cpl2.xml");
	}
	count("written assets");
	remove_tree(dir);
}

void
c28()
{
	rule("configuration strings against an independent table and a model of the mapping; labels of written assets read from the CPL that describes them");
	gen::init();
	labels_case();
	auto const n = budget(4000, 100000);
	for (size_t i = 0; i < n; ++i) {
		configuration_case(i);
	}
	auto const m = budget(200, 4000);
	for (size_t i = 0; i < m; ++i) {
		written_case(i);
	}
}

KIT_CHECK("C28", c28);

}
