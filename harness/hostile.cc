/* C01: whatever is given to the library, it succeeds or throws an exception */

#include "certs.h"
#include "gen.h"
#include "kit.h"
#include "pkg.h"
#include "bitstream.h"
#include "certificate.h"
#include "certificate_chain.h"
#include "colour_conversion.h"
#include "content_kind.h"
#include "cpl.h"
#include "dcp.h"
#include "dcp_time.h"
#include "decrypted_kdm.h"
#include "encrypted_kdm.h"
#include "exceptions.h"
#include "font_asset.h"
#include "h_align.h"
#include "interop_text_asset.h"
#include "j2k_transcode.h"
#include "key.h"
#include "language_tag.h"
#include "load_variable_z.h"
#include "local_time.h"
#include "locale_convert.h"
#include "main_sound_configuration.h"
#include "name_format.h"
#include "openjpeg_image.h"
#include "pkl.h"
#include "raw_convert.h"
#include "rating.h"
#include "reel.h"
#include "reel_file_asset.h"
#include "rgb_xyz.h"
#include "smpte_text_asset.h"
#include "text_image.h"
#include "text_string.h"
#include "types.h"
#include "utc_offset.h"
#include "util.h"
#include "v_align.h"
#include "verify.h"
#include "verify_j2k.h"
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <boost/filesystem.hpp>
#include <algorithm>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <sys/wait.h>
#include <unistd.h>

using namespace kit;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;
namespace bfs = boost::filesystem;

namespace {

/* ---------- mutation ---------- */

string
hostile_value()
{
	static vector<string> const values = {
		"", " ", "\n", "-1", "0", "1", "99999999999999999999999", "-99999999999999999999999", "2147483647", "2147483648", "-2147483648", "4294967296",
		"9223372036854775807", "-9223372036854775808", "9223372036854775808", "1e400", "-1e400", "1e-400", "nan", "-nan", "inf", "-inf", "0x10", "1.5", ".", "-", "+", ",", "1,5",
		"0/0", "1/0", "0 0", "1 0", "24 1", "24 0", "24", "24 1 1", "-24 1", "1 ", " 1", "2147483647 1", "1 2147483647", "-2147483648 -1",
		"urn:uuid:", "urn:uuid:x", "urn:uuid", "urn:", "urn:uuid:00000000-0000-0000-0000-000000000000", "urn:smpte:umid:", "00000000-0000-0000-0000-000000000000",
		"00:00:00:00", "00:00:00:000", "00:00:00.000", "99:99:99:99", "-1:-1:-1:-1", "::::", ":::", "::", "00:00:00", "00:00:00:", "2147483647:00:00:00", "00:00:00:2147483647", "99999999999:0:0:0", "a:b:c:d",
		"2020-01-01T00:00:00+00:00", "2020-13-41T25:61:61+99:99", "2020-01-01T00:00:00", "2020-01-01T00:00:00.123+00:00", "2020-01-01T", "2020-", "0000-00-00T00:00:00+00:00", "9999-12-31T23:59:59-99:99", "2020-01-01T00:00:00Z", "1399-01-01T00:00:00+00:00", "-020-01-01T00:00:00+00:00",
		"true", "false", "TRUE", "yes", "en", "en-GB", "en-", "-", "--", "x-x", "de-DE-1996", "qaa", "en-GB-GB", "zz", "abcdefghi",
		"FFFFFFFF", "FF", "GGGGGGGG", "FFFFFFFFFF", "#ffffff", "51/C,L,R,LFE,Ls,Rs", "71/", "/", "51", "//", "51/L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L", "51/-,-,-,-,-,-", "MMA/,", "WTF/L,R",
		"center", "middle", "left", "top", "vertical", "none", "border", "ltr", "ttb", "FFOC", "feature", "%n %s", "\xff\xfe", "\xc3", "\xed\xa0\x80", "&amp;", "&lt;x&gt;", "../../../etc/passwd", "/", "a/b", ".", "..", "AA==", "====", "AAAA", "QUJD\nQUJD", "A"
	};
	if (rng.chance(0.05)) {
		return string(rng.pick({100, 255, 256, 1000, 5000, 70000}), rng.pick({'a', '1', '-', ':', '/', ' '}));
	}
	if (rng.chance(0.1)) {
		auto b = rng.bytes(rng.below(20));
		return string(b.begin(), b.end());
	}
	return rng.pick(values);
}

string
mutate_bytes(string s)
{
	for (int i = 0, n = rng.pick({1, 1, 2, 4, 10}); i < n; ++i) {
		if (s.empty()) {
			s = "x";
		}
		auto const at = rng.below(s.size());
		switch (rng.below(8)) {
		case 0:
			s[at] = rng.below(256);
			break;
		case 1:
			s[at] ^= 1 << rng.below(8);
			break;
		case 2:
			s.erase(at, rng.pick({1, 1, 2, 8, 100}));
			break;
		case 3:
			s.insert(at, hostile_value());
			break;
		case 4:
			s.resize(at);
			break;
		case 5:
		{
			auto const from = rng.below(s.size());
			s.insert(at, s.substr(from, rng.below(200)));
			break;
		}
		case 6:
			s.insert(at, 1, rng.pick({'\0', '\n', '"', '<', '>', '&', ' ', ':', '-', '/', '\xff'}));
			break;
		case 7:
		{
			/* A number */
			auto const d = s.find_first_of("0123456789", at);
			if (d != string::npos) {
				auto const e = s.find_first_not_of("0123456789", d);
				s.replace(d, e == string::npos ? string::npos : e - d, hostile_value());
			}
			break;
		}
		}
	}
	return s;
}

string
xml_escape(string const& s)
{
	string out;
	for (auto c: s) {
		if (c == '<') {
			out += "&lt;";
		} else if (c == '&') {
			out += "&amp;";
		} else if (c == '"') {
			out += "&quot;";
		} else if (static_cast<unsigned char>(c) >= 32 && static_cast<unsigned char>(c) < 127) {
			out += c;
		} else if (c == '\n') {
			out += "&#10;";
		} else {
			out += "\xc3\xa9";
		}
	}
	return out;
}

/** PEM with changes to the DER within */
string
mutate_pem(string const& pem)
{
	auto const from = pem.find("-----\n");
	auto const to = pem.find("\n-----END");
	if (from == string::npos || to == string::npos || to < from + 6) {
		return mutate_bytes(pem);
	}
	auto const b = certs::base64(mutate_bytes(certs::unbase64(pem.substr(from + 6, to - from - 6))));
	string lines;
	for (size_t i = 0; i < b.size(); i += 64) {
		lines += b.substr(i, 64) + "\n";
	}
	return pem.substr(0, from + 6) + lines + pem.substr(to + 1);
}

string
encrypt_for(int key, string const& block)
{
	auto const pem = certs::key_pem(key);
	auto bio = BIO_new_mem_buf(pem.data(), pem.size());
	auto rsa = PEM_read_bio_RSAPrivateKey(bio, nullptr, nullptr, nullptr);
	string out(RSA_size(rsa), ' ');
	auto const r = RSA_public_encrypt(block.size(), reinterpret_cast<unsigned char const*>(block.data()), reinterpret_cast<unsigned char*>(&out[0]), rsa, RSA_PKCS1_OAEP_PADDING);
	if (r < 0) {
		harness_error("could not encrypt");
	}
	RSA_free(rsa);
	BIO_free(bio);
	return out;
}

struct Token
{
	enum { OPEN, CLOSE, EMPTY, TEXT, OTHER } type;
	size_t from, length;
};

vector<Token>
tokenise(string const& xml)
{
	vector<Token> out;
	size_t at = 0;
	while (at < xml.size()) {
		if (xml[at] == '<') {
			auto end = xml.find('>', at);
			if (end == string::npos) {
				break;
			}
			Token t;
			t.from = at;
			t.length = end - at + 1;
			t.type = xml[at + 1] == '/' ? Token::CLOSE : (xml[at + 1] == '?' || xml[at + 1] == '!') ? Token::OTHER : xml[end - 1] == '/' ? Token::EMPTY : Token::OPEN;
			out.push_back(t);
			at = end + 1;
		} else {
			auto end = xml.find('<', at);
			if (end == string::npos) {
				end = xml.size();
			}
			out.push_back({Token::TEXT, at, end - at});
			at = end;
		}
	}
	return out;
}

/** Index of the token that closes one */
size_t
closing(vector<Token> const& t, size_t open)
{
	if (t[open].type == Token::EMPTY) {
		return open;
	}
	int depth = 0;
	for (size_t i = open; i < t.size(); ++i) {
		if (t[i].type == Token::OPEN) {
			++depth;
		} else if (t[i].type == Token::CLOSE && --depth == 0) {
			return i;
		}
	}
	return open;
}

string
mutate_xml(string xml, vector<string> const& donors)
{
	for (int n = rng.pick({1, 1, 1, 2, 3}); n > 0; --n) {
		auto const t = tokenise(xml);
		vector<size_t> elements, leaves;
		for (size_t i = 1; i < t.size(); ++i) {
			if (t[i].type == Token::OPEN || t[i].type == Token::EMPTY) {
				elements.push_back(i);
				if (t[i].type == Token::OPEN && i + 2 < t.size() && t[i + 1].type == Token::TEXT && t[i + 2].type == Token::CLOSE) {
					leaves.push_back(i + 1);
				}
			}
		}
		if (elements.size() < 2) {
			return mutate_bytes(xml);
		}
		auto const e = elements[1 + rng.below(elements.size() - 1)];
		auto const end = closing(t, e);
		auto const from = t[e].from;
		auto const length = t[end].from + t[end].length - from;
		switch (rng.below(10)) {
		case 0:
			xml.erase(from, length);
			break;
		case 1:
			for (int i = rng.pick({1, 1, 2, 20}); i > 0; --i) {
				xml.insert(from, xml.substr(from, length));
			}
			break;
		case 2:
		case 3:
		case 4:
			if (!leaves.empty()) {
				auto const l = t[rng.pick(leaves)];
				xml.replace(l.from, l.length, xml_escape(hostile_value()));
			}
			break;
		case 5:
		{
			/* Attributes */
			auto const tag = xml.substr(t[e].from, t[e].length);
			vector<size_t> at;
			for (size_t i = tag.find("=\""); i != string::npos; i = tag.find("=\"", i + 1)) {
				at.push_back(i);
			}
			if (at.empty()) {
				xml.insert(t[e].from + t[e].length - (t[e].type == Token::EMPTY ? 2 : 1), " " + rng.pick({string("Id"), string("Language"), string("Font"), string("xmlns"), string("TimeIn"), string("x")}) + "=\"" + xml_escape(hostile_value()) + "\"");
				break;
			}
			auto const a = rng.pick(at);
			auto const close = tag.find('"', a + 2);
			if (close == string::npos) {
				break;
			}
			if (rng.chance(0.3)) {
				/* Lose it */
				auto const space = tag.rfind(' ', a);
				if (space != string::npos) {
					xml.erase(t[e].from + space, close + 1 - space);
				}
			} else {
				xml.replace(t[e].from + a + 2, close - a - 2, xml_escape(hostile_value()));
			}
			break;
		}
		case 6:
		{
			/* Something from somewhere else */
			auto const donor = rng.pick(donors);
			auto const u = tokenise(donor);
			vector<size_t> d;
			for (size_t i = 2; i < u.size(); ++i) {
				if (u[i].type == Token::OPEN || u[i].type == Token::EMPTY) {
					d.push_back(i);
				}
			}
			if (d.empty()) {
				break;
			}
			auto const f = rng.pick(d);
			auto const g = closing(u, f);
			auto const piece = donor.substr(u[f].from, u[g].from + u[g].length - u[f].from);
			if (rng.coin()) {
				xml.replace(from, length, piece);
			} else {
				xml.insert(from, piece);
			}
			break;
		}
		case 7:
			/* Empty it */
			if (end > e) {
				xml.erase(t[e].from + t[e].length, t[end].from - t[e].from - t[e].length);
			}
			break;
		case 8:
			/* Another name */
		{
			auto const name_end = xml.find_first_of(" >/", t[e].from);
			auto const name = xml.substr(t[e].from + 1, name_end - t[e].from - 1);
			if (end > e) {
				xml.replace(t[end].from, t[end].length, "</" + name + "x>");
			}
			xml.insert(name_end, "x");
			break;
		}
		case 9:
			xml = mutate_bytes(xml);
			break;
		}
	}
	return xml;
}

/* ---------- material ---------- */

struct Material
{
	vector<string> asset_maps, pkls, cpls, interop_texts, smpte_texts, kdms, pems, keys, j2ks;
	vector<string> packages;   ///< directories
};

Material material;
vector<int> kdm_key;

void
make_material()
{
	for (int i = 0; i < 6; ++i) {
		pkg::Limits l;
		l.cpls = 2;
		l.reels = 2;
		l.complete = i % 3 == 0;
		auto spec = pkg::random(l);
		auto const dir = fresh_dir("material" + std::to_string(i));
		auto built = pkg::build(spec, dir, true);
		material.packages.push_back(dir);
		for (auto const& f: pkg::files_in(dir)) {
			auto const text = read_file(dir + "/" + f);
			if (text.substr(0, 5) != "<?xml") {
				continue;
			}
			if (text.find("<AssetMap") != string::npos) {
				material.asset_maps.push_back(text);
			} else if (text.find("<PackingList ") != string::npos) {
				material.pkls.push_back(text);
			} else if (text.find("<CompositionPlaylist ") != string::npos) {
				material.cpls.push_back(text);
			} else if (text.find("<DCSubtitle") != string::npos) {
				material.interop_texts.push_back(text);
			}
		}
		for (auto a: built.assets) {
			if (auto t = std::dynamic_pointer_cast<dcp::SMPTETextAsset>(a)) {
				material.smpte_texts.push_back(t->xml_as_string());
			}
		}
	}
	/* With more things in them */
	material.interop_texts.push_back(R"(<?xml version="1.0" encoding="UTF-8"?>
<DCSubtitle Version="1.0"><SubtitleID>urn:uuid:f2a8b6d5-3c1f-4f60-9f3b-1d4c5c6f7a80</SubtitleID><MovieTitle>T</MovieTitle><ReelNumber>1</ReelNumber><Language>French</Language>
<LoadFont Id="A" URI="a.ttf"/><Font Id="A" Color="FFFFFFFF" Effect="border" EffectColor="FF000000" Italic="yes" Script="super" Size="39" AspectAdjust="0.9" Spacing="-0.05em" Underlined="yes" Weight="bold">
<Subtitle SpotNumber="1" TimeIn="00:00:05:198" TimeOut="00:00:07:115" FadeUpTime="1" FadeDownTime="00:00:00:010"><Text HAlign="center" HPosition="0" VAlign="bottom" VPosition="15" Direction="horizontal">My jacket <Font Italic="no">was</Font> <Ruby><Rb>a</Rb><Rt Size="0.5" Position="before" Offset="1" Spacing="0.2" AspectAdjust="1.0">b</Rt></Ruby><Space Size="0.5em"/></Text><Text>x</Text><Image VPosition="3" ZPosition="0.3">f2a8b6d5-3c1f-4f60-9f3b-1d4c5c6f7a80.png</Image></Subtitle>
<Subtitle SpotNumber="2" TimeIn="00:00:08.500" TimeOut="00:00:09.5"><Text VariableZ="z1">x<Font Color="80FF0000">3</Font></Text></Subtitle></Font><LoadVariableZ ID="z1">1:24 -2:12</LoadVariableZ></DCSubtitle>)");
	material.smpte_texts.push_back(R"(<?xml version="1.0" encoding="UTF-8"?>
<SubtitleReel xmlns="http://www.smpte-ra.org/schemas/428-7/2014/DCST" xmlns:xs="http://www.w3.org/2001/XMLSchema"><Id>urn:uuid:f2a8b6d5-3c1f-4f60-9f3b-1d4c5c6f7a81</Id><ContentTitleText>T</ContentTitleText><AnnotationText>a</AnnotationText><IssueDate>2018-10-02T12:25:14+02:00</IssueDate><ReelNumber>1</ReelNumber><Language>en-US</Language><EditRate>25 1</EditRate><TimeCodeRate>25</TimeCodeRate><StartTime>00:00:00:00</StartTime><DisplayType>MainSubtitle</DisplayType>
<LoadFont ID="A">urn:uuid:f2a8b6d5-3c1f-4f60-9f3b-1d4c5c6f7a82</LoadFont><LoadVariableZ ID="z1">1:24 -2:12 0.5</LoadVariableZ><SubtitleList><Font ID="A" Color="FFFFFFFF" Effect="shadow" EffectColor="FF000000" Size="39" Weight="normal" Feather="yes">
<Subtitle SpotNumber="1" TimeIn="00:00:05:10" TimeOut="00:00:07:11" FadeUpTime="00:00:00:01" FadeDownTime="00:00:00:02"><Text Halign="center" Hposition="0" Valign="bottom" Vposition="15" Zposition="1" VariableZ="z1">a <Ruby><Rb>b</Rb><Rt Position="after">c</Rt></Ruby> d</Text><Image Valign="top" Vposition="2">urn:uuid:f2a8b6d5-3c1f-4f60-9f3b-1d4c5c6f7a83</Image></Subtitle></Font></SubtitleList></SubtitleReel>)");
	/* Images which are mentioned */
	for (auto texts: { &material.interop_texts, &material.smpte_texts }) {
		for (auto const& t: *texts) {
			for (auto i = t.find("</Image>"); i != string::npos; i = t.find("</Image>", i + 1)) {
				auto const from = t.find_last_of(">:", i);
				auto name = t.substr(from + 1, i - from - 1);
				if (name.find(".png") == string::npos) {
					name += ".png";
				}
				write_file(opt.scratch + "/" + name, "image " + name);
			}
		}
	}
	certs::ChainLimits l;
	l.max = 3;
	for (int i = 0; i < 3; ++i) {
		auto const chain = certs::random_chain(l);
		string all;
		for (auto const& p: chain.pems) {
			material.pems.push_back(p);
			all += p;
		}
		material.pems.push_back(all);
		auto signer = certs::chain_for(chain);
		dcp::DecryptedKDM d(dcp::LocalTime("2021-01-01T00:00:00+00:00"), dcp::LocalTime("2022-01-01T00:00:00+00:00"), "a", "b", "2020-01-01T00:00:00+00:00");
		for (int k = 0; k < 3; ++k) {
			d.add_key(std::string("MDIK"), gen::uuid(), dcp::Key(pkg::crypt().key), gen::uuid(), dcp::Standard::SMPTE);
		}
		material.kdms.push_back(d.encrypt(signer, dcp::Certificate(chain.pems.back()), {"AAAAAAAAAAAAAAAAAAAAAAAAAAA="}, rng.coin() ? dcp::Formulation::DCI_SPECIFIC : dcp::Formulation::MODIFIED_TRANSITIONAL_1, true, 3).as_xml());
		kdm_key.push_back(chain.leaf_key());
	}
	for (int i = 0; i < 4; ++i) {
		material.keys.push_back(certs::key_pem(i * 3));
	}
	for (int i = 0; i < 4; ++i) {
		auto const& p = pkg::picture(i, i % 2);
		material.j2ks.push_back(string(reinterpret_cast<char const*>(p.data()), p.size()));
	}
}

/* ---------- targets ---------- */

string
in_file(string const& content, string const& name = "hostile.xml")
{
	auto const f = opt.scratch + "/" + name;
	write_file(f, content);
	return f;
}

typedef std::function<void (string const&)> Target;

void
use_text(dcp::TextAsset& asset)
{
	for (auto i: asset.texts()) {
		i->in().as_string(dcp::Standard::SMPTE);
		i->in().as_seconds();
		(i->out() - i->in()).as_seconds();
		if (auto s = std::dynamic_pointer_cast<const dcp::TextString>(i)) {
			std::ostringstream o;
			o << *s;
		}
	}
	asset.texts_during(dcp::Time(0, 0, 0, 0, 24), dcp::Time(0, 0, 10, 0, 24), false);
	asset.latest_text_out();
	asset.font_data();
	asset.fix_empty_font_ids();
	asset.xml_as_string();
}

void
asset_map_target(string const& s)
{
	dcp::AssetMap m((bfs::path(in_file(s))));
	m.asset_ids_and_paths();
	for (auto const& a: m.assets()) {
		a.path();
		a.id();
	}
	m.pkl_paths();
	for (auto const& a: m.assets()) {
		if (a.path().string().find("..") == string::npos && a.path().string().find(opt.scratch) == 0 && !file_exists(a.path().string()) && bfs::exists(a.path().parent_path())) {
			/* Not every name can be used */
			std::ofstream(a.path().string()) << "x";
		}
	}
	m.write_xml(opt.scratch + "/out.xml");
}

void
pkl_target(string const& s)
{
	vector<dcp::VerificationNote> notes;
	dcp::PKL p(bfs::path(in_file(s)), rng.coin() ? &notes : nullptr);
	for (auto a: p.assets()) {
		p.hash(a->id());
		p.type(a->id());
	}
	p.write_xml(opt.scratch + "/out.xml", {});
}

void
cpl_target(string const& s)
{
	vector<dcp::VerificationNote> notes;
	auto cpl = make_shared<dcp::CPL>(bfs::path(in_file(s)), rng.coin() ? &notes : nullptr);
	cpl->any_encrypted();
	cpl->all_encrypted();
	cpl->can_be_read();
	cpl->reel_file_assets();
	cpl->issuer();
	cpl->content_kind();
	cpl->content_version();
	cpl->content_versions();
	cpl->ratings();
	cpl->luminance();
	if (auto c = cpl->main_sound_configuration()) {
		c->channels();
		c->valid();
		c->as_string();
	}
	cpl->picture_encoding();
	cpl->set_version_number(3);
	try {
		cpl->duration();
	} catch (std::exception &) {

	}
	cpl->resolve_refs({});
	cpl->write_xml(opt.scratch + "/out.xml", {});
	auto other = make_shared<dcp::CPL>(bfs::path(opt.scratch + "/out.xml"));
	cpl->equals(other, {}, [](dcp::NoteType, string) {});
}

void
interop_target(string const& s)
{
	dcp::InteropTextAsset a((bfs::path(in_file(s))));
	a.resolve_fonts({});
	a.reel_number();
	a.language();
	a.load_font_nodes();
	use_text(a);
	a.write(opt.scratch + "/out.xml");
}

void
smpte_target(string const& s)
{
	dcp::SMPTETextAsset a((bfs::path(in_file(s))));
	a.load_font_nodes();
	a.start_time();
	a.language();
	a.issue_date();
	use_text(a);
	a.write(opt.scratch + "/out.mxf");
}

void
kdm_target(string const& s)
{
	dcp::EncryptedKDM kdm(s);
	kdm.keys();
	kdm.id();
	auto a = kdm.annotation_text();
	kdm.content_title_text();
	kdm.issue_date();
	kdm.cpl_id();
	kdm.recipient_x509_subject_name();
	kdm.trusted_devices();
	/* Each of these can fail by itself */
	auto const each = {
		std::function<void ()>([&kdm]() { kdm.not_valid_before().as_string(); kdm.not_valid_after().as_string(); }),
		std::function<void ()>([&kdm]() { kdm.signer_certificate_chain().leaf_to_root(); }),
		std::function<void ()>([&kdm]() { dcp::EncryptedKDM again(kdm.as_xml()); }),
		std::function<void ()>([&kdm]() {
			for (auto k: kdm_key) {
				try {
					dcp::DecryptedKDM d(kdm, certs::key_pem(k));
					for (auto const& i: d.keys()) {
						i.type();
						i.id();
						i.cpl_id();
						i.key().hex();
					}
					count("KDMs decrypted");
				} catch (std::exception &) {

				}
			}
		})
	};
	for (auto const& e: each) {
		try {
			e();
		} catch (std::exception &) {

		}
	}
}

void
certificate_target(string const& s)
{
	auto const each = {
		std::function<void ()>([&s]() {
			dcp::Certificate c(s);
			c.certificate(true);
			c.issuer();
			c.serial();
			c.subject();
			c.subject_common_name();
			c.subject_organization_name();
			c.subject_organizational_unit_name();
			c.not_before();
			c.not_after();
			c.thumbprint();
			c.has_utf8_strings();
			dcp::public_key_digest(c.public_key());
		}),
		std::function<void ()>([&s]() {
			dcp::CertificateChain c(s);
			c.chain_valid();
			c.valid();
			c.root_to_leaf();
			c.leaf();
		}),
		std::function<void ()>([&s]() {
			dcp::Certificate c;
			c.read_string(s);
		})
	};
	for (auto const& e: each) {
		try {
			e();
			count("certificates taken");
		} catch (std::exception &) {

		}
	}
}

void
key_target(string const& s)
{
	try {
		dcp::private_key_fingerprint(s);
		count("keys taken");
	} catch (std::exception &) {

	}
	dcp::CertificateChain c(material.pems[0]);
	c.set_key(s);
	c.private_key_valid();
	c.valid();
}

void
j2k_target(string const& s)
{
	auto data = make_shared<dcp::ArrayData>(reinterpret_cast<uint8_t const*>(s.data()), s.size());
	vector<dcp::VerificationNote> notes;
	dcp::verify_j2k(data, 0, 0, rng.pick({24, 25, 30, 48, 60}), notes);
	auto image = dcp::decompress_j2k(*data, rng.pick({0, 0, 1, 2, 5, 6}));
	if (image->size().width > 512 || image->size().height > 512) {
		return;
	}
	count("images taken");
	int64_t sum = 0;
	for (int c = 0; c < 3; ++c) {
		for (int i = 0; i < image->size().width * image->size().height; ++i) {
			sum += image->data(c)[i];
		}
	}
	if (sum == 1) {
		count("dark");
	}
	vector<uint8_t> rgba(static_cast<size_t>(image->size().width) * image->size().height * 4);
	dcp::xyz_to_rgba(image, dcp::ColourConversion::srgb_to_xyz(), rgba.data(), image->size().width * 4);
}

void
value_target(string const& s)
{
	static vector<std::pair<string, Target>> const each = {
		{ "local time", [](string const& s) { dcp::LocalTime t(s); t.as_string(); t.as_time_t(); t.add_days(1); t.add_months(1); t.add_minutes(1); } },
		{ "time", [](string const& s) { dcp::Time t(s, boost::none); t.as_string(dcp::Standard::INTEROP); t.as_seconds(); t.as_editable_units_floor(24); t.rebase(48); t == dcp::Time(); } },
		{ "time at a rate", [](string const& s) { dcp::Time t(s, rng.pick({24, 25, 250, 1, 1000})); t.as_string(dcp::Standard::SMPTE); t.as_editable_units_floor(24); t.as_editable_units_ceil(25); t.rebase(25); auto u = t + t; u = u - t; u < t; } },
		{ "key", [](string const& s) { dcp::Key k(s); k.hex(); } },
		{ "language", [](string const& s) { dcp::LanguageTag t(s); t.description(); t.as_string(); } },
		{ "region", [](string const& s) { dcp::LanguageTag::RegionSubtag t(s); t.subtag(); } },
		{ "fraction", [](string const& s) { dcp::Fraction f(s); f.as_string(); f.as_float(); } },
		{ "colour", [](string const& s) { dcp::Colour c(s); c.to_rgb_string(); c.to_argb_string(); } },
		{ "content kind", [](string const& s) { dcp::ContentKind::from_name(s); } },
		{ "marker", [](string const& s) { dcp::marker_to_string(dcp::marker_from_string(s)); } },
		{ "sound configuration", [](string const& s) { dcp::MainSoundConfiguration c(s); c.channels(); c.valid(); c.as_string(); for (int i = 0; i < c.channels(); ++i) { c.mapping(i); } c.set_mapping(0, dcp::Channel::LEFT); } },
		{ "horizontal alignment", [](string const& s) { dcp::string_to_halign(s); } },
		{ "vertical alignment", [](string const& s) { dcp::string_to_valign(s); } },
		{ "effect", [](string const& s) { dcp::string_to_effect(s); } },
		{ "direction", [](string const& s) { dcp::string_to_direction(s); } },
		{ "status", [](string const& s) { dcp::string_to_status(s); } },
		{ "unit", [](string const& s) { dcp::Luminance::string_to_unit(s); } },
		{ "formulation", [](string const& s) { dcp::string_to_formulation(s); } },
		{ "identifier", [](string const& s) { dcp::remove_urn_uuid(s); dcp::ids_equal(s, s); } },
		{ "integer", [](string const& s) { dcp::raw_convert<int>(s); } },
		{ "long", [](string const& s) { dcp::raw_convert<int64_t>(s); } },
		{ "float", [](string const& s) { dcp::raw_convert<float>(s); } },
		{ "localised float", [](string const& s) { dcp::locale_convert<float>(s); } },
		{ "template", [](string const& s) { dcp::NameFormat f(s); f.get({{'t', "x"}, {'n', s}}, s); } },
		{ "length", [](string const& s) { dcp::utf8_strlen(s); } },
		{ "base64", [](string const& s) { vector<uint8_t> out(rng.below(s.size() + 4)); dcp::base64_decode(s, out.data(), out.size()); } },
		{ "tag exists", [](string const& s) { dcp::LanguageTag::get_subtag_description(rng.pick({dcp::LanguageTag::SubtagType::LANGUAGE, dcp::LanguageTag::SubtagType::SCRIPT, dcp::LanguageTag::SubtagType::REGION, dcp::LanguageTag::SubtagType::VARIANT, dcp::LanguageTag::SubtagType::EXTLANG}), s); } },
	};
	for (auto const& e: each) {
		try {
			e.second(s);
			count(e.first + " taken");
		} catch (std::exception &) {

		}
	}
}

void
package_target(string const&)
{
	auto const from = rng.pick(material.packages);
	auto const dir = fresh_dir("package");
	auto files = pkg::files_in(from);
	for (auto const& f: files) {
		bfs::create_directories(bfs::path(dir + "/" + f).parent_path());
		bfs::copy_file(from + "/" + f, dir + "/" + f);
	}
	auto const victim = rng.pick(files);
	auto const content = read_file(dir + "/" + victim);
	bfs::permissions(dir + "/" + victim, bfs::owner_read | bfs::owner_write);
	if (content.substr(0, 5) == "<?xml") {
		write_file(dir + "/" + victim, mutate_xml(content, material.cpls));
	} else if (rng.coin()) {
		bfs::remove(dir + "/" + victim);
	} else {
		/* The container is not the library's, so change only what is taken as a whole */
		write_file(dir + "/" + victim, rng.coin() ? "" : "not what it should be");
	}
	try {
		dcp::DCP dcp(dir);
		vector<dcp::VerificationNote> notes;
		dcp.read(rng.coin() ? &notes : nullptr, rng.coin());
		dcp.any_encrypted();
		dcp.all_encrypted();
		dcp.assets();
		dcp.standard();
		dcp::DCP again(dir);
		again.read(&notes);
		dcp.equals(again, {}, [](dcp::NoteType, string) {});
		for (auto cpl: dcp.cpls()) {
			cpl->reel_file_assets();
			for (auto reel: cpl->reels()) {
				reel->duration();
			}
		}
		count("packages read");
	} catch (std::exception &) {

	}
	if (rng.chance(0.15)) {
		dcp::verify({dir}, {}, [](string, boost::optional<bfs::path>) {}, [](float) {}, {}, bfs::path(opt.repo + "/xsd"));
		count("packages verified");
	}
}

struct Kind
{
	string name;
	vector<string>* from;
	bool xml;
	Target target;
	int share;
};

void
hostile()
{
	gen::init();
	auto const base = opt.seed * 1000003 + opt.shard * 7919;
	rng.reseed(base);
	make_material();

	vector<Kind> const kinds = {
		{ "asset map", &material.asset_maps, true, asset_map_target, 6 },
		{ "packing list", &material.pkls, true, pkl_target, 6 },
		{ "playlist", &material.cpls, true, cpl_target, 12 },
		{ "Interop text", &material.interop_texts, true, interop_target, 12 },
		{ "SMPTE text", &material.smpte_texts, true, smpte_target, 12 },
		{ "KDM", &material.kdms, true, kdm_target, 6 },
		{ "certificate", &material.pems, false, certificate_target, 6 },
		{ "private key", &material.keys, false, key_target, 4 },
		{ "JPEG2000", &material.j2ks, false, j2k_target, 10 },
		{ "value", nullptr, false, value_target, 20 },
		{ "package", nullptr, false, package_target, 4 },
	};

	vector<int> wheel;
	for (size_t i = 0; i < kinds.size(); ++i) {
		if (kinds[i].from && kinds[i].from->empty()) {
			harness_error("no " + kinds[i].name);
		}
		wheel.insert(wheel.end(), kinds[i].share, i);
	}

	static vector<string> const valid = {
		"2020-01-02T03:04:05+01:30", "2020-01-02T03:04:05.678-09:30", "01:02:03:04", "01:02:03.456", "0102030405060708090a0b0c0d0e0f10", "de-Latn-DE-1996-x-foo", "en-GB", "zh-cmn-Hans-CN",
		"24 1", "FF112233", "feature", "FFOC", "51/L,R,C,LFE,Ls,Rs,HI,VIN,-,-,-,-,-,DBOX,Sync,Sign", "center", "bottom", "border", "rtl", "final", "candela-per-square-metre", "urn:uuid:f2a8b6d5-3c1f-4f60-9f3b-1d4c5c6f7a80", "12345", "-1.25", "%t_%n_x", "QUJDREVGR0g=", "modified-transitional-1"
	};

	auto const n = budget(24000, 400000);
	int const only = getenv("HOSTILE_ONLY") ? atoi(getenv("HOSTILE_ONLY")) : -1;
	for (size_t i = 0; i < n; ++i) {
		if (only >= 0 && static_cast<int>(i) != only) {
			continue;
		}
		rng.reseed(base * 31 + i * 2654435761u + 17);
		auto const& kind = kinds[rng.pick(wheel)];
		string input;
		bool changed = true;
		if (kind.from) {
			auto const original = rng.pick(*kind.from);
			if (kind.name == "KDM" && rng.coin()) {
				/* Properly encrypted keys which hold other things */
				input = original;
				auto from = input.find("CipherValue>", input.find("CipherValue>") + (rng.coin() ? 20 : 0));
				auto to = from == string::npos ? from : input.find("</", from);
				if (to != string::npos && input[from - 1] != '/') {
					auto block = rng.bytes(rng.pick({0, 1, 16, 100, 132, 133, 134, 135, 137, 138, 139, 180}));
					input.replace(from + 12, to - from - 12, certs::base64(encrypt_for(rng.pick(kdm_key), string(block.begin(), block.end()))));
				}
			} else if (kind.xml) {
				input = mutate_xml(original, rng.chance(0.8) ? *kind.from : material.cpls);
			} else if ((kind.name == "certificate" || kind.name == "private key") && rng.chance(0.7)) {
				input = mutate_pem(original);
			} else if (kind.name == "JPEG2000" && rng.coin()) {
				/* Near the beginning */
				auto const split = std::min<size_t>(original.size(), rng.pick({60, 120, 250}));
				input = mutate_bytes(original.substr(0, split)) + original.substr(split);
			} else {
				input = mutate_bytes(original);
			}
			changed = input != original;
		} else {
			switch (rng.below(3)) {
			case 0:
				input = hostile_value();
				break;
			case 1:
				input = mutate_bytes(rng.pick(valid));
				break;
			case 2:
				input = mutate_bytes(rng.pick(valid) + hostile_value());
				break;
			}
		}
		begin_case(kind.name + " #" + std::to_string(i) + " " + std::to_string(hash(input)) + (kind.from ? "" : " " + printable(input, 60)), changed);
		if (getenv("HOSTILE_FORK")) {
			/* To collect many failures in one go while developing */
			write_file(opt.scratch + "/last", input);
			auto const child = fork();
			if (child == 0) {
				alarm(20);
				try {
					kind.target(input);
				} catch (std::exception &) {

				}
				_exit(0);
			}
			int status;
			waitpid(child, &status, 0);
			if (status) {
				fprintf(stderr, "FAILED %zu %s %d\n", i, kind.name.c_str(), status);
			}
			continue;
		}
		try {
			kind.target(input);
			count(kind.name + ": taken");
		} catch (std::exception& e) {
			count(kind.name + ": refused");
			if (getenv("HOSTILE_WHY")) {
				fprintf(stderr, "WHY %s %s\n", kind.name.c_str(), e.what());
			}
		} catch (...) {
			violation("foreign-exception", "something which is not an exception was thrown for " + printable(input, 2000));
		}
		observed();
	}

	rule("every call with changed input returned or threw something derived from std::exception, with address and undefined behaviour sanitizers silent");
}

KIT_CHECK("C01", hostile);

}
