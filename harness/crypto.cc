/* C34: keys through KDMs; C35: KDM documents; C36: certificate chains; C37: signatures */

#include "certs.h"
#include "gen.h"
#include "kit.h"
#include "pkg.h"
#include "certificate.h"
#include "certificate_chain.h"
#include "cpl.h"
#include "dcp.h"
#include "decrypted_kdm.h"
#include "decrypted_kdm_key.h"
#include "encrypted_kdm.h"
#include "exceptions.h"
#include "key.h"
#include "local_time.h"
#include "pkl.h"
#include "reel.h"
#include "reel_file_asset.h"
#include "types.h"
#include "util.h"
#include <boost/filesystem.hpp>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <algorithm>
#include <cstring>
#include <map>
#include <set>

using namespace kit;
using std::make_pair;
using std::make_shared;
using std::pair;
using std::shared_ptr;
using std::string;
using std::vector;
using boost::optional;
namespace bfs = boost::filesystem;

namespace {

string
squash(string const& s)
{
	string out;
	for (auto c: s) {
		if (!strchr(" \t\r\n", c)) {
			out += c;
		}
	}
	return out;
}

string
unescaped(string s)
{
	string out;
	for (auto c: s) {
		if (c != '\\') {
			out += c;
		}
	}
	return out;
}

/** PEM written some other way */
string
respaced(string const& pem)
{
	auto const body = certs::base64(certs::der(pem));
	string const nl = rng.coin() ? "\n" : "\r\n";
	string s;
	if (rng.chance(0.3)) {
		s += "Some words" + nl + nl;
	}
	s += "-----BEGIN CERTIFICATE-----" + nl;
	int const width = rng.pick({64, 76, 1, 13, 100000});
	for (size_t i = 0; i < body.size(); i += width) {
		s += (rng.chance(0.1) ? " " : "") + body.substr(i, width) + (rng.chance(0.1) ? "  " : "") + nl;
	}
	s += "-----END CERTIFICATE-----" + (rng.chance(0.9) ? nl : "");
	return s;
}

vector<string>
pems(dcp::CertificateChain::List const& list)
{
	vector<string> out;
	for (auto const& i: list) {
		out.push_back(i.certificate(true));
	}
	return out;
}

/* ---------- C36 ---------- */

void
check_certificate(certs::Spec const& spec, string const& pem)
{
	dcp::Certificate c(respaced(pem));
	EXPECT(c.certificate(true) == pem, "pem", "certificate changed by reading and writing");
	EXPECT(squash(c.certificate(false)) == certs::base64(certs::der(pem)), "pem-body", "certificate without begin and end lines differs");
	EXPECT(c.subject() == certs::rfc2253(spec.subject), "subject", c.subject() << " rather than " << certs::rfc2253(spec.subject));
	EXPECT(c.issuer() == certs::rfc2253(spec.issuer), "issuer", c.issuer() << " rather than " << certs::rfc2253(spec.issuer));
	EXPECT(c.subject_common_name() == spec.subject.cn, "subject-cn", printable(c.subject_common_name()));
	EXPECT(c.subject_organization_name() == spec.subject.o, "subject-o", printable(c.subject_organization_name()));
	EXPECT(c.subject_organizational_unit_name() == spec.subject.ou, "subject-ou", printable(c.subject_organizational_unit_name()));
	EXPECT(c.subject_dn_qualifier() == spec.subject.dn, "subject-dn", printable(c.subject_dn_qualifier()));
	EXPECT(c.issuer_common_name() == spec.issuer.cn, "issuer-cn", printable(c.issuer_common_name()));
	EXPECT(c.issuer_organization_name() == spec.issuer.o, "issuer-o", printable(c.issuer_organization_name()));
	EXPECT(c.issuer_organizational_unit_name() == spec.issuer.ou, "issuer-ou", printable(c.issuer_organizational_unit_name()));
	EXPECT(c.serial() == spec.serial, "serial", c.serial() << " rather than " << spec.serial);
	EXPECT(c.has_utf8_strings() == spec.subject.utf8, "utf8", c.has_utf8_strings());
	EXPECT(c.not_before().as_time_t() == spec.not_before, "not-before", c.not_before().as_string() << " rather than " << spec.not_before);
	EXPECT(c.not_after().as_time_t() == spec.not_after, "not-after", c.not_after().as_string() << " rather than " << spec.not_after);
	EXPECT(c.thumbprint() == certs::thumbprint(pem), "thumbprint", c.thumbprint() << " rather than " << certs::thumbprint(pem));
	EXPECT(unescaped(dcp::public_key_digest(c.public_key())) == certs::public_key_digest(spec.key), "key-digest", dcp::public_key_digest(c.public_key()) << " rather than " << certs::public_key_digest(spec.key));

	/* Copies */
	dcp::Certificate copy(c);
	dcp::Certificate assigned;
	assigned = c;
	auto& alias = assigned;
	assigned = alias;
	c = dcp::Certificate(pem);
	EXPECT(copy == assigned && copy == c && copy.certificate(true) == pem && !(copy < c) && !(c < copy), "copies", "copies of a certificate are not equal");
	observed(20);
}

enum Flaw {
	NOTHING,
	MISSING_LINK,
	MISSING_ROOT,
	FOREIGN,
	DUPLICATE,
	FORGED,
	BAD_SIGNATURE,
	NOT_CA,
	TWO_LEAVES,
	WRONG_ISSUER_NAME,
	FLAWS
};

char const* const flaw_names[] = { "none", "missing link", "missing root", "foreign", "duplicate", "forged link", "bad signature", "link is not a CA", "two leaves", "wrong issuer name" };

void
chain_case(size_t n)
{
	auto const flaw = n % 2 ? static_cast<Flaw>(1 + rng.below(FLAWS - 1)) : NOTHING;
	certs::ChainLimits limits;
	limits.min = flaw == NOTHING ? 1 : 3;
	limits.max = 5;
	auto chain = certs::random_chain(limits);
	auto all = chain.pems;
	int const m = all.size();
	/* A key which is not used otherwise */
	std::set<int> used;
	for (auto const& s: chain.specs) {
		used.insert(s.key);
	}
	int spare = 0;
	while (used.find(spare) != used.end()) {
		++spare;
	}
	switch (flaw) {
	case MISSING_LINK:
		all.erase(all.begin() + rng.range(1, m - 2));
		break;
	case MISSING_ROOT:
		all.erase(all.begin());
		break;
	case FOREIGN:
	{
		auto l = limits;
		l.min = l.max = 1;
		all.push_back(certs::random_chain(l).pems[0]);
		break;
	}
	case DUPLICATE:
		all.push_back(rng.pick(all));
		break;
	case FORGED:
	{
		/* Says that it was issued by the right one, but signed by another */
		int const i = rng.range(1, m - 1);
		auto s = chain.specs[i];
		s.signing_key = spare;
		all[i] = certs::make(s);
		break;
	}
	case BAD_SIGNATURE:
	{
		int const i = rng.range(1, m - 1);
		auto d = certs::der(all[i]);
		d[d.size() - 1 - rng.below(200)] ^= 1 << rng.below(8);
		all[i] = certs::pem(d);
		break;
	}
	case NOT_CA:
	{
		int const i = rng.range(1, m - 2);
		auto s = chain.specs[i];
		s.ca = false;
		all[i] = certs::make(s);
		break;
	}
	case TWO_LEAVES:
	{
		auto s = chain.specs.back();
		s.key = spare;
		s.subject.cn += " second";
		s.serial += "1";
		all.push_back(certs::make(s));
		break;
	}
	case WRONG_ISSUER_NAME:
	{
		int const i = rng.range(1, m - 1);
		auto s = chain.specs[i];
		s.issuer.cn += "x";
		all[i] = certs::make(s);
		break;
	}
	default:
		break;
	}

	begin_case("chain " + std::to_string(n) + " of " + std::to_string(m) + " " + flaw_names[flaw] + " " + chain.specs.back().subject.cn + " serial " + chain.specs.back().serial);
	if (flaw == NOTHING) {
		for (int i = 0; i < m; ++i) {
			check_certificate(chain.specs[i], chain.pems[i]);
		}
	}

	auto order = all;
	rng.shuffle(order);
	dcp::CertificateChain c;
	for (auto const& i: order) {
		c.add(dcp::Certificate(i));
	}
	string text;
	for (auto const& i: order) {
		auto p = respaced(i);
		text += p + (p.back() == '\n' ? "" : "\n");
	}
	c.set_key(certs::key_pem(chain.leaf_key()));
	count(string("flaw: ") + flaw_names[flaw]);

	if (flaw == NOTHING) {
		auto const reversed = vector<string>(chain.pems.rbegin(), chain.pems.rend());
		EXPECT(pems(c.unordered()) == order, "unordered", "certificates changed by adding");
		EXPECT(pems(c.root_to_leaf()) == chain.pems, "root-to-leaf", "order is wrong");
		EXPECT(pems(c.leaf_to_root()) == reversed, "leaf-to-root", "order is wrong");
		EXPECT(c.root().certificate(true) == chain.pems.front(), "root", "wrong root");
		EXPECT(c.leaf().certificate(true) == chain.pems.back(), "leaf", "wrong leaf");
		string reason;
		EXPECT(c.valid(&reason), "good-invalid", "a good chain is said not to be valid: " << reason);
		EXPECT(reason.empty(), "reason-touched", "reason given for a good chain: " << reason);
		EXPECT(c.private_key_valid(), "key-refused", "the leaf's key is not accepted");
		dcp::CertificateChain sorted;
		for (auto const& i: chain.pems) {
			sorted.add(dcp::Certificate(i));
		}
		EXPECT(sorted.chain_valid(), "chain-valid", "a good chain in order is said not to be valid");

		/* Through text */
		string joined;
		for (auto const& i: chain.pems) {
			joined += i;
		}
		EXPECT(c.chain() == joined, "chain-text", "text of chain is wrong");
		dcp::CertificateChain again(text);
		EXPECT(pems(again.root_to_leaf()) == chain.pems && pems(again.unordered()) == order, "chain-read", "chain read from text differs");
		EXPECT(!again.valid(), "valid-without-key", "valid though it has no key");
		EXPECT(!again.private_key_valid(), "key-valid-without-key", "key valid though there is none");

		/* Other keys */
		for (int i = 0; i < 4; ++i) {
			auto const k = i == 0 ? spare : rng.below(certs::keys);
			again.set_key(certs::key_pem(k));
			bool const right = k == chain.leaf_key();
			EXPECT(again.private_key_valid() == right && again.valid(&reason) == right, right ? "key-refused" : "key-accepted", "key " << k << " for leaf with key " << chain.leaf_key());
			if (!right) {
				EXPECT(!reason.empty(), "no-reason", "no reason given");
			}
		}
		again.set_key(rng.pick({string(""), string("not a key"), certs::key_pem(spare).substr(0, 200)}));
		EXPECT(!again.private_key_valid() && !again.valid(), "key-accepted", "something which is not a key accepted");

		/* Fingerprint of the key */
		auto key = certs::key_pem(chain.leaf_key());
		auto const begin = key.find('\n') + 1;
		auto const der = certs::unbase64(key.substr(begin, key.find("\n-----END") - begin));
		EXPECT(dcp::private_key_fingerprint(key) == certs::base64(certs::sha1(der)), "key-fingerprint", dcp::private_key_fingerprint(key));
		if (rng.coin()) {
			string crlf;
			for (auto i: key) {
				crlf += i == '\n' ? string("\r\n") : string(1, i);
			}
			EXPECT(dcp::private_key_fingerprint(crlf) == certs::base64(certs::sha1(der)), "key-fingerprint", dcp::private_key_fingerprint(crlf) << " with CRLF");
		}

		/* Removal */
		if (m > 1) {
			auto const victim = rng.pick(all);
			c.remove(dcp::Certificate(victim));
			auto left = order;
			left.erase(std::find(left.begin(), left.end(), victim));
			EXPECT(pems(c.unordered()) == left, "remove", "wrong certificate removed");
			c.remove(dcp::Certificate(victim));
			EXPECT(pems(c.unordered()) == left, "remove-absent", "removing one that was not there changed something");
			c.add(dcp::Certificate(victim));
			EXPECT(c.valid(), "remove-add", "not valid after removing one and putting it back");
		}
		observed(15);
		return;
	}

	string reason;
	EXPECT(!c.valid(&reason), string("accepted:") + flaw_names[flaw], "a chain with a flaw is said to be valid");
	EXPECT(!reason.empty(), "no-reason", "no reason given");
	EXPECT(!c.chain_valid(), string("chain-valid:") + flaw_names[flaw], "a chain with a flaw is said to be valid");
	try {
		auto r = c.root_to_leaf();
		violation(string("ordered:") + flaw_names[flaw], "a chain with a flaw was put in order");
	} catch (dcp::CertificateChainError&) {
		observed();
	}
	try {
		dcp::CertificateChain again(text);
		violation(string("read:") + flaw_names[flaw], "a chain with a flaw was read from text");
	} catch (dcp::CertificateChainError&) {
		observed();
	}
	observed(3);
}

void
made_case(size_t n)
{
	/* A chain made by the library with the help of the openssl program */
	auto const dir = fresh_dir("made");
	auto const cwd = bfs::current_path();
	int const days = rng.range(10, 4000);
	begin_case("chain made for " + std::to_string(days) + " days " + std::to_string(n));
	auto const o = rng.pick({string("example.org"), string("The Org"), string("a+b"), string("AC/DC, Inc. = x")});
	auto const now = time(nullptr);
	dcp::CertificateChain c("/usr/bin/openssl", days, o, "unit", ".smpte-430-2.ROOT.x", ".smpte-430-2.INTERMEDIATE.x", "CS.smpte-430-2.LEAF.x");
	string reason;
	EXPECT(c.valid(&reason), "made-invalid", "chain made by the library is not valid: " << reason);
	auto const l = c.root_to_leaf();
	EXPECT(l.size() == 3, "made-size", l.size());
	EXPECT(bfs::current_path() == cwd, "cwd", "the working directory was changed");
	for (size_t i = 0; i < l.size(); ++i) {
		EXPECT(l[i].subject_organization_name() == o, "made-o", l[i].subject_organization_name());
		EXPECT(l[i].subject_common_name() == vector<string>({".smpte-430-2.ROOT.x", ".smpte-430-2.INTERMEDIATE.x", "CS.smpte-430-2.LEAF.x"})[i], "made-cn", l[i].subject_common_name());
		auto const end = l[i].not_after().as_time_t();
		EXPECT(std::abs(end - (now + int64_t(days - i) * 86400)) < 3600, "made-days", l[i].not_after().as_string());
		EXPECT(unescaped(dcp::public_key_digest(l[i].public_key())) == l[i].subject_dn_qualifier(), "made-dn", l[i].subject_dn_qualifier());
	}
	count("chains made");
	observed();
	(void) dir;
}

void
big_case()
{
	/* One with a lot of extra data */
	auto chain = certs::random_chain({});
	auto s = chain.specs.back();
	s.padding = rng.range(3000, 30000);
	begin_case("big certificate " + std::to_string(s.padding));
	check_certificate(s, certs::make(s));
	count("big certificates");
}

void
c36()
{
	rule("chains of one to five certificates of random names, keys, serial numbers and dates in random order, good or with one flaw of nine kinds; every attribute recomputed from DER");
	gen::init();
	auto const n = budget(120, 2400);
	for (size_t i = 0; i < n; ++i) {
		chain_case(i);
		if (i % 20 == 0) {
			big_case();
		}
	}
	auto const made = budget(4, 24);
	for (size_t i = 0; i < made; ++i) {
		made_case(i);
	}
}

/* ---------- KDMs ---------- */

struct KeyInKdm
{
	string type, id, key;
};

struct KdmSpec
{
	vector<KeyInKdm> keys;
	string cpl;
	string from, to;
	int64_t from_t = 0, to_t = 0;
	string annotation, title;
	int formulation = 0;
	vector<string> devices;
	bool no_picture = false;
	optional<int> no_audio;
	string describe() const {
		return std::to_string(keys.size()) + " keys from " + from + " to " + to + " formulation " + std::to_string(formulation) + " devices " + std::to_string(devices.size()) + (no_picture ? " np" : "") + (no_audio ? " na" + std::to_string(*no_audio) : "") + " " + title;
	}
};

/** Random time in 2020-2030, with some offset */
string
random_time(int64_t from, int64_t to, int64_t& t)
{
	t = from + rng.below(to - from);
	int const offset = rng.pick({0, 60, -300, 330, 720, -720, 345});
	auto const local = time_t(t + offset * 60);
	struct tm tm;
	gmtime_r(&local, &tm);
	char b[64];
	snprintf(b, sizeof(b), "%04d-%02d-%02dT%02d:%02d:%02d%c%02d:%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, offset < 0 ? '-' : '+', std::abs(offset) / 60, std::abs(offset) % 60);
	return b;
}

int64_t const y2020 = 1577836800;
int64_t const y2030 = 1893456000;

KdmSpec
random_kdm()
{
	KdmSpec k;
	int const n = rng.chance(0.1) ? rng.range(20, 60) : rng.range(1, 6);
	for (int i = 0; i < n; ++i) {
		k.keys.push_back({rng.pick({string("MDIK"), string("MDAK"), string("MDSK"), string("MDEK"), string("MDMK"), string("FMIK"), string("FMAK")}), gen::uuid(), pkg::crypt().key});
	}
	k.cpl = gen::uuid();
	k.from = random_time(y2020, y2030, k.from_t);
	k.to = random_time(k.from_t, y2030, k.to_t);
	k.annotation = gen::text(true);
	k.title = gen::text(true);
	k.formulation = rng.below(4);
	for (int i = 0, m = rng.below(4); i < m; ++i) {
		auto b = rng.bytes(20);
		k.devices.push_back(certs::base64(string(b.begin(), b.end())));
	}
	k.no_picture = rng.coin();
	if (rng.coin()) {
		k.no_audio = rng.pick({0, 0, 1, 6, 12, 15, 16, 99});
	}
	return k;
}

dcp::DecryptedKDM
decrypted(KdmSpec const& k)
{
	dcp::DecryptedKDM d(dcp::LocalTime(k.from), dcp::LocalTime(k.to), k.annotation, k.title, "2020-01-01T00:00:00+00:00");
	for (auto const& i: k.keys) {
		if (rng.coin()) {
			d.add_key(i.type, i.id, dcp::Key(i.key), k.cpl, dcp::Standard::SMPTE);
		} else {
			d.add_key(dcp::DecryptedKDMKey(i.type, i.id, dcp::Key(i.key), k.cpl, dcp::Standard::SMPTE));
		}
	}
	return d;
}

dcp::Formulation const formulations[] = { dcp::Formulation::MODIFIED_TRANSITIONAL_1, dcp::Formulation::MULTIPLE_MODIFIED_TRANSITIONAL_1, dcp::Formulation::DCI_ANY, dcp::Formulation::DCI_SPECIFIC };

dcp::EncryptedKDM
encrypt(KdmSpec const& k, shared_ptr<const dcp::CertificateChain> signer, string const& recipient)
{
	return decrypted(k).encrypt(signer, dcp::Certificate(recipient), k.devices, formulations[k.formulation], k.no_picture, k.no_audio);
}

struct Party
{
	certs::Chain chain;
	shared_ptr<dcp::CertificateChain> signer;
};

/** Chains are slow to make so there are only a few */
Party const&
party()
{
	static vector<Party> parties;
	if (parties.size() < 12) {
		certs::ChainLimits l;
		l.min = 1;
		l.max = 4;
		Party p;
		p.chain = certs::random_chain(l);
		p.signer = certs::chain_for(p.chain);
		parties.push_back(p);
		return parties.back();
	}
	return parties[rng.below(parties.size())];
}

void
check_keys(KdmSpec const& k, dcp::DecryptedKDM const& d, string const& prefix, bool types = true)
{
	auto const keys = d.keys();
	EXPECT(keys.size() == k.keys.size(), prefix + "-count", keys.size() << " keys rather than " << k.keys.size());
	for (size_t i = 0; i < std::min(keys.size(), k.keys.size()); ++i) {
		EXPECT(static_cast<bool>(keys[i].type()) == types && (!types || *keys[i].type() == k.keys[i].type), prefix + "-type", keys[i].type().get_value_or("none") << " rather than " << k.keys[i].type);
		EXPECT(keys[i].id() == k.keys[i].id, prefix + "-id", keys[i].id() << " rather than " << k.keys[i].id);
		EXPECT(keys[i].key().hex() == k.keys[i].key, prefix + "-key", "key " << i << " differs");
		EXPECT(keys[i].cpl_id() == k.cpl, prefix + "-cpl", keys[i].cpl_id() << " rather than " << k.cpl);
		EXPECT((keys[i].standard() == dcp::Standard::SMPTE) == types, prefix + "-standard", "standard differs");
	}
	if (types) {
		/* The period can be seen only by encrypting again */
		auto const e = d.encrypt(party().signer, dcp::Certificate(party().chain.pems.back()), {}, dcp::Formulation::MODIFIED_TRANSITIONAL_1, false, {});
		EXPECT(e.not_valid_before() == dcp::LocalTime(k.from), prefix + "-from", e.not_valid_before().as_string() << " rather than " << k.from);
		EXPECT(e.not_valid_after() == dcp::LocalTime(k.to), prefix + "-to", e.not_valid_after().as_string() << " rather than " << k.to);
	}
	EXPECT(d.annotation_text() == k.annotation, prefix + "-annotation", printable(d.annotation_text().get_value_or("none")));
	EXPECT(d.content_title_text() == k.title, prefix + "-title", printable(d.content_title_text()));
	observed(keys.size());
}

/** A block of key data encrypted for somebody, as it is in a KDM */
string
cipher_value(int recipient, string const& block)
{
	auto const p = certs::key_pem(recipient);
	auto bio = BIO_new_mem_buf(p.data(), p.size());
	auto rsa = PEM_read_bio_RSAPrivateKey(bio, nullptr, nullptr, nullptr);
	BIO_free(bio);
	string out(RSA_size(rsa), '\0');
	RSA_public_encrypt(block.size(), reinterpret_cast<unsigned char const*>(block.data()), reinterpret_cast<unsigned char*>(&out[0]), rsa, RSA_PKCS1_OAEP_PADDING);
	RSA_free(rsa);
	return certs::base64(out);
}

string
unhex(string const& h)
{
	string out;
	string digits;
	for (auto c: h) {
		if (c != '-') {
			digits += c;
		}
	}
	for (size_t i = 0; i + 1 < digits.size(); i += 2) {
		out += char(strtol(digits.substr(i, 2).c_str(), nullptr, 16));
	}
	return out;
}

string
block_for(KeyInKdm const& k, string const& cpl, string const& from, string const& to, bool interop)
{
	string b = unhex("f1dc124460169a0e85bc300642f866ab");
	b += string(20, 't');
	b += unhex(cpl);
	if (!interop) {
		b += k.type;
	}
	b += unhex(k.id);
	b += from + to;
	b += unhex(k.key);
	return b;
}

/** Replace the encrypted keys in a document */
string
with_values(string xml, vector<string> const& values)
{
	size_t at = 0;
	for (auto const& v: values) {
		auto const a = xml.find("<enc:CipherValue>", at);
		auto const b = xml.find("</enc:CipherValue>", a);
		if (a == string::npos || b == string::npos) {
			harness_error("no CipherValue");
		}
		xml.replace(a + 17, b - a - 17, v);
		at = a + 17;
	}
	return xml;
}

void
keys_case(size_t n)
{
	auto const signer = party();
	auto const recipient = party();
	auto const k = random_kdm();
	begin_case("kdm " + std::to_string(n) + " " + k.describe() + " recipient key " + std::to_string(recipient.chain.leaf_key()));
	auto const e = encrypt(k, signer.signer, recipient.chain.pems.back());
	auto const xml = e.as_xml();
	auto const key = certs::key_pem(recipient.chain.leaf_key());
	check_keys(k, dcp::DecryptedKDM(e, key), "direct");
	dcp::EncryptedKDM const parsed(xml);
	check_keys(k, dcp::DecryptedKDM(parsed, key), "parsed");
	EXPECT(e.keys().size() == k.keys.size(), "encrypted-count", e.keys().size());

	/* Nothing in clear */
	string upper;
	for (auto c: xml) {
		upper += toupper(c);
	}
	for (auto const& i: k.keys) {
		auto const raw = unhex(i.key);
		string u;
		for (auto c: i.key) {
			u += toupper(c);
		}
		auto const b = certs::base64(raw).substr(0, 20);
		EXPECT(upper.find(u) == string::npos && xml.find(raw) == string::npos && xml.find(b) == string::npos, "key-in-clear", "a content key is in the document");
	}
	std::set<string> values;
	for (auto const& i: e.keys()) {
		EXPECT(values.insert(squash(i)).second, "same-cipher", "two keys have the same encrypted value");
	}

	/* Somebody else */
	for (int i = 0; i < 3; ++i) {
		int const other = rng.below(certs::keys);
		if (other == recipient.chain.leaf_key()) {
			continue;
		}
		try {
			dcp::DecryptedKDM d(parsed, certs::key_pem(other));
			violation("other-key", "decrypted with a private key other than the recipient's");
		} catch (std::exception&) {
			observed();
		}
		count("tried with other keys");
	}
	try {
		dcp::DecryptedKDM d(parsed, rng.pick({string(""), string("not a key"), recipient.chain.pems.back()}));
		violation("no-key", "decrypted with something which is not a private key");
	} catch (std::exception&) {
		observed();
	}

	/* Something which cannot be put in a KDM */
	{
		auto bad = k;
		auto& victim = bad.keys[rng.below(bad.keys.size())];
		auto spoil_id = [](string& id) {
			if (rng.coin()) {
				id = rng.pick({id.substr(0, 35), id + "0", string(), id.substr(0, 8)});
			} else {
				id[rng.pick({0, 1, 9, 14, 20, 25, 30})] = rng.pick({'g', 'z', '-', ' ', '/'});
			}
		};
		auto const kind = rng.below(4);
		switch (kind) {
		case 0:
			victim.type = rng.pick({string(), string("M"), string("MDI"), string("MDIKK"), string(40, 'M'), string(500, 'K')});
			break;
		case 1:
			spoil_id(victim.id);
			break;
		case 2:
			spoil_id(bad.cpl);
			break;
		case 3:
			victim.key = hex(rng.bytes(rng.pick({1, 8, 15, 17, 32, 64})));
			break;
		}
		try {
			auto const spoilt = encrypt(bad, signer.signer, recipient.chain.pems.back());
			violation("malformed-kdm", "a KDM was made with type [" + victim.type + "] id [" + victim.id + "] key [" + victim.key + "] CPL [" + bad.cpl + "]");
		} catch (std::exception&) {
			observed();
		}
		count("malformed " + vector<string>({"type", "id", "CPL id", "key"})[kind]);
	}

	if (certs::small_keys > recipient.chain.leaf_key()) {
		/* An Interop one: no key types */
		vector<string> v;
		for (auto const& i: k.keys) {
			v.push_back(cipher_value(recipient.chain.leaf_key(), block_for(i, k.cpl, k.from, k.to, true)));
		}
		check_keys(k, dcp::DecryptedKDM(dcp::EncryptedKDM(with_values(xml, v)), key), "interop", false);
		count("Interop KDMs");

		/* One with a different period for one key */
		if (k.keys.size() > 1) {
			v.clear();
			auto const odd = rng.below(k.keys.size());
			for (size_t i = 0; i < k.keys.size(); ++i) {
				v.push_back(cipher_value(recipient.chain.leaf_key(), block_for(k.keys[i], k.cpl, k.from, i == odd ? "2031-01-01T00:00:00+00:00" : k.to, false)));
			}
			try {
				dcp::DecryptedKDM d(dcp::EncryptedKDM(with_values(xml, v)), key);
				violation("inconsistent", "a KDM whose keys have different periods was accepted");
			} catch (std::exception&) {
				observed();
			}
		}
	}
}

void
cpl_keys_case(size_t n)
{
	/* A KDM made from a CPL */
	pkg::Limits l;
	l.cpls = 1;
	l.reels = 2;
	l.awkward_names = false;
	auto spec = pkg::random(l);
	spec.smpte = true;
	begin_case("kdm from cpl " + std::to_string(n) + " " + spec.describe());
	auto const dir = fresh_dir("kdmcpl");
	auto built = pkg::build(spec, dir, false);
	auto cpl = built.cpls[0];
	dcp::Key const key(pkg::crypt().key);

	std::multiset<string> want;
	std::map<shared_ptr<const dcp::ReelFileAsset>, dcp::Key> map;
	std::map<string, string> key_of;
	for (auto i: cpl->reel_file_assets()) {
		if (i->key_id()) {
			want.insert(*i->key_id());
			map.insert(make_pair(i, dcp::Key(pkg::crypt().key)));
		}
	}

	dcp::LocalTime const from("2021-01-01T00:00:00+00:00"), to("2022-01-01T00:00:00+00:00");
	auto check = [&](dcp::DecryptedKDM const& k, string const& what) {
		std::multiset<string> have;
		for (auto const& i: k.keys()) {
			have.insert(i.id());
			EXPECT(i.cpl_id() == cpl->id(), what + "-cpl", i.cpl_id());
			EXPECT(i.type() && i.type()->size() == 4, what + "-type", i.type().get_value_or("none"));
		}
		EXPECT(have == want, what + "-ids", have.size() << " keys rather than " << want.size());
		observed();
	};
	try {
		dcp::DecryptedKDM k(cpl, key, from, to, "a", "b", "2020-01-01T00:00:00+00:00");
		check(k, "cpl");
		EXPECT(!want.empty(), "not-encrypted", "KDM made for a CPL with nothing encrypted");
		count("from CPL");
	} catch (dcp::NotEncryptedError&) {
		EXPECT(want.empty(), "cpl-refused", "KDM refused though there are encrypted assets");
		count("from CPL with nothing encrypted");
	}
	dcp::DecryptedKDM m(cpl->id(), map, from, to, "a", "b", "2020-01-01T00:00:00+00:00");
	check(m, "map");
	for (auto const& i: map) {
		bool found = false;
		for (auto const& j: m.keys()) {
			found = found || (j.id() == *i.first->key_id() && j.key() == i.second && j.type() == i.first->key_type());
		}
		EXPECT(found, "map-key", "key for " << *i.first->key_id() << " is not in the KDM");
	}
	remove_tree(dir);
}

void
c34()
{
	rule("random sets of keys, dates, titles and formulations encrypted for random recipients, then decrypted directly and after parsing; other keys tried; Interop blocks made by hand; KDMs made from CPLs of random packages");
	gen::init();
	auto const n = budget(100, 1500);
	for (size_t i = 0; i < n; ++i) {
		keys_case(i);
		if (i % 5 == 0) {
			cpl_keys_case(i);
		}
	}
}

/* ---------- C35 ---------- */

/** Text of all elements with a name, ignoring namespaces */
vector<string>
elements(string const& xml, string const& name)
{
	vector<string> out;
	size_t at = 0;
	while (true) {
		auto const a = xml.find("<" + name, at);
		if (a == string::npos) {
			return out;
		}
		at = a + 1;
		auto const next = xml[a + 1 + name.size()];
		if (next != '>' && next != ' ' && next != '/') {
			continue;
		}
		auto const b = xml.find('>', a);
		if (xml[b - 1] == '/') {
			out.push_back("");
			continue;
		}
		auto const c = xml.find("</" + name + ">", b);
		out.push_back(xml.substr(b + 1, c - b - 1));
	}
}

string
unentity(string s)
{
	for (auto const& i: vector<pair<string, string>>({{"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", "\""}, {"&#13;", "\r"}, {"&amp;", "&"}})) {
		size_t at = 0;
		while ((at = s.find(i.first, at)) != string::npos) {
			s.replace(at, i.first.size(), i.second);
			at += i.second.size();
		}
	}
	return s;
}

string
only(string const& xml, string const& name)
{
	auto e = elements(xml, name);
	EXPECT(e.size() == 1, "one:" + name, e.size() << " of " << name);
	return e.empty() ? "" : unentity(e[0]);
}

void
check_document(KdmSpec const& k, string const& xml, Party const& signer, Party const& recipient)
{
	string const base = "http://www.smpte-ra.org/430-1/2006/KDM#mrkflg-";
	vector<string> flags;
	if (k.no_picture) {
		flags.push_back(base + "picture-disable");
	}
	if (k.no_audio) {
		flags.push_back(base + "audio-disable" + (*k.no_audio ? "-above-channel-" + std::to_string(*k.no_audio) : ""));
	}
	EXPECT(elements(xml, "ForensicMarkFlag") == flags, "marking", elements(xml, "ForensicMarkFlag").size() << " marking flags: " << (elements(xml, "ForensicMarkFlag").empty() ? "" : elements(xml, "ForensicMarkFlag")[0]));
	bool const specific = k.formulation == 1 || k.formulation == 3;
	auto const devices = specific && !k.devices.empty() ? k.devices : vector<string>({"2jmj7l5rSw0yVb/vlWAYkK/YBwk="});
	EXPECT(elements(xml, "CertificateThumbprint") == devices, "devices", elements(xml, "CertificateThumbprint").size() << " devices");
	auto const authenticator = k.formulation >= 2 ? vector<string>({certs::thumbprint(signer.chain.pems.back())}) : vector<string>();
	EXPECT(elements(xml, "ContentAuthenticator") == authenticator, "authenticator", elements(xml, "ContentAuthenticator").size() << " content authenticators");
	EXPECT(only(xml, "CompositionPlaylistId") == "urn:uuid:" + k.cpl, "cpl", only(xml, "CompositionPlaylistId"));
	EXPECT(only(xml, "ContentTitleText") == k.title, "title", printable(only(xml, "ContentTitleText")));
	EXPECT(only(xml, "AnnotationText") == k.annotation, "annotation", printable(only(xml, "AnnotationText")));
	EXPECT(only(xml, "ContentKeysNotValidBefore") == k.from, "from", only(xml, "ContentKeysNotValidBefore"));
	EXPECT(only(xml, "ContentKeysNotValidAfter") == k.to, "to", only(xml, "ContentKeysNotValidAfter"));
	EXPECT(only(xml, "X509SubjectName") == certs::rfc2253(recipient.chain.specs.back().subject), "recipient", only(xml, "X509SubjectName"));
	auto const r = only(xml, "Recipient");
	EXPECT(only(r, "ds:X509IssuerName") == certs::rfc2253(recipient.chain.specs.back().issuer), "recipient-issuer", r);
	EXPECT(only(r, "ds:X509SerialNumber") == recipient.chain.specs.back().serial, "recipient-serial", r);
	auto const s = only(xml, "Signer");
	EXPECT(only(s, "ds:X509IssuerName") == certs::rfc2253(signer.chain.specs.back().issuer), "signer-issuer", s);
	EXPECT(only(s, "ds:X509SerialNumber") == signer.chain.specs.back().serial, "signer-serial", s);
	auto const ids = elements(xml, "TypedKeyId");
	EXPECT(ids.size() == k.keys.size(), "key-ids", ids.size());
	for (size_t i = 0; i < std::min(ids.size(), k.keys.size()); ++i) {
		EXPECT(only(ids[i], "KeyType") == k.keys[i].type && only(ids[i], "KeyId") == "urn:uuid:" + k.keys[i].id, "key-id", ids[i]);
	}
	observed(14);
}

void
document_case(size_t n)
{
	auto const signer = party();
	auto const recipient = party();
	auto const k = random_kdm();
	begin_case("kdm document " + std::to_string(n) + " " + k.describe());
	auto const e = encrypt(k, signer.signer, recipient.chain.pems.back());
	auto const xml = e.as_xml();
	check_document(k, xml, signer, recipient);
	auto problem = certs::signature_problem(xml);
	EXPECT(!problem, "signature", *problem);

	dcp::EncryptedKDM const parsed(xml);
	auto const again = parsed.as_xml();
	EXPECT(again == xml, "round-trip", "document differs after parsing: " << again.size() << " bytes, " << xml.size() << " before");
	problem = certs::signature_problem(again);
	EXPECT(!problem, "signature-again", *problem);
	EXPECT(parsed == e, "equal", "not equal to that parsed from it");

	auto check = [&](dcp::EncryptedKDM const& x, string const& what) {
		EXPECT(x.id() == e.id() && "urn:uuid:" + x.id() == only(xml, "MessageId"), what + "-id", x.id());
		EXPECT(x.annotation_text() == k.annotation, what + "-annotation", printable(x.annotation_text().get_value_or("none")));
		EXPECT(x.content_title_text() == k.title, what + "-title", printable(x.content_title_text()));
		EXPECT(x.issue_date() == e.issue_date() && x.issue_date() == only(xml, "IssueDate"), what + "-issue-date", x.issue_date());
		EXPECT(x.cpl_id() == k.cpl, what + "-cpl", x.cpl_id());
		EXPECT(x.not_valid_before() == dcp::LocalTime(k.from) && x.not_valid_before().as_string() == k.from, what + "-from", x.not_valid_before().as_string());
		EXPECT(x.not_valid_after() == dcp::LocalTime(k.to) && x.not_valid_after().as_string() == k.to, what + "-to", x.not_valid_after().as_string());
		EXPECT(x.recipient_x509_subject_name() == certs::rfc2253(recipient.chain.specs.back().subject), what + "-recipient", x.recipient_x509_subject_name());
		EXPECT(x.trusted_devices() == elements(xml, "CertificateThumbprint"), what + "-devices", x.trusted_devices().size());
		EXPECT(pems(x.signer_certificate_chain().root_to_leaf()) == signer.chain.pems, what + "-signer", "signer's certificates differ");
		EXPECT(x.keys() == e.keys(), what + "-keys", "encrypted keys differ");
		observed(10);
	};
	check(e, "made");
	check(parsed, "parsed");

	/* Copies, and one KDM assigned over another */
	dcp::EncryptedKDM copy(e);
	check(copy, "copy");
	auto const other = encrypt(random_kdm(), signer.signer, recipient.chain.pems.back());
	dcp::EncryptedKDM target(other);
	EXPECT(!(target == e), "different-equal", "different KDMs are equal");
	target = copy;
	auto& alias = target;
	target = alias;
	check(target, "assigned");

	/* In a file */
	auto const dir = fresh_dir("kdm");
	e.as_xml(bfs::path(dir) / "kdm.xml");
	EXPECT(read_file(dir + "/kdm.xml") == xml, "file", "what is in the file differs");
	remove_tree(dir);
}

void
period_case(size_t n)
{
	/* A signer with a short period of validity, and a KDM around the edges of it */
	certs::ChainLimits l;
	l.min = 2;
	l.max = 4;
	l.big_keys = false;
	auto chain = certs::random_chain(l);
	int const which = rng.below(chain.specs.size());
	auto& s = chain.specs[which];
	s.not_before = y2020 + rng.below(86400 * 100);
	s.not_after = y2020 + 86400LL * 365 * 9 + rng.below(86400 * 100);
	chain.pems[which] = certs::make(s);
	auto signer = certs::chain_for(chain);
	auto recipient = party();
	auto k = random_kdm();
	auto offset = [&]() { return rng.pick<int64_t>({-86400 * 30, -86400 * 3, -86400 * 2 - 60, 86400 * 2 + 60, 86400 * 3, 86400 * 30}); };
	auto const a = offset(), b = offset();
	k.from = random_time(s.not_before + a, s.not_before + a + 1, k.from_t);
	k.to = random_time(s.not_after + b, s.not_after + b + 1, k.to_t);
	bool const inside = a > 0 && b < 0;
	begin_case("kdm period " + std::to_string(n) + " certificate " + std::to_string(which) + " offsets " + std::to_string(a) + " " + std::to_string(b) + " " + k.from + " " + k.to);
	try {
		encrypt(k, signer, recipient.chain.pems.back());
		EXPECT(inside, "period-accepted", "KDM issued outside its signer's certificate " << which);
	} catch (dcp::BadKDMDateError&) {
		EXPECT(!inside, "period-refused", "KDM refused though inside its signer's certificates");
	}
	count(inside ? "inside" : "outside");
	observed();
}

void
c35()
{
	rule("random KDMs in four formulations; document checked element by element, parsed, serialised, copied and assigned; periods near the ends of the signer's certificates' validity");
	assumption("dates within two days of the ends of a certificate's validity may be accepted or refused");
	gen::init();
	auto const n = budget(100, 2000);
	for (size_t i = 0; i < n; ++i) {
		document_case(i);
		period_case(i);
	}
}

/* ---------- C37 ---------- */

/** Places in a document outside its signature where there is text or an attribute's value */
vector<pair<size_t, size_t>>
places(string const& xml)
{
	auto const from = xml.find(":Signature ") == string::npos ? xml.find(":Signature>") : xml.find(":Signature ");
	vector<pair<size_t, size_t>> out;
	for (size_t i = xml.find("?>") + 2; i < from; ++i) {
		if (xml[i] == '>') {
			auto const end = xml.find('<', i);
			if (end != string::npos && end < from && !squash(xml.substr(i + 1, end - i - 1)).empty()) {
				out.push_back(make_pair(i + 1, end - i - 1));
			}
		} else if (xml[i] == '=' && xml[i + 1] == '"') {
			auto const end = xml.find('"', i + 2);
			if (end > i + 2 && end < from) {
				out.push_back(make_pair(i + 2, end - i - 2));
			}
		}
	}
	return out;
}

void
check_signed(string const& xml, Party const& signer, string const& what)
{
	auto problem = certs::signature_problem(xml);
	EXPECT(!problem, what + "-signature", *problem);
	if (problem) {
		return;
	}
	auto const listed = certs::listed(xml);
	EXPECT(listed.size() == signer.chain.pems.size(), what + "-listed", listed.size() << " certificates rather than " << signer.chain.pems.size());
	for (size_t i = 0; i < std::min(listed.size(), signer.chain.pems.size()); ++i) {
		auto const n = signer.chain.pems.size() - 1 - i;
		EXPECT(listed[i].certificate == certs::base64(certs::der(signer.chain.pems[n])), what + "-order", "certificate " << i << " is not the right one");
		EXPECT(listed[i].issuer == certs::rfc2253(signer.chain.specs[n].issuer) && listed[i].serial == signer.chain.specs[n].serial, what + "-issuer-serial", listed[i].issuer << " " << listed[i].serial);
	}
	observed(listed.size());

	/* Tampering, one place at a time */
	auto p = places(xml);
	EXPECT(p.size() >= 5, what + "-places", p.size());
	rng.shuffle(p);
	int tried = 0;
	for (auto const& i: p) {
		if (tried == 12) {
			break;
		}
		auto changed = xml;
		auto const at = i.first + rng.below(i.second);
		auto const c = changed[at];
		if (!isalnum(c)) {
			continue;
		}
		changed[at] = c == 'a' ? 'b' : 'a';
		EXPECT(certs::signature_problem(changed), what + "-tampered", "changed " << printable(xml.substr(i.first, std::min<size_t>(60, i.second))) << " but signature is still good");
		++tried;
		observed();
	}
	count(what + " changes", tried);

	/* Removing an element */
	for (auto const& name: {"AnnotationText", "Issuer", "Creator", "Asset", "Reel", "TypedKeyId", "enc:EncryptedKey"}) {
		auto const a = xml.find("<" + string(name) + ">");
		auto const close = "</" + string(name) + ">";
		auto const b = a == string::npos ? a : xml.find(close, a);
		if (b == string::npos) {
			continue;
		}
		auto changed = xml;
		changed.erase(a, b + close.size() - a);
		EXPECT(certs::signature_problem(changed), what + "-removed", "removed " << name << " but signature is still good");
		observed();
	}
}

void
signature_case(size_t n)
{
	auto const signer = party();
	pkg::Limits l;
	l.cpls = 2;
	l.reels = 2;
	l.awkward_names = rng.coin();
	auto const spec = pkg::random(l);
	begin_case("signature " + std::to_string(n) + " chain of " + std::to_string(signer.chain.pems.size()) + " " + spec.describe());
	auto const dir = fresh_dir("signed");
	auto built = pkg::build(spec, dir, true, signer.signer);
	int cpls = 0, pkls = 0;
	for (auto const& f: pkg::files_in(dir)) {
		if (f.find(".xml") == string::npos) {
			continue;
		}
		auto const xml = read_file(dir + "/" + f);
		auto const method = string("Algorithm=\"") + (spec.smpte ? "http://www.w3.org/2001/04/xmldsig-more#rsa-sha256\"" : "http://www.w3.org/2000/09/xmldsig#rsa-sha1\"");
		if (xml.find("<CompositionPlaylist xmlns") != string::npos) {
			check_signed(xml, signer, "cpl");
			EXPECT(xml.find(method) != string::npos, "cpl-method", "wrong signature method");
			++cpls;
		} else if (xml.find("<PackingList xmlns") != string::npos) {
			check_signed(xml, signer, "pkl");
			EXPECT(xml.find(method) != string::npos, "pkl-method", "wrong signature method");
			++pkls;
		}
	}
	EXPECT(cpls == int(spec.cpls.size()) && pkls == 1, "signed-count", cpls << " CPLs " << pkls << " packing lists");
	count("packages signed");

	/* The package can be read, and is the same as the unsigned one */
	dcp::DCP again((bfs::path(dir)));
	again.read();
	EXPECT(again.cpls().size() == spec.cpls.size(), "signed-read", again.cpls().size());

	/* KDM */
	auto const recipient = party();
	check_signed(encrypt(random_kdm(), signer.signer, recipient.chain.pems.back()).as_xml(), signer, "kdm");

	/* Signers which are not valid */
	auto bad = make_shared<dcp::CertificateChain>();
	auto certificates = signer.chain.pems;
	int const how = rng.below(certificates.size() > 2 ? 4 : 3);
	switch (how) {
	case 0:
		/* Somebody else's key */
		bad->set_key(certs::key_pem((signer.chain.leaf_key() + 1) % certs::small_keys));
		break;
	case 1:
		/* No key */
		break;
	case 2:
	{
		/* A certificate which is nothing to do with it */
		certs::ChainLimits one;
		one.max = 1;
		certificates.push_back(certs::random_chain(one).pems[0]);
		bad->set_key(certs::key_pem(signer.chain.leaf_key()));
		break;
	}
	case 3:
		certificates.erase(certificates.begin() + 1);
		bad->set_key(certs::key_pem(signer.chain.leaf_key()));
		break;
	}
	for (auto const& i: certificates) {
		bad->add(dcp::Certificate(i));
	}
	auto refused = [&](string const& what, std::function<void ()> fn) {
		try {
			fn();
			violation(what + "-bad-signer", "signed with a chain which is not valid (" + std::to_string(how) + ")");
		} catch (std::exception&) {
			observed();
		}
	};
	refused("package", [&]() { built.dcp->write_xml(bad); });
	refused("cpl", [&]() { built.cpls[0]->write_xml(bfs::path(dir) / "bad.xml", bad); });
	refused("kdm", [&]() { encrypt(random_kdm(), bad, recipient.chain.pems.back()); });
	count("bad signers");
	remove_tree(dir);
}

void
c37()
{
	rule("random packages and KDMs signed with random chains; signatures recomputed with canonical XML and RSA; text, attributes and elements changed one at a time; invalid signers");
	gen::init();
	auto const n = budget(48, 800);
	for (size_t i = 0; i < n; ++i) {
		signature_case(i);
	}
}

KIT_CHECK("C34", c34);
KIT_CHECK("C35", c35);
KIT_CHECK("C36", c36);
KIT_CHECK("C37", c37);

}
