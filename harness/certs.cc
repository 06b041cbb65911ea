#include "certs.h"
#include "gen.h"
#include "kit.h"
#include "certificate.h"
#include "certificate_chain.h"
#include <libxml/c14n.h>
#include <libxml/parser.h>
#include <libxml/xpath.h>
#include <openssl/asn1.h>
#include <openssl/bio.h>
#include <openssl/bn.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/sha.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>
#include <cstring>
#include <map>

using namespace kit;
using std::string;
using std::vector;

namespace certs {

string
key_pem(int index)
{
	static std::map<int, string> cache;
	auto& k = cache[index];
	if (k.empty()) {
		k = read_file(opt.verif + "/harness/keys/" + std::to_string(index) + ".pem");
	}
	return k;
}

static EVP_PKEY*
key(int index)
{
	static std::map<int, EVP_PKEY*> cache;
	auto& k = cache[index];
	if (!k) {
		auto const p = key_pem(index);
		auto bio = BIO_new_mem_buf(p.data(), p.size());
		k = PEM_read_bio_PrivateKey(bio, nullptr, nullptr, nullptr);
		BIO_free(bio);
		if (!k) {
			harness_error("could not read key");
		}
	}
	return k;
}

static void
add_name(X509_NAME* n, Name const& name)
{
	auto add = [&](int nid, string const& value, bool may_be_utf8) {
		if (!value.empty()) {
			auto const type = may_be_utf8 && name.utf8 ? V_ASN1_UTF8STRING : V_ASN1_PRINTABLESTRING;
			if (!X509_NAME_add_entry_by_NID(n, nid, type, reinterpret_cast<unsigned char const*>(value.data()), value.size(), -1, 0)) {
				harness_error("could not add to name");
			}
		}
	};
	add(NID_organizationName, name.o, true);
	add(NID_organizationalUnitName, name.ou, true);
	add(NID_commonName, name.cn, true);
	add(NID_dnQualifier, name.dn, false);
}

string
make(Spec const& spec)
{
	auto x = X509_new();
	X509_set_version(x, 2);
	BIGNUM* serial = nullptr;
	BN_dec2bn(&serial, spec.serial.c_str());
	BN_to_ASN1_INTEGER(serial, X509_get_serialNumber(x));
	BN_free(serial);
	/* UTCTime or GeneralizedTime according to the year */
	ASN1_TIME_set(X509_getm_notBefore(x), spec.not_before);
	ASN1_TIME_set(X509_getm_notAfter(x), spec.not_after);
	X509_set_pubkey(x, key(spec.key));
	auto subject = X509_NAME_new();
	add_name(subject, spec.subject);
	X509_set_subject_name(x, subject);
	X509_NAME_free(subject);
	auto issuer = X509_NAME_new();
	add_name(issuer, spec.issuer);
	X509_set_issuer_name(x, issuer);
	X509_NAME_free(issuer);

	auto extension = [x](int nid, string const& value) {
		auto e = X509V3_EXT_conf_nid(nullptr, nullptr, nid, value.c_str());
		if (!e) {
			harness_error("could not make extension");
		}
		X509_add_ext(x, e, -1);
		X509_EXTENSION_free(e);
	};
	extension(NID_basic_constraints, spec.ca ? "critical,CA:TRUE" : "critical,CA:FALSE");
	extension(NID_key_usage, spec.ca ? "keyCertSign,cRLSign" : "digitalSignature,keyEncipherment");
	if (spec.padding) {
		extension(NID_netscape_comment, string(spec.padding, 'x'));
	}
	if (!X509_sign(x, key(spec.signing_key), EVP_sha256())) {
		harness_error("could not sign certificate");
	}
	auto bio = BIO_new(BIO_s_mem());
	PEM_write_bio_X509(bio, x);
	char* data;
	auto const length = BIO_get_mem_data(bio, &data);
	string s(data, length);
	BIO_free(bio);
	X509_free(x);
	return s;
}

string
base64(string const& data)
{
	string out(4 * ((data.size() + 2) / 3) + 1, '\0');
	auto const n = EVP_EncodeBlock(reinterpret_cast<unsigned char*>(&out[0]), reinterpret_cast<unsigned char const*>(data.data()), data.size());
	out.resize(n);
	return out;
}

string
unbase64(string const& text)
{
	static char const alphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	string out;
	uint32_t bits = 0;
	int n = 0;
	for (auto c: text) {
		auto p = c ? strchr(alphabet, c) : nullptr;
		if (!p) {
			continue;
		}
		bits = bits << 6 | (p - alphabet);
		n += 6;
		if (n >= 8) {
			n -= 8;
			out += char(bits >> n & 0xff);
		}
	}
	return out;
}

string
der(string const& pem)
{
	auto const a = pem.find("-----BEGIN CERTIFICATE-----");
	auto const b = pem.find("-----END CERTIFICATE-----");
	return unbase64(pem.substr(a + 27, b - a - 27));
}

string
pem(string const& der)
{
	auto const b = base64(der);
	string s = "-----BEGIN CERTIFICATE-----\n";
	for (size_t i = 0; i < b.size(); i += 64) {
		s += b.substr(i, 64) + "\n";
	}
	return s + "-----END CERTIFICATE-----\n";
}

string
sha1(string const& data)
{
	unsigned char d[SHA_DIGEST_LENGTH];
	SHA1(reinterpret_cast<unsigned char const*>(data.data()), data.size(), d);
	return string(reinterpret_cast<char*>(d), sizeof(d));
}

/** Length of the header of the DER item at some place, and of its content */
static std::pair<size_t, size_t>
item(string const& d, size_t at)
{
	auto const first = uint8_t(d[at + 1]);
	if (first < 128) {
		return { 2, first };
	}
	size_t length = 0;
	for (int i = 0; i < (first & 127); ++i) {
		length = length << 8 | uint8_t(d[at + 2 + i]);
	}
	return { 2 + (first & 127), length };
}

string
thumbprint(string const& pem)
{
	auto const d = der(pem);
	auto const outer = item(d, 0);
	auto const inner = item(d, outer.first);
	return base64(sha1(d.substr(outer.first, inner.first + inner.second)));
}

string
public_key_digest(int index)
{
	unsigned char* p = nullptr;
	auto rsa = EVP_PKEY_get1_RSA(key(index));
	auto const n = i2d_RSAPublicKey(rsa, &p);
	string s(reinterpret_cast<char*>(p), n);
	OPENSSL_free(p);
	RSA_free(rsa);
	return base64(sha1(s));
}

string
rfc2253(Name const& name)
{
	auto escape = [](string const& s) {
		string out;
		for (size_t i = 0; i < s.size(); ++i) {
			auto const c = uint8_t(s[i]);
			if (strchr(",+\"\\<>;", c) || (c == '#' && i == 0) || (c == ' ' && (i == 0 || i == s.size() - 1))) {
				out += string("\\") + s[i];
			} else if (c < 32 || c > 126) {
				char b[8];
				snprintf(b, sizeof(b), "\\%02X", c);
				out += b;
			} else {
				out += s[i];
			}
		}
		return out;
	};
	string out;
	auto add = [&](char const* type, string const& value) {
		if (!value.empty()) {
			out += (out.empty() ? "" : ",") + string(type) + "=" + escape(value);
		}
	};
	add("dnQualifier", name.dn);
	add("CN", name.cn);
	add("OU", name.ou);
	add("O", name.o);
	return out;
}

Chain
random_chain(ChainLimits const& limits)
{
	Chain chain;
	int const n = rng.range(limits.min, limits.max);
	vector<int> indices;
	for (int i = 0; i < small_keys; ++i) {
		indices.push_back(i);
	}
	rng.shuffle(indices);
	if (limits.big_keys && rng.chance(0.3)) {
		indices[rng.below(n)] = rng.range(8, 9);
	}
	bool const utf8 = rng.chance(0.3);
	auto part = [&](string const& usual) {
		if (!limits.odd_names || rng.chance(0.5)) {
			return usual;
		}
		if (utf8) {
			return rng.pick({usual, string("Caf\xc3\xa9 ") + usual, usual + ", Inc.", usual + " + Co", usual + " <x>", string("#") + usual, string("a;b\"c")});
		}
		return rng.pick({usual, usual + ", Inc.", usual + " + Co", usual + "/x", string("a:b (c)")});
	};
	auto const o = part("example.org"), ou = part("unit");
	for (int i = 0; i < n; ++i) {
		Spec s;
		s.key = indices[i];
		s.signing_key = i ? indices[i - 1] : indices[0];
		s.subject.o = o;
		s.subject.ou = ou;
		s.subject.utf8 = utf8;
		s.subject.cn = part((i == 0 ? ".smpte-430-2.ROOT" : i == n - 1 ? "CS.smpte-430-2.LEAF" : ".smpte-430-2.INTERMEDIATE" + std::to_string(i)) + string(".TEST"));
		s.subject.dn = public_key_digest(s.key);
		s.issuer = i ? chain.specs.back().subject : s.subject;
		if (rng.coin()) {
			s.serial = std::to_string(rng.range(1, 1000));
		} else {
			s.serial = std::to_string(1 + rng.below(9));
			for (int d = 0, m = rng.range(5, 45); d < m; ++d) {
				s.serial += std::to_string(rng.below(10));
			}
		}
		s.not_before = rng.range(946684800, 1577836800 - 86400 * 20);
		s.not_after = rng.chance(0.2) ? 2524608000LL + rng.below(2000000000) : 1893456000LL + 86400 * 20 + rng.below(500000000);
		s.ca = i < n - 1 || n == 1;
		chain.specs.push_back(s);
		chain.pems.push_back(make(s));
	}
	return chain;
}

std::shared_ptr<dcp::CertificateChain>
chain_for(Chain const& chain, bool with_key)
{
	auto c = std::make_shared<dcp::CertificateChain>();
	auto order = chain.pems;
	rng.shuffle(order);
	for (auto const& i: order) {
		c->add(dcp::Certificate(i));
	}
	if (with_key) {
		c->set_key(key_pem(chain.leaf_key()));
	}
	return c;
}

/* ---------- signatures ---------- */

namespace {

struct Doc
{
	explicit Doc(string const& xml)
		: doc(xmlReadMemory(xml.data(), xml.size(), nullptr, nullptr, XML_PARSE_NONET | XML_PARSE_NOERROR | XML_PARSE_NOWARNING))
	{}

	~Doc() {
		if (doc) {
			xmlFreeDoc(doc);
		}
	}

	xmlDocPtr doc;
};

string
name_of(xmlNodePtr n)
{
	return reinterpret_cast<char const*>(n->name);
}

vector<xmlNodePtr>
children(xmlNodePtr n, string const& name)
{
	vector<xmlNodePtr> out;
	for (auto c = n->children; c; c = c->next) {
		if (c->type == XML_ELEMENT_NODE && name_of(c) == name) {
			out.push_back(c);
		}
	}
	return out;
}

xmlNodePtr
child(xmlNodePtr n, string const& name)
{
	if (!n) {
		return nullptr;
	}
	auto c = children(n, name);
	return c.size() == 1 ? c[0] : nullptr;
}

string
content(xmlNodePtr n)
{
	if (!n) {
		return "";
	}
	auto c = xmlNodeGetContent(n);
	string s(reinterpret_cast<char*>(c));
	xmlFree(c);
	return s;
}

boost::optional<string>
attribute(xmlNodePtr n, string const& name)
{
	if (!n) {
		return {};
	}
	auto c = xmlGetNoNsProp(n, reinterpret_cast<xmlChar const*>(name.c_str()));
	if (!c) {
		return {};
	}
	string s(reinterpret_cast<char*>(c));
	xmlFree(c);
	return s;
}

struct Visible
{
	xmlNodePtr only = nullptr;
	xmlNodePtr without = nullptr;
};

int
visible(void* user, xmlNodePtr node, xmlNodePtr parent)
{
	auto v = reinterpret_cast<Visible*>(user);
	auto n = node->type == XML_NAMESPACE_DECL ? parent : node;
	bool inside = !v->only;
	for (; n; n = n->parent) {
		if (v->without && n == v->without) {
			return 0;
		}
		if (v->only && n == v->only) {
			inside = true;
		}
	}
	return inside;
}

string
canonical(xmlDocPtr doc, Visible v, bool comments)
{
	auto buffer = xmlAllocOutputBuffer(nullptr);
	xmlC14NExecute(doc, visible, &v, XML_C14N_1_0, nullptr, comments, buffer);
	string s(reinterpret_cast<char const*>(xmlOutputBufferGetContent(buffer)), xmlOutputBufferGetSize(buffer));
	xmlOutputBufferClose(buffer);
	return s;
}

xmlNodePtr
with_id(xmlNodePtr n, string const& id)
{
	if (n->type == XML_ELEMENT_NODE) {
		auto a = attribute(n, "Id");
		if (a && *a == id) {
			return n;
		}
	}
	for (auto c = n->children; c; c = c->next) {
		if (c->type == XML_ELEMENT_NODE) {
			if (auto r = with_id(c, id)) {
				return r;
			}
		}
	}
	return nullptr;
}

string
digest(EVP_MD const* md, string const& data)
{
	unsigned char d[EVP_MAX_MD_SIZE];
	unsigned int n = 0;
	EVP_Digest(data.data(), data.size(), d, &n, md, nullptr);
	return string(reinterpret_cast<char*>(d), n);
}

string
squash(string const& s)
{
	string out;
	for (auto c: s) {
		if (!strchr(" \t\r\n", c)) {
			out += c;
		}
	}
	return out;
}

}

vector<Listed>
listed(string const& xml)
{
	Doc doc(xml);
	vector<Listed> out;
	auto info = doc.doc ? child(child(xmlDocGetRootElement(doc.doc), "Signature"), "KeyInfo") : nullptr;
	if (!info) {
		return out;
	}
	for (auto d: children(info, "X509Data")) {
		Listed l;
		auto is = child(d, "X509IssuerSerial");
		l.issuer = content(child(is, "X509IssuerName"));
		l.serial = content(child(is, "X509SerialNumber"));
		l.certificate = squash(content(child(d, "X509Certificate")));
		out.push_back(l);
	}
	return out;
}

boost::optional<string>
signature_problem(string const& xml)
{
	string const ds = "http://www.w3.org/2000/09/xmldsig#";
	Doc d(xml);
	if (!d.doc) {
		return string("document is not well-formed");
	}
	auto root = xmlDocGetRootElement(d.doc);
	auto signature = child(root, "Signature");
	if (!signature) {
		return string("no signature, or more than one");
	}
	if (!signature->ns || reinterpret_cast<char const*>(signature->ns->href) != ds) {
		return string("signature is in the wrong namespace");
	}
	auto info = child(signature, "SignedInfo");
	auto references = info ? children(info, "Reference") : vector<xmlNodePtr>();
	if (references.empty()) {
		return string("nothing is signed");
	}
	for (auto r: references) {
		Visible v;
		auto const uri = attribute(r, "URI");
		if (!uri) {
			return string("reference without URI");
		}
		if (uri->empty()) {
			auto transforms = child(r, "Transforms");
			bool enveloped = false;
			if (transforms) {
				for (auto t: children(transforms, "Transform")) {
					enveloped = enveloped || attribute(t, "Algorithm").get_value_or("") == ds + "enveloped-signature";
				}
			}
			if (!enveloped) {
				return string("whole document signed but signature is not enveloped");
			}
			v.without = signature;
		} else {
			v.only = with_id(root, uri->substr(1));
			if (!v.only) {
				return "nothing with ID " + *uri;
			}
		}
		auto const method = attribute(child(r, "DigestMethod"), "Algorithm").get_value_or("");
		EVP_MD const* md = method == ds + "sha1" ? EVP_sha1() : method == "http://www.w3.org/2001/04/xmlenc#sha256" ? EVP_sha256() : nullptr;
		if (!md) {
			return "unknown digest " + method;
		}
		if (digest(md, canonical(d.doc, v, false)) != unbase64(content(child(r, "DigestValue")))) {
			return "digest of \"" + *uri + "\" is wrong";
		}
	}

	auto const c14n = attribute(child(info, "CanonicalizationMethod"), "Algorithm").get_value_or("");
	bool comments;
	if (c14n == "http://www.w3.org/TR/2001/REC-xml-c14n-20010315") {
		comments = false;
	} else if (c14n == "http://www.w3.org/TR/2001/REC-xml-c14n-20010315#WithComments") {
		comments = true;
	} else {
		return "unknown canonicalisation " + c14n;
	}
	auto const method = attribute(child(info, "SignatureMethod"), "Algorithm").get_value_or("");
	EVP_MD const* md = method == ds + "rsa-sha1" ? EVP_sha1() : method == "http://www.w3.org/2001/04/xmldsig-more#rsa-sha256" ? EVP_sha256() : nullptr;
	if (!md) {
		return "unknown signature method " + method;
	}
	auto certificates = listed(xml);
	if (certificates.empty()) {
		return string("no certificates");
	}
	auto const leaf = unbase64(certificates[0].certificate);
	auto p = reinterpret_cast<unsigned char const*>(leaf.data());
	auto x = d2i_X509(nullptr, &p, leaf.size());
	if (!x) {
		return string("could not read leaf certificate");
	}
	Visible v;
	v.only = info;
	auto const signed_part = canonical(d.doc, v, comments);
	auto const value = unbase64(content(child(signature, "SignatureValue")));
	auto ctx = EVP_MD_CTX_new();
	auto pkey = X509_get_pubkey(x);
	EVP_DigestVerifyInit(ctx, nullptr, md, nullptr, pkey);
	auto const good = EVP_DigestVerify(ctx, reinterpret_cast<unsigned char const*>(value.data()), value.size(), reinterpret_cast<unsigned char const*>(signed_part.data()), signed_part.size());
	EVP_PKEY_free(pkey);
	EVP_MD_CTX_free(ctx);
	X509_free(x);
	if (good != 1) {
		return string("signature value is wrong");
	}
	return {};
}

}
