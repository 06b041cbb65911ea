/* Certificates, chains and signatures made and checked without the library */

#ifndef VERIF_CERTS_H
#define VERIF_CERTS_H

#include <boost/optional.hpp>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <ctime>

namespace dcp {
	class CertificateChain;
}

namespace certs {

/** Keys 0-7 have 2048 bits, 8 has 3072 and 9 has 4096 */
int const keys = 10;
int const small_keys = 8;

std::string key_pem(int index);

struct Name
{
	std::string o, ou, cn, dn;
	bool utf8 = false;
};

struct Spec
{
	Name subject, issuer;
	std::string serial = "1";     ///< decimal
	int64_t not_before = 0;       ///< seconds since 1970, UTC
	int64_t not_after = 0;
	int key = 0;                  ///< whose certificate it is
	int signing_key = 0;          ///< who signed it
	bool ca = true;
	size_t padding = 0;           ///< bytes of extra extension
};

std::string make(Spec const& spec);                    ///< as PEM
std::string der(std::string const& pem);
std::string pem(std::string const& der);
std::string base64(std::string const& data);
std::string unbase64(std::string const& text);
std::string sha1(std::string const& data);             ///< raw
std::string thumbprint(std::string const& pem);        ///< base64 SHA-1 of the part which is signed
std::string public_key_digest(int key);                ///< base64 SHA-1 of the RSAPublicKey, unescaped
std::string rfc2253(Name const& name);

/** A chain from root to leaf */
struct Chain
{
	std::vector<Spec> specs;
	std::vector<std::string> pems;
	int leaf_key() const { return specs.back().key; }
};

struct ChainLimits
{
	int min = 1;
	int max = 5;
	bool big_keys = true;
	bool odd_names = true;
};

/** A random good chain, valid from and to random dates which include 2020 to 2030 */
Chain random_chain(ChainLimits const& limits);

std::shared_ptr<dcp::CertificateChain> chain_for(Chain const& chain, bool with_key = true);

/** What is wrong with the signature of a document, or nothing.
 *  Checks digests of all references, the signature itself with the first certificate, and that at
 *  least the given number of references exist.
 */
boost::optional<std::string> signature_problem(std::string const& xml);

/** Certificates (as base64 with no newlines) in a signature, in order, with the issuer and serial number given with each */
struct Listed
{
	std::string issuer, serial, certificate;
};
std::vector<Listed> listed(std::string const& xml);

}

#endif
