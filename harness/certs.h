/* Certificates for the checks, made from fixed keys */

#ifndef CERTS_H
#define CERTS_H

#include "certificate.h"
#include "certificate_chain.h"
#include "cert_keys.h"
#include <openssl/bio.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/sha.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>
#include <memory>
#include <stdlib.h>
#include <string>
#include <vector>

namespace certs {

/** @return one of the fixed keys: 0 to 7 are of 2048 bits, 8 is of 3072, 9 of 1024, 10 of 4096 */
inline EVP_PKEY* key(int n)
{
	static std::vector<EVP_PKEY*> keys(sizeof(pem) / sizeof(pem[0]), nullptr);
	if (!keys[n]) {
		auto bio = BIO_new_mem_buf(pem[n], -1);
		keys[n] = PEM_read_bio_PrivateKey(bio, nullptr, nullptr, nullptr);
		BIO_free(bio);
		if (!keys[n]) {
			exit(77);
		}
	}
	return keys[n];
}

/** @return dnQualifier for a key: base64 of the SHA-1 of the public key in PKCS#1 form */
inline std::string qualifier(EVP_PKEY* k)
{
	X509* holder = X509_new();
	X509_set_pubkey(holder, k);
	auto const bits = X509_get0_pubkey_bitstr(holder);
	unsigned char sha[SHA_DIGEST_LENGTH];
	SHA1(bits->data, bits->length, sha);
	X509_free(holder);
	unsigned char out[64];
	EVP_EncodeBlock(out, sha, SHA_DIGEST_LENGTH);
	return reinterpret_cast<char*>(out);
}

struct Name
{
	std::string o = "example.com";
	std::string ou = "example.com";
	std::string cn;
	std::string qualifier;

	Name(std::string cn_, int k)
		: cn(cn_)
		, qualifier(certs::qualifier(key(k)))
	{}
};

struct Spec
{
	Spec(int key_, Name subject_, int issuer_key_, Name issuer_, long serial_ = 5, std::string from_ = "20200101000000Z", std::string to_ = "20400101000000Z", bool ca_ = true)
		: key(key_), subject(subject_), issuer_key(issuer_key_), issuer(issuer_), serial(serial_), from(from_), to(to_), ca(ca_)
	{}

	int key;
	Name subject;
	int issuer_key;
	Name issuer;
	long serial;
	std::string from;
	std::string to;
	bool ca;
	int padding = 0;
	int type = V_ASN1_IA5STRING;
};

inline void fill(X509_NAME* name, Name const& n, int type)
{
	auto add = [name, type](char const* field, std::string const& value) {
		if (!value.empty()) {
			X509_NAME_add_entry_by_txt(name, field, type, reinterpret_cast<unsigned char const*>(value.c_str()), -1, -1, 0);
		}
	};
	add("O", n.o);
	add("OU", n.ou);
	add("CN", n.cn);
	add("dnQualifier", n.qualifier);
}

/** @return certificate in PEM form */
inline std::string make(Spec const& s)
{
	auto x = X509_new();
	X509_set_version(x, 2);
	ASN1_INTEGER_set(X509_get_serialNumber(x), s.serial);
	ASN1_TIME_set_string_X509(X509_getm_notBefore(x), s.from.c_str());
	ASN1_TIME_set_string_X509(X509_getm_notAfter(x), s.to.c_str());
	fill(X509_get_subject_name(x), s.subject, s.type);
	fill(X509_get_issuer_name(x), s.issuer, s.type);
	X509_set_pubkey(x, key(s.key));

	auto extension = [x](int nid, std::string value) {
		X509V3_CTX context;
		X509V3_set_ctx_nodb(&context);
		X509V3_set_ctx(&context, x, x, nullptr, nullptr, 0);
		auto e = X509V3_EXT_conf_nid(nullptr, &context, nid, value.c_str());
		if (!e) {
			exit(77);
		}
		X509_add_ext(x, e, -1);
		X509_EXTENSION_free(e);
	};
	extension(NID_basic_constraints, s.ca ? "critical,CA:true,pathlen:3" : "critical,CA:false");
	extension(NID_key_usage, s.ca ? "keyCertSign,cRLSign" : "digitalSignature,keyEncipherment");
	extension(NID_subject_key_identifier, "hash");
	if (s.padding) {
		extension(NID_netscape_comment, std::string(s.padding, 'x'));
	}
	{
		/* Say which key signed it */
		auto holder = X509_new();
		X509_set_pubkey(holder, key(s.issuer_key));
		auto const bits = X509_get0_pubkey_bitstr(holder);
		unsigned char sha[SHA_DIGEST_LENGTH];
		SHA1(bits->data, bits->length, sha);
		X509_free(holder);
		auto akid = AUTHORITY_KEYID_new();
		akid->keyid = ASN1_OCTET_STRING_new();
		ASN1_OCTET_STRING_set(akid->keyid, sha, sizeof(sha));
		X509_add1_ext_i2d(x, NID_authority_key_identifier, akid, 0, X509V3_ADD_DEFAULT);
		AUTHORITY_KEYID_free(akid);
	}

	if (!X509_sign(x, key(s.issuer_key), EVP_sha256())) {
		exit(77);
	}

	auto bio = BIO_new(BIO_s_mem());
	PEM_write_bio_X509(bio, x);
	char* data;
	auto const length = BIO_get_mem_data(bio, &data);
	std::string const out(data, length);
	BIO_free(bio);
	X509_free(x);
	return out;
}

/** Chain of a root, an intermediate and a leaf from three keys starting with the given one */
inline std::vector<std::string> three(
	int first, std::string prefix = "",
	std::vector<std::string> from = { "20200101000000Z", "20210101000000Z", "20220101000000Z" },
	std::vector<std::string> to = { "20400101000000Z", "20390101000000Z", "20380101000000Z" }
	)
{
	Name const root(prefix + ".root", first);
	Name const inter(prefix + ".inter", first + 1);
	Name const leaf("CS." + prefix + ".leaf", first + 2);
	return {
		make({ first, root, first, root, 5, from[0], to[0], true }),
		make({ first + 1, inter, first, root, 6, from[1], to[1], true }),
		make({ first + 2, leaf, first + 1, inter, 7, from[2], to[2], false })
	};
}

inline std::shared_ptr<dcp::CertificateChain> chain(std::vector<std::string> const& certificates, int leaf_key)
{
	auto c = std::make_shared<dcp::CertificateChain>();
	for (auto const& i: certificates) {
		c->add(dcp::Certificate(i));
	}
	c->set_key(pem[leaf_key]);
	return c;
}

}

#endif
