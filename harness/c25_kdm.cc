/* C25: KDMs.  Every combination of what can be put into a KDM is encrypted, written, read and decrypted; the document is compared with
 * one made by the harness, its signature checked with xmlsec and its blocks of keys decrypted with OpenSSL.
 */

#include "assets.h"
#include "certs.h"
#include "decrypted_kdm.h"
#include "decrypted_kdm_key.h"
#include "encrypted_kdm.h"
#include "exceptions.h"
#include "key.h"
#include "util.h"
#include "mc.h"
#include "xmlref.h"
#include <libxml/tree.h>
#include <openssl/err.h>
#include <openssl/rsa.h>
#include <xmlsec/xmldsig.h>
#include <xmlsec/xmltree.h>
#include <xmlsec/crypto.h>
#include <xmlsec/errors.h>

using std::make_shared;
using std::map;
using std::pair;
using std::set;
using std::shared_ptr;
using std::string;
using std::vector;
using boost::optional;
using dcp::LocalTime;
using xmlref::tag;
using xmlref::nest;

static string const assume_trust = "2jmj7l5rSw0yVb/vlWAYkK/YBwk=";

static uint8_t const structure_id[] = { 0xf1, 0xdc, 0x12, 0x44, 0x60, 0x16, 0x9a, 0x0e, 0x85, 0xbc, 0x30, 0x06, 0x42, 0xf8, 0x66, 0xab };

static string uuid(int n)
{
	char buffer[40];
	snprintf(buffer, sizeof(buffer), "%02x00ff%02x-80%02x-4%03x-9abc-0123456789%02x", n, 255 - n, n, n, n);
	return buffer;
}

static string join(vector<int> const& s)
{
	string out;
	for (auto i: s) {
		out += ":" + std::to_string(i);
	}
	return out;
}

static string bytes_of(string const& id)
{
	string out;
	for (size_t i = 0; i < id.size(); ) {
		if (id[i] == '-') {
			++i;
		} else {
			out += char(strtol(id.substr(i, 2).c_str(), nullptr, 16));
			i += 2;
		}
	}
	return out;
}

/** A key for an asset */
static dcp::Key key_value(int n)
{
	uint8_t v[16];
	for (int i = 0; i < 16; ++i) {
		v[i] = n * 16 + i * (n + 1) + (n % 3 == 0 ? 0 : 200);
	}
	return dcp::Key(v, 16);
}

static string text_of(dcp::Key const& k)
{
	return string(reinterpret_cast<char const*>(k.value()), k.length());
}

struct Certs
{
	/** root, intermediate and leaf with keys 0, 1, 2 */
	vector<string> three = certs::three(0, "abc");
	/** A self-signed certificate with key 3 */
	string single = certs::make({ 3, certs::Name("CS.single", 3), 3, certs::Name("CS.single", 3), 99 });
	vector<string> two = {
		certs::make({ 3, certs::Name(".root-of-two", 3), 3, certs::Name(".root-of-two", 3), 1 }),
		certs::make({ 4, certs::Name("CS.end.of.two", 4), 3, certs::Name(".root-of-two", 3), 1234567890 }),
	};

	shared_ptr<const dcp::CertificateChain> signer(int which) const {
		switch (which) {
		case 0:
			return certs::chain(three, 2);
		case 1:
			return certs::chain({ three[2], three[0], three[1] }, 2);
		case 2:
			return certs::chain({ single }, 3);
		default:
			return certs::chain(two, 4);
		}
	}

	vector<string> leaf_to_root(int which) const {
		switch (which) {
		case 0: case 1:
			return { three[2], three[1], three[0] };
		case 2:
			return { single };
		default:
			return { two[1], two[0] };
		}
	}

	static int const signers = 4;
	static int const recipients = 4;

	/** @return certificate and number of its key */
	pair<string, int> recipient(int which) const {
		switch (which) {
		case 0:
			return { certs::make({ 5, certs::Name("LE.SPB.MD FM SM.dolby-100", 5), 6, certs::Name("issuer", 6), 77 }), 5 };
		case 1:
			return { certs::make({ 7, certs::Name("nodots", 7), 6, certs::Name("is<s>uer & \"co\"", 6), 1 }), 7 };
		case 2:
			return { certs::make({ 8, certs::Name("big.3072", 8), 6, certs::Name("issuer", 6), 2 }), 8 };
		default:
			return { certs::make({ 2, certs::Name("same.as.signer", 2), 6, certs::Name("issuer", 6), 3 }), 2 };
		}
	}
};

static Certs& certificates()
{
	static Certs c;
	return c;
}

/** What OpenSSL says about a certificate */
struct Facts
{
	string issuer;
	string subject;
	string serial;
	string thumbprint;
	string common_name;
	string body;

	explicit Facts(string const& pem)
	{
		auto bio = BIO_new_mem_buf(pem.data(), pem.size());
		auto x = PEM_read_bio_X509(bio, nullptr, nullptr, nullptr);
		BIO_free(bio);
		auto name = [](X509_NAME* n) {
			auto b = BIO_new(BIO_s_mem());
			X509_NAME_print_ex(b, n, 0, XN_FLAG_RFC2253);
			char* data;
			auto const length = BIO_get_mem_data(b, &data);
			string const out(data, length);
			BIO_free(b);
			return out;
		};
		issuer = name(X509_get_issuer_name(x));
		subject = name(X509_get_subject_name(x));
		serial = std::to_string(ASN1_INTEGER_get(X509_get_serialNumber(x)));
		unsigned char* tbs = nullptr;
		auto const length = i2d_re_X509_tbs(x, &tbs);
		thumbprint = assets::digest(string(reinterpret_cast<char*>(tbs), length));
		OPENSSL_free(tbs);
		char cn[256];
		X509_NAME_get_text_by_NID(X509_get_subject_name(x), NID_commonName, cn, sizeof(cn));
		common_name = cn;
		X509_free(x);
		for (auto line: { pem }) {
			auto const from = line.find('\n') + 1;
			body = line.substr(from, line.find("\n-----END") - from);
		}
	}
};

/** Encrypt with OAEP, using one of the fixed keys */
static string rsa(bool encrypt, int key, string const& in)
{
	auto context = EVP_PKEY_CTX_new(certs::key(key), nullptr);
	if (encrypt) {
		EVP_PKEY_encrypt_init(context);
	} else {
		EVP_PKEY_decrypt_init(context);
	}
	EVP_PKEY_CTX_set_rsa_padding(context, RSA_PKCS1_OAEP_PADDING);
	vector<unsigned char> out(1024);
	size_t length = out.size();
	auto const data = reinterpret_cast<unsigned char const*>(in.data());
	int const r = encrypt ? EVP_PKEY_encrypt(context, out.data(), &length, data, in.size()) : EVP_PKEY_decrypt(context, out.data(), &length, data, in.size());
	EVP_PKEY_CTX_free(context);
	ERR_clear_error();
	return r == 1 ? string(reinterpret_cast<char*>(out.data()), length) : string("failed");
}

static string base64(string const& s)
{
	vector<unsigned char> out(s.size() * 2 + 4);
	EVP_EncodeBlock(out.data(), reinterpret_cast<unsigned char const*>(s.data()), s.size());
	return reinterpret_cast<char*>(out.data());
}

static string unbase64(string s)
{
	s.erase(std::remove_if(s.begin(), s.end(), [](char c) { return isspace(c); }), s.end());
	vector<unsigned char> out(s.size() + 4);
	int n = EVP_DecodeBlock(out.data(), reinterpret_cast<unsigned char const*>(s.data()), s.size());
	for (auto i = s.rbegin(); i != s.rend() && *i == '='; ++i) {
		--n;
	}
	return n < 0 ? "" : string(reinterpret_cast<char*>(out.data()), n);
}

/** @return true if the signature of a KDM is that of the given certificate */
static bool signature_good(string const& xml, string const& certificate)
{
	auto doc = xmlReadMemory(xml.data(), xml.size(), "x.xml", nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
	if (!doc) {
		return false;
	}
	for (auto c = xmlDocGetRootElement(doc)->children; c; c = c->next) {
		if (c->type == XML_ELEMENT_NODE && xmlHasProp(c, BAD_CAST "Id")) {
			auto id = xmlGetProp(c, BAD_CAST "Id");
			xmlAddID(nullptr, doc, id, xmlHasProp(c, BAD_CAST "Id"));
			xmlFree(id);
		}
	}
	auto node = xmlSecFindNode(xmlDocGetRootElement(doc), xmlSecNodeSignature, xmlSecDSigNs);
	bool good = false;
	if (node) {
		auto context = xmlSecDSigCtxCreate(nullptr);
		context->signKey = xmlSecCryptoAppKeyLoadMemory(reinterpret_cast<xmlSecByte const*>(certificate.data()), certificate.size(), xmlSecKeyDataFormatCertPem, nullptr, nullptr, nullptr);
		good = context->signKey && xmlSecDSigCtxVerify(context, node) >= 0 && context->status == xmlSecDSigStatusSucceeded;
		/* Both halves must be signed */
		set<string> uris;
		for (xmlSecSize i = 0; i < xmlSecPtrListGetSize(&context->signedInfoReferences); ++i) {
			auto r = static_cast<xmlSecDSigReferenceCtx*>(xmlSecPtrListGetItem(&context->signedInfoReferences, i));
			uris.insert(r->uri ? reinterpret_cast<char const*>(r->uri) : "");
		}
		good = good && uris == set<string>{ "#ID_AuthenticatedPublic", "#ID_AuthenticatedPrivate" };
		xmlSecDSigCtxDestroy(context);
	}
	xmlFreeDoc(doc);
	return good;
}

struct Case
{
	vector<string> types = { "MDIK", "MDAK" };
	int formulation = 0;
	int devices = 1;
	bool picture = false;
	optional<int> audio;
	string annotation = "annotation";
	string title = "title";
	LocalTime from = LocalTime("2025-07-06T13:04:05+00:00");
	LocalTime to = LocalTime("2025-07-16T23:59:59+00:00");
	int signer = 0;
	int recipient = 0;
	int cpls = 1;
	bool map = false;
};

static dcp::Formulation const formulations[] = {
	dcp::Formulation::MODIFIED_TRANSITIONAL_1, dcp::Formulation::MULTIPLE_MODIFIED_TRANSITIONAL_1, dcp::Formulation::DCI_ANY, dcp::Formulation::DCI_SPECIFIC
};

static string device(int n)
{
	return assets::digest("device" + std::to_string(n));
}

static dcp::DecryptedKDM decrypted(Case const& c)
{
	dcp::DecryptedKDM d(c.from, c.to, c.annotation, c.title, "2020-01-01T00:00:00+00:00");
	for (size_t i = 0; i < c.types.size(); ++i) {
		d.add_key(c.types[i], uuid(i), key_value(i), uuid(100 + i % c.cpls), dcp::Standard::SMPTE);
	}
	return d;
}

static dcp::EncryptedKDM encrypted(Case const& c)
{
	vector<string> devices;
	for (int i = 0; i < c.devices; ++i) {
		devices.push_back(device(i));
	}
	return decrypted(c).encrypt(
		certificates().signer(c.signer), dcp::Certificate(certificates().recipient(c.recipient).first), devices, formulations[c.formulation], c.picture, c.audio
		);
}

/** @return the document that there should be, apart from what is random */
static string expected(Case const& c)
{
	Facts const leaf(certificates().leaf_to_root(c.signer)[0]);
	Facts const recipient(certificates().recipient(c.recipient).first);

	bool const dci = c.formulation >= 2;
	bool const specific = c.formulation % 2;

	string devices;
	if (specific && c.devices) {
		for (int i = 0; i < c.devices; ++i) {
			devices += tag("CertificateThumbprint", device(i));
		}
	} else {
		devices = tag("CertificateThumbprint", assume_trust);
	}
	string ids, keys;
	for (size_t i = 0; i < c.types.size(); ++i) {
		ids += nest("TypedKeyId",
			tag(c.types[i] == "MDEK" ? "KeyType scope=\"http://www.dolby.com/cp850/2012/KDM#kdm-key-type\"" : "KeyType scope=\"http://www.smpte-ra.org/430-1/2006/KDM#kdm-key-type\"", c.types[i]) +
			tag("KeyId", "urn:uuid:" + uuid(i)));
		keys += nest("enc:EncryptedKey",
			nest("enc:EncryptionMethod Algorithm=\"http://www.w3.org/2001/04/xmlenc#rsa-oaep-mgf1p\"", nest("ds:DigestMethod Algorithm=\"http://www.w3.org/2000/09/xmldsig#sha1\"", "")) +
			nest("enc:CipherData", tag("enc:CipherValue", "...")));
	}
	string flags;
	if (c.picture) {
		flags += tag("ForensicMarkFlag", "http://www.smpte-ra.org/430-1/2006/KDM#mrkflg-picture-disable");
	}
	if (c.audio) {
		flags += tag("ForensicMarkFlag", "http://www.smpte-ra.org/430-1/2006/KDM#mrkflg-audio-disable" + (*c.audio ? "-above-channel-" + std::to_string(*c.audio) : string()));
	}
	auto description = recipient.common_name;
	if (description.find('.') != string::npos) {
		description = description.substr(description.find('.') + 1);
	}
	return xmlref::canonical(
		nest("DCinemaSecurityMessage xmlns=\"http://www.smpte-ra.org/schemas/430-3/2006/ETM\" xmlns:ds=\"http://www.w3.org/2000/09/xmldsig#\" xmlns:enc=\"http://www.w3.org/2001/04/xmlenc#\"",
			nest("AuthenticatedPublic Id=\"ID_AuthenticatedPublic\"",
				tag("MessageId", "...") +
				tag("MessageType", "http://www.smpte-ra.org/430-1/2006/KDM#kdm-key-type") +
				tag("AnnotationText", c.annotation) +
				tag("IssueDate", "...") +
				nest("Signer", tag("ds:X509IssuerName", leaf.issuer) + tag("ds:X509SerialNumber", leaf.serial)) +
				nest("RequiredExtensions", nest("KDMRequiredExtensions xmlns=\"http://www.smpte-ra.org/schemas/430-1/2006/KDM\"",
					nest("Recipient",
						nest("X509IssuerSerial", tag("ds:X509IssuerName", recipient.issuer) + tag("ds:X509SerialNumber", recipient.serial)) +
						tag("X509SubjectName", recipient.subject)) +
					tag("CompositionPlaylistId", "urn:uuid:" + uuid(100)) +
					tag("ContentTitleText", c.title) +
					(dci ? tag("ContentAuthenticator", leaf.thumbprint) : string()) +
					tag("ContentKeysNotValidBefore", c.from.as_string()) +
					tag("ContentKeysNotValidAfter", c.to.as_string()) +
					nest("AuthorizedDeviceInfo", tag("DeviceListIdentifier", "...") + tag("DeviceListDescription", description) + nest("DeviceList", devices)) +
					nest("KeyIdList", ids) +
					(flags.empty() ? string() : nest("ForensicMarkFlagList", flags))
					)) +
				nest("NonCriticalExtensions", "")
				) +
			nest("AuthenticatedPrivate Id=\"ID_AuthenticatedPrivate\"", keys) +
			tag("ds:Signature", "...")
			)
		);
}

/** The canonical forms of elements which are said to be in the ETM namespace or the KDM namespace depend on inheritance, which both sides do alike */
static string canonical(string const& xml)
{
	string const r = "/DCinemaSecurityMessage";
	string const p = r + "/AuthenticatedPublic";
	return xmlref::canonical(xml, {
		p + "/MessageId", p + "/IssueDate", p + "/RequiredExtensions/KDMRequiredExtensions/AuthorizedDeviceInfo/DeviceListIdentifier",
		r + "/AuthenticatedPrivate/EncryptedKey/CipherData/CipherValue", r + "/Signature"
	});
}

static void check_keys(vector<dcp::DecryptedKDMKey> const& keys, Case const& c)
{
	MC_CHECK(keys.size() == c.types.size(), "%zu keys out of %zu came back", keys.size(), c.types.size());
	for (size_t i = 0; i < keys.size(); ++i) {
		MC_CHECK(keys[i].type() && *keys[i].type() == c.types[i], "key %zu has the wrong type", i);
		MC_CHECK(keys[i].id() == uuid(i), "key %zu has the id %s", i, keys[i].id().c_str());
		MC_CHECK(keys[i].cpl_id() == uuid(100 + i % c.cpls), "key %zu is for CPL %s", i, keys[i].cpl_id().c_str());
		MC_CHECK(keys[i].key() == key_value(i), "key %zu has the wrong value", i);
		MC_CHECK(keys[i].standard() == dcp::Standard::SMPTE, "key %zu has the wrong standard", i);
	}
}

static void check_kdm(dcp::EncryptedKDM const& k, Case const& c, string const& xml)
{
	bool const specific = c.formulation % 2;
	MC_CHECK(k.annotation_text() && *k.annotation_text() == c.annotation, "the annotation is wrong");
	MC_CHECK(k.content_title_text() == c.title, "the title is %s", k.content_title_text().c_str());
	MC_CHECK(k.cpl_id() == uuid(100), "the CPL is %s", k.cpl_id().c_str());
	MC_CHECK(k.not_valid_before() == c.from && k.not_valid_after() == c.to, "the validity period is %s to %s", k.not_valid_before().as_string().c_str(), k.not_valid_after().as_string().c_str());
	MC_CHECK(k.recipient_x509_subject_name() == Facts(certificates().recipient(c.recipient).first).subject, "the recipient is %s", k.recipient_x509_subject_name().c_str());
	auto const root = xmlref::parse(xml);
	auto const pub = root.one("AuthenticatedPublic");
	MC_CHECK("urn:uuid:" + k.id() == pub.child("MessageId"), "the id is %s", k.id().c_str());
	MC_CHECK(k.issue_date() == pub.child("IssueDate"), "the issue date is %s", k.issue_date().c_str());
	MC_CHECK(k.keys().size() == c.types.size(), "there are %zu encrypted keys", k.keys().size());
	vector<string> devices;
	if (specific && c.devices) {
		for (int i = 0; i < c.devices; ++i) {
			devices.push_back(device(i));
		}
	} else {
		devices.push_back(assume_trust);
	}
	MC_CHECK(k.trusted_devices() == devices, "the trusted devices are wrong");
	auto const expected = certificates().leaf_to_root(c.signer);
	auto const chain = k.signer_certificate_chain().leaf_to_root();
	MC_CHECK(chain.size() == expected.size(), "there are %zu signing certificates", chain.size());
	for (size_t i = 0; i < chain.size(); ++i) {
		MC_CHECK(chain[i].certificate(true) == expected[i], "signing certificate %zu is wrong", i);
	}
}

static void check(Case const& c, bool onward = false)
{
	mc::transition();
	auto const d = decrypted(c);
	check_keys(d.keys(), c);
	auto const e = encrypted(c);
	auto const xml = e.as_xml();
	MC_CHECK(canonical(xml) == expected(c), "the KDM has %s", xmlref::difference(canonical(xml), expected(c)).c_str());
	check_kdm(e, c, xml);
	auto const leaf = certificates().leaf_to_root(c.signer)[0];
	MC_CHECK(signature_good(xml, leaf), "the signature is not that of the signer");

	/* The certificates in the signature */
	auto const data = xmlref::parse(xml).one("Signature").one("KeyInfo").all("X509Data");
	auto const order = certificates().leaf_to_root(c.signer);
	MC_CHECK(data.size() == order.size(), "%zu certificates are in the signature", data.size());
	for (size_t i = 0; i < data.size(); ++i) {
		Facts const f(order[i]);
		auto squash = [](string s) {
			s.erase(std::remove_if(s.begin(), s.end(), [](char c) { return isspace(c); }), s.end());
			return s;
		};
		MC_CHECK(data[i].one("X509IssuerSerial").child("X509IssuerName") == f.issuer && data[i].one("X509IssuerSerial").child("X509SerialNumber") == f.serial, "certificate %zu of the signature has the wrong issuer", i);
		MC_CHECK(squash(data[i].child("X509Certificate")) == squash(f.body), "certificate %zu of the signature is wrong", i);
	}

	/* Blocks of keys */
	auto const key = certificates().recipient(c.recipient).second;
	auto const thumbprint = unbase64(Facts(leaf).thumbprint);
	auto const values = xmlref::parse(xml).one("AuthenticatedPrivate").all("EncryptedKey");
	MC_CHECK(values.size() == c.types.size(), "there are %zu encrypted keys", values.size());
	set<string> ciphers;
	for (size_t i = 0; i < values.size(); ++i) {
		auto const cipher = values[i].one("CipherData").child("CipherValue");
		MC_CHECK(ciphers.insert(cipher).second, "two keys are encrypted alike");
		auto const block = rsa(false, key, unbase64(cipher));
		auto const want = string(reinterpret_cast<char const*>(structure_id), 16) + thumbprint + bytes_of(uuid(100 + i % c.cpls)) + c.types[i] + bytes_of(uuid(i)) +
			c.from.as_string() + c.to.as_string() + text_of(key_value(i));
		MC_CHECK(block == want, "key block %zu is wrong", i);
	}

	/* Read it back */
	dcp::EncryptedKDM r(xml);
	MC_CHECK(r.as_xml() == xml, "a KDM changes on being read and written: %s", xmlref::difference(r.as_xml(), xml).c_str());
	check_kdm(r, c, xml);
	MC_CHECK(r == e, "a KDM which has been read is not equal to the original");

	auto const file = mc::scratch() + "/kdm.xml";
	r.as_xml(boost::filesystem::path(file));
	MC_CHECK(assets::slurp(file) == xml, "the file is not the same as the text");

	dcp::DecryptedKDM again(r, certs::pem[key]);
	check_keys(again.keys(), c);
	MC_CHECK(again.annotation_text() && *again.annotation_text() == c.annotation && again.content_title_text() == c.title && again.issue_date() == e.issue_date(), "the texts of the decrypted KDM are wrong");

	if (onward) {
		/* It can be encrypted again for someone else */
		auto const next = again.encrypt(certificates().signer(0), dcp::Certificate(certificates().recipient((c.recipient + 1) % Certs::recipients).first), {}, formulations[0], false, {});
		dcp::DecryptedKDM const third(next, certs::pem[certificates().recipient((c.recipient + 1) % Certs::recipients).second]);
		check_keys(third.keys(), c);
		MC_CHECK(next.not_valid_before() == c.from && next.not_valid_after() == c.to, "the validity period changed when a KDM was re-made");
	}
	mc::state(expected(c).substr(0, 8) + mc::format("%zu/%d/%d/%d/%d/%d/%d", c.types.size(), c.formulation, c.devices, c.picture, c.audio ? *c.audio : -1, c.signer, c.recipient) + c.types[0] + c.title + c.annotation + c.from.as_string());
}

static vector<string> const all_types = { "MDIK", "MDAK", "MDSK", "MDEK" };

static void contents()
{
	/* Options */
	int unit = 0;
	vector<optional<int>> const audio = { {}, 0, 1, 12, 99 };
	for (int f = 0; f < 4; ++f) {
		for (int d = 0; d < 3; ++d) {
			for (int p = 0; p < 2; ++p) {
				for (size_t a = 0; a < audio.size(); ++a) {
					if (mc::mine(unit++)) {
						if (!mc::at("options", { f, d, p, int(a) })) {
							continue;
						}
						Case c;
						c.formulation = f;
						c.devices = d;
						c.picture = p;
						c.audio = audio[a];
						check(c);
					}
				}
			}
		}
	}

	/* Keys */
	mc::sequences_to(all_types.size(), mc::thorough() ? 4 : 3, [&](vector<int> const& s) {
		if (s.empty() || !mc::mine(unit++)) {
			return;
		}
		if (!mc::at("keys" + join(s))) {
			return;
		}
		Case c;
		c.types.clear();
		for (auto i: s) {
			c.types.push_back(all_types[i]);
		}
		c.cpls = 1 + s.size() % 2;
		check(c);
	});

	/* People */
	for (int s = 0; s < Certs::signers; ++s) {
		for (int r = 0; r < Certs::recipients; ++r) {
			for (int f = 0; f < 4; ++f) {
				if (mc::mine(unit++)) {
					if (!mc::at("people", { s, r, f })) {
						continue;
					}
					Case c;
					c.signer = s;
					c.recipient = r;
					c.formulation = f;
					check(c, true);
				}
			}
		}
	}

	/* Texts */
	vector<string> const texts = { "x", "a & b < c > \"d\" 'e'", " spaces ", "\xc3\xa9\xe6\x97\xa5\xf0\x9f\x8e\xac", "]]>", "line\nbreak", "%1", "&amp;" };
	for (size_t a = 0; a < texts.size(); ++a) {
		for (size_t b = 0; b < texts.size(); ++b) {
			if (mc::mine(unit++)) {
				if (!mc::at("texts", { int(a), int(b) })) {
					continue;
				}
				Case c;
				c.annotation = texts[a];
				c.title = texts[b];
				check(c);
			}
		}
	}

	/* Times */
	vector<string> const times = {
		"2023-01-01T00:00:00+00:00", "2023-12-31T23:59:59-11:00", "2024-02-29T12:30:01+05:30", "2024-03-01T00:00:00+14:00", "2030-10-10T10:10:10-00:30", "2036-12-31T23:59:59+01:00"
	};
	for (size_t a = 0; a < times.size(); ++a) {
		for (size_t b = a; b < times.size(); ++b) {
			if (mc::mine(unit++)) {
				if (!mc::at("times", { int(a), int(b) })) {
					continue;
				}
				Case c;
				c.from = LocalTime(times[a]);
				c.to = LocalTime(times[b]);
				check(c);
			}
		}
	}
}

/** Days at which a KDM can be made with a signer */
static void windows()
{
	/* first and last days of the three certificates of the chain, in days from 2030-01-01 */
	int unit = 0;
	auto date = [](int day, int hour) {
		time_t const t = 1893456000 + day * 86400L + (hour == 0 ? 0 : hour == 1 ? 12 * 3600 : 86399);
		struct tm tm;
		gmtime_r(&t, &tm);
		char buffer[64];
		strftime(buffer, sizeof(buffer), "%Y-%m-%dT%H:%M:%S+00:00", &tm);
		return LocalTime(buffer);
	};
	auto asn1 = [](int day, int hour) {
		time_t const t = 1893456000 + day * 86400L + (hour == 0 ? 0 : hour == 1 ? 12 * 3600 : 86399);
		struct tm tm;
		gmtime_r(&t, &tm);
		char buffer[64];
		strftime(buffer, sizeof(buffer), "%Y%m%d%H%M%SZ", &tm);
		return string(buffer);
	};

	/* Each certificate may be the one which has the shortest time: one which spans a day, the end of a month, of February or of a year */
	vector<pair<int, int>> const spans = { { 364, 396 }, { 57, 60 }, { 10, 50 } };
	for (int which = 0; which < 3; ++which) {
		for (size_t span = 0; span < spans.size(); ++span) {
			for (int hour = 0; hour < 3; ++hour) {
				if (!mc::mine(unit++)) {
					continue;
				}
				vector<string> from(3, asn1(-4000, 0)), to(3, asn1(4000, 0));
				from[which] = asn1(spans[span].first, hour);
				to[which] = asn1(spans[span].second, hour);
				auto const signer = certs::chain(certs::three(0, "abc", from, to), 2);
				dcp::Certificate const recipient(certificates().recipient(0).first);
				for (int a: { -400, -31, -1, 0, 1, 2 }) {
					for (int b: { -2, -1, 0, 1, 31, 400 }) {
						for (int hours = 0; hours < 4; ++hours) {
							if (hours && (abs(a) > 1 || abs(b) > 1)) {
								continue;
							}
							int const ah = hours & 1 ? 2 : 0;
							int const bh = hours & 2 ? 2 : 0;
							if (!mc::at("window", { which, int(span), hour, a, b, hours })) {
								continue;
							}
							mc::transition();
							int const first = spans[span].first + a;
							int const last = spans[span].second + b;
							dcp::DecryptedKDM d(date(first, ah), date(last, bh), "a", "t", "2020-01-01T00:00:00+00:00");
							d.add_key(string("MDIK"), uuid(1), key_value(1), uuid(100), dcp::Standard::SMPTE);
							/* It must be within the time by at least a day at each end */
							int want = 0;
							if (a <= 0) {
								want = 1;
							} else if (b >= 0) {
								want = 2;
							}
							int got = 0;
							try {
								d.encrypt(signer, recipient, {}, dcp::Formulation::MODIFIED_TRANSITIONAL_1, false, {});
							} catch (dcp::BadKDMDateError& e) {
								got = e.starts_too_early() ? 1 : 2;
							}
							MC_CHECK(got == want, "a KDM from %s to %s with a certificate for %s to %s was %s", date(first, ah).as_string().c_str(), date(last, bh).as_string().c_str(), from[which].c_str(), to[which].c_str(),
								got == 0 ? "made" : got == 1 ? "refused for starting too early" : "refused for ending too late");
							mc::state(mc::format("%d %d %d", which, want, a));
						}
					}
				}
			}
		}
	}
}

static bool reads(string const& xml, optional<dcp::EncryptedKDM>& k)
{
	try {
		k = dcp::EncryptedKDM(xml);
		return true;
	} catch (std::exception&) {
		return false;
	}
}

/** @return xml with the n'th element removed, or emptied, or empty if there aren't that many.  @param name filled with its name */
static string without(string const& xml, int n, bool remove, string& path)
{
	auto doc = xmlReadMemory(xml.data(), xml.size(), "x.xml", nullptr, 0);
	vector<xmlNode*> all;
	std::function<void (xmlNode*)> walk = [&](xmlNode* e) {
		all.push_back(e);
		for (auto c = e->children; c; c = c->next) {
			if (c->type == XML_ELEMENT_NODE) {
				walk(c);
			}
		}
	};
	walk(xmlDocGetRootElement(doc));
	string out;
	if (n + 1 < int(all.size())) {
		auto e = all[n + 1];
		path.clear();
		for (auto p = e; p && p->type == XML_ELEMENT_NODE; p = p->parent) {
			path = "/" + string(reinterpret_cast<char const*>(p->name)) + path;
		}
		if (remove) {
			xmlUnlinkNode(e);
			xmlFreeNode(e);
		} else {
			while (e->children) {
				auto c = e->children;
				xmlUnlinkNode(c);
				xmlFreeNode(c);
			}
		}
		xmlChar* text;
		int size;
		xmlDocDumpMemory(doc, &text, &size);
		out = string(reinterpret_cast<char*>(text), size);
		xmlFree(text);
	}
	xmlFreeDoc(doc);
	return out;
}

static void damage()
{
	Case c;
	c.formulation = 3;
	c.picture = true;
	c.audio = 3;
	auto const original = encrypted(c);
	auto const xml = original.as_xml();
	int unit = 0;

	/* Cut short */
	size_t const end = xml.rfind('>');
	for (size_t n = 0; n < end; ++n) {
		if (!mc::mine(unit++ / 64)) {
			continue;
		}
		if (n > 3000 && n + 3000 < end && n % 16 && !mc::thorough()) {
			continue;
		}
		if (!mc::at("short", { int(n) })) {
			continue;
		}
		optional<dcp::EncryptedKDM> k;
		MC_CHECK(!reads(xml.substr(0, n), k), "the first %zu characters of a KDM were read", n);
	}

	/* Things left out */
	for (int remove = 0; remove < 2; ++remove) {
		for (int n = 0; ; ++n) {
			string path;
			auto const less = without(xml, n, remove, path);
			if (less.empty()) {
				break;
			}
			if (!mc::mine(unit++)) {
				continue;
			}
			if (!mc::at("without", { remove, n })) {
				continue;
			}
			mc::transition();
			optional<dcp::EncryptedKDM> k;
			bool const ok = reads(less, k);
			mc::state(path + (ok ? " read" : " refused"));
			bool const inside = path.find("/DCinemaSecurityMessage/AuthenticatedPrivate") == 0;
			if (!ok) {
				continue;
			}
			if (!inside) {
				MC_CHECK(k->keys() == original.keys(), "keys were lost without %s", path.c_str());
			}
			if (!signature_good(less, certificates().leaf_to_root(0)[0])) {
				/* What is missing can't come back */
				MC_CHECK(!signature_good(k->as_xml(), certificates().leaf_to_root(0)[0]) || canonical(k->as_xml()) == canonical(xml), "without %s it became another KDM with a good signature", path.c_str());
			}
			/* It may be decrypted, giving the keys which it still has, or refused */
			try {
				dcp::DecryptedKDM d(*k, certs::pem[5]);
				if (!inside) {
					check_keys(d.keys(), c);
				}
				MC_CHECK(d.keys().size() <= 2, "there are more keys");
			} catch (std::exception&) {
				MC_CHECK(inside, "it could not be decrypted without %s", path.c_str());
			}
		}
	}

	/* Changes to an encrypted key */
	auto const key = original.keys()[1];
	string const value = key;
	auto const at = xml.find(value);
	MC_CHECK(at != string::npos, "the encrypted key is not in the document");
	int const significant = 340;
	int seen = 0;
	for (size_t n = 0; n < value.size() && seen < significant; ++n) {
		if (isspace(value[n])) {
			continue;
		}
		++seen;
		for (int how = 0; how < 3; ++how) {
			if (!mc::mine(unit++ / 16)) {
				continue;
			}
			if (!mc::at("cipher", { int(n), how })) {
				continue;
			}
			mc::transition();
			auto changed = value;
			if (how == 0) {
				changed[n] = value[n] == 'A' ? 'z' : 'A';
			} else if (how == 1) {
				changed.erase(n, 1);
			} else {
				changed = value.substr(0, n);
			}
			auto text = xml;
			text.replace(at, value.size(), changed);
			optional<dcp::EncryptedKDM> k;
			if (!reads(text, k)) {
				continue;
			}
			bool refused = false;
			try {
				dcp::DecryptedKDM d(*k, certs::pem[5]);
			} catch (dcp::KDMDecryptionError&) {
				refused = true;
			}
			MC_CHECK(refused, "a key whose encrypted form was changed at %zu was decrypted", n);
		}
	}

	/* Changes to what is signed */
	if (mc::mine(unit++)) {
		for (size_t n = 0; n < xml.size(); n += 1) {
			auto const stop = xml.find("<ds:Signature");
			if (n >= stop || !isalnum(xml[n])) {
				continue;
			}
			if (n % (mc::thorough() ? 1 : 7)) {
				continue;
			}
			if (!mc::at("signed", { int(n) })) {
				continue;
			}
			auto text = xml;
			text[n] = text[n] == 'x' ? 'y' : 'x';
			optional<dcp::EncryptedKDM> k;
			if (!reads(text, k)) {
				continue;
			}
			/* A KDM read and written must not have a good signature unless it is the one that was signed */
			auto const out = k->as_xml();
			MC_CHECK(out == xml || !signature_good(out, certificates().leaf_to_root(0)[0]), "a change at %zu kept the signature good", n);
		}
	}

	/* Other keys */
	for (int n = 0; n < 10; ++n) {
		if (n == 5 || !mc::mine(unit++)) {
			continue;
		}
		if (!mc::at("other", { n })) {
			continue;
		}
		bool refused = false;
		try {
			dcp::DecryptedKDM d(original, certs::pem[n]);
		} catch (dcp::KDMDecryptionError&) {
			refused = true;
		}
		MC_CHECK(refused, "a KDM was decrypted with somebody else's key");
	}
	for (string const& bad: { string(), string("x"), string(certs::pem[5]).substr(0, 800), certificates().three[0] }) {
		if (!mc::mine(unit++)) {
			continue;
		}
		if (!mc::at("notkey", { int(bad.size()) })) {
			continue;
		}
		bool refused = false;
		try {
			dcp::DecryptedKDM d(original, bad);
		} catch (std::exception&) {
			refused = true;
		}
		MC_CHECK(refused, "a KDM was decrypted with something which is not a key");
	}
}

/** Keys which come from elsewhere */
static void foreign()
{
	auto const xml = encrypted(Case()).as_xml();
	auto const keys = dcp::EncryptedKDM(xml).keys();
	int unit = 0;
	string const from = "2025-07-06T13:04:05+00:00";
	string const to = "2025-07-16T23:59:59+00:00";
	auto block = [&](bool smpte, int n, string f, string t) {
		return string(reinterpret_cast<char const*>(structure_id), 16) + string(20, 't') + bytes_of(uuid(100)) + (smpte ? "MDAK" : "") + bytes_of(uuid(n)) + f + t + text_of(key_value(n));
	};
	auto with = [&](string const& a, string const& b) {
		auto out = xml;
		out.replace(out.find(keys[0]), keys[0].size(), base64(rsa(true, 5, a)));
		out.replace(out.find(keys[1]), keys[1].size(), base64(rsa(true, 5, b)));
		return out;
	};

	for (int a = 0; a < 2; ++a) {
		for (int b = 0; b < 2; ++b) {
			for (int odd = 0; odd < 6; ++odd) {
				if (!mc::mine(unit++)) {
					continue;
				}
				if (!mc::at("foreign", { a, b, odd })) {
					continue;
				}
				mc::transition();
				auto f = from, t = to;
				if (odd == 1) {
					f = "2025-07-06T13:04:06+00:00";
				} else if (odd == 2) {
					t = "2026-07-16T23:59:59+00:00";
				} else if (odd == 3) {
					f = "2025-07-06T13:04:05+01:00";
				} else if (odd == 4) {
					f = "2025-07-06T14:04:05+01:00";
				} else if (odd == 5) {
					f = "not a time at all, really";
				}
				dcp::EncryptedKDM k(with(block(a, 3, from, to), block(b, 4, f, t)));
				string got = "decrypted";
				try {
					dcp::DecryptedKDM d(k, certs::pem[5]);
					auto const r = d.keys();
					MC_CHECK(r.size() == 2, "there are %zu keys", r.size());
					for (int i = 0; i < 2; ++i) {
						bool const smpte = i ? b : a;
						MC_CHECK(r[i].id() == uuid(3 + i) && r[i].key() == key_value(3 + i) && r[i].cpl_id() == uuid(100), "key %d is wrong", i);
						MC_CHECK(r[i].standard() == (smpte ? dcp::Standard::SMPTE : dcp::Standard::INTEROP), "key %d has the wrong standard", i);
						MC_CHECK(bool(r[i].type()) == smpte && (!smpte || *r[i].type() == "MDAK"), "key %d has the wrong type", i);
					}
				} catch (dcp::InconsistentValidityPeriodError&) {
					got = "inconsistent";
				} catch (std::exception&) {
					got = "refused";
				}
				if (odd == 4) {
					/* The same time, said in another way */
					continue;
				}
				string const want = odd == 0 ? "decrypted" : odd == 5 ? "refused" : "inconsistent";
				MC_CHECK(got == want, "it was %s instead of %s", got.c_str(), want.c_str());
				mc::state(mc::format("%d %d %s", a, b, got.c_str()));
			}
		}
	}

	/* Blocks of all sizes, and one with another structure */
	for (int n = 0; n <= 214; ++n) {
		if (n == 134 || n == 138 || !mc::mine(unit++)) {
			continue;
		}
		if (!mc::at("size", { n })) {
			continue;
		}
		dcp::EncryptedKDM k(with(block(true, 3, from, to), string(n, 'x')));
		bool refused = false;
		try {
			dcp::DecryptedKDM d(k, certs::pem[5]);
		} catch (std::exception&) {
			refused = true;
		}
		MC_CHECK(refused, "a block of %d bytes was taken", n);
	}
	for (int n = 0; n < 16; ++n) {
		if (!mc::mine(unit++)) {
			continue;
		}
		if (!mc::at("structure", { n })) {
			continue;
		}
		auto other = block(true, 4, from, to);
		other[n] ^= 1;
		dcp::EncryptedKDM k(with(block(true, 3, from, to), other));
		bool refused = false;
		try {
			dcp::DecryptedKDM d(k, certs::pem[5]);
		} catch (std::exception&) {
			refused = true;
		}
		MC_CHECK(refused, "a block with the wrong structure id was taken");
	}

	/* Types which don't fit */
	for (int n = 0; n < 300; n += n < 8 ? 1 : 60) {
		if (n == 4 || !mc::mine(unit++)) {
			continue;
		}
		if (!mc::at("type", { n })) {
			continue;
		}
		bool refused = false;
		try {
			Case c;
			c.types = { string(n, 'M') };
			encrypted(c);
		} catch (std::exception&) {
			refused = true;
		}
		MC_CHECK(refused, "a key type of %d characters was taken", n);
	}
}

/** Copying */
static void copies()
{
	vector<Case> cases(3);
	cases[1].types = { "MDSK" };
	cases[1].title = "another";
	cases[2].types = { "MDIK", "MDAK", "MDEK" };
	cases[2].formulation = 3;
	vector<dcp::EncryptedKDM> e;
	vector<dcp::DecryptedKDM> d;
	for (auto const& c: cases) {
		e.push_back(encrypted(c));
		d.push_back(decrypted(c));
	}
	mc::sequences(9, 3, [&](vector<int> const& s) {
		if (s.size() != 3 || !mc::mine(s[0] + s[1])) {
			return;
		}
		if (!mc::at("copies" + join(s))) {
			return;
		}
		vector<dcp::EncryptedKDM> x(e);
		vector<dcp::DecryptedKDM> y(d);
		vector<int> model = { 0, 1, 2 };
		for (auto i: s) {
			mc::transition();
			x[i / 3] = x[i % 3];
			y[i / 3] = y[i % 3];
			model[i / 3] = model[i % 3];
		}
		for (int i = 0; i < 3; ++i) {
			MC_CHECK(x[i].as_xml() == e[model[i]].as_xml(), "a copied KDM is not the same");
			for (int j = 0; j < 3; ++j) {
				MC_CHECK((x[i] == e[j]) == (model[i] == j), "comparison of KDMs is wrong");
			}
			check_keys(y[i].keys(), cases[model[i]]);
		}
		mc::state(mc::format("%d%d%d", model[0], model[1], model[2]));
	});

	/* Keys of all lengths */
	for (int a = 1; a < 40; ++a) {
		for (int b = 1; b < 40; ++b) {
			if (!mc::mine(a)) {
				continue;
			}
			if (!mc::at("assign", { a, b })) {
				continue;
			}
			vector<uint8_t> u(a, 3), v(b, 5);
			dcp::Key x(u.data(), a), y(v.data(), b);
			dcp::Key const z(y);
			x = y;
			MC_CHECK(x == y && z == y && x.length() == b && !memcmp(x.value(), v.data(), b), "an assigned key is different");
			MC_CHECK((dcp::Key(u.data(), a) == y) == (a == b && u == v), "comparison of keys is wrong");
			auto& same = x;
			x = same;
			MC_CHECK(x == y, "a key changed on being assigned to itself");
			string hex;
			for (auto i: v) {
				hex += mc::format("%02x", i);
			}
			MC_CHECK(x.hex() == hex, "the text of a key is %s", x.hex().c_str());
			{
				MC_CHECK(dcp::Key(hex) == y, "a key is not read back from its text");
			}
		}
	}
	for (int byte = 0; byte < 256; ++byte) {
		if (mc::mine(byte)) {
			if (!mc::at("hex", { byte })) {
				continue;
			}
			vector<uint8_t> v(16, 0);
			for (int i = 0; i < 16; ++i) {
				v[i] = byte + i * 17;
				v[15] = byte;
			}
			dcp::Key const k(v.data());
			MC_CHECK(dcp::Key(k.hex()) == k, "a key is not read back from its text");
			for (int i = 0; i < 16; ++i) {
				auto w = v;
				w[i] ^= 1 << (byte % 8);
				MC_CHECK(dcp::Key(w.data()) != k, "different keys are equal");
			}
		}
	}
}

/** Giving keys to assets */
struct Kinds
{
	static int const N = 9;
	vector<shared_ptr<dcp::MXF>> mxf;
	vector<shared_ptr<dcp::ReelFileAsset>> reel;
	vector<shared_ptr<dcp::Asset>> asset;

	static string file(int n, int variant) {
		return "t" + std::to_string(n) + "_" + std::to_string(variant);
	}

	/** Texts are read when they are given their keys, so there must be some files.  Variant 0 is not encrypted, 1 has a key for each and 2 one for all */
	static void make_files(boost::filesystem::path dir) {
		assets::put(dir / "file", "nothing much");
		for (int n = 2; n < 8; ++n) {
			for (int variant = 0; variant < 3; ++variant) {
				dcp::SMPTETextAsset asset;
				asset.set_language(dcp::LanguageTag("en-GB"));
				asset.set_content_title_text("title");
				asset.set_edit_rate(dcp::Fraction(24, 1));
				asset.set_time_code_rate(24);
				asset.set_intrinsic_duration(24);
				asset.add_font("font", assets::png(n));
				asset.add(assets::text("text " + std::to_string(n), dcp::Time(0, 0, 0, 0, 24), dcp::Time(0, 0, 1, 0, 24), 0.8, string("font")));
				if (variant) {
					asset.set_key_id(uuid(n));
					asset.set_key(key_value(variant == 2 ? 7 : n));
				}
				asset.write(dir / file(n, variant));
			}
		}
	}

	/** @param encrypted mask of those which are encrypted.
	 *  @param common true if all have the same key.
	 */
	Kinds(int encrypted, boost::filesystem::path dir, bool common)
	{
		auto ready = [&](int n, shared_ptr<dcp::MXF> m) {
			if (encrypted & (1 << n)) {
				m->set_key_id(uuid(n));
			}
			mxf.push_back(m);
			if (n < 2 || n == 8) {
				std::dynamic_pointer_cast<dcp::Asset>(m)->set_file(dir / "file");
			}
		};
		if (encrypted & 1) {
			auto stereo = make_shared<dcp::StereoJ2KPictureAsset>(dcp::Fraction(24, 1), dcp::Standard::SMPTE);
			ready(0, stereo);
			reel.push_back(make_shared<dcp::ReelStereoPictureAsset>(stereo, 0));
			asset.push_back(stereo);
		} else {
			auto mono = make_shared<dcp::MonoJ2KPictureAsset>(dcp::Fraction(24, 1), dcp::Standard::SMPTE);
			ready(0, mono);
			reel.push_back(make_shared<dcp::ReelMonoPictureAsset>(mono, 0));
			asset.push_back(mono);
		}
		auto sound = make_shared<dcp::SoundAsset>(dcp::Fraction(24, 1), 48000, 6, dcp::LanguageTag("en-US"), dcp::Standard::SMPTE);
		ready(1, sound);
		reel.push_back(make_shared<dcp::ReelSoundAsset>(sound, 0));
		asset.push_back(sound);
		vector<dcp::TextType> const types = {
			dcp::TextType::OPEN_SUBTITLE, dcp::TextType::OPEN_CAPTION, dcp::TextType::CLOSED_SUBTITLE, dcp::TextType::CLOSED_SUBTITLE, dcp::TextType::CLOSED_CAPTION, dcp::TextType::CLOSED_CAPTION
		};
		for (size_t i = 0; i < types.size(); ++i) {
			auto text = make_shared<dcp::SMPTETextAsset>(dir / file(2 + i, encrypted & (4 << i) ? (common ? 2 : 1) : 0));
			ready(2 + i, text);
			reel.push_back(make_shared<dcp::ReelSMPTETextAsset>(types[i], text, dcp::Fraction(24, 1), 24, 0));
			asset.push_back(text);
		}
		auto atmos = make_shared<dcp::AtmosAsset>(dcp::Fraction(24, 1), 0, 10, 118, 1);
		ready(8, atmos);
		reel.push_back(make_shared<dcp::ReelAtmosAsset>(atmos, 0));
		asset.push_back(atmos);
	}

	static string type(int n) {
		return n == 0 ? "MDIK" : n == 1 ? "MDAK" : n == 8 ? "MDEK" : "MDSK";
	}
};

static void give()
{
	int const all = (1 << Kinds::N) - 1;
	auto const from = LocalTime("2025-07-06T13:04:05+00:00");
	auto const to = LocalTime("2025-07-16T23:59:59+00:00");
	boost::filesystem::path const dir = mc::scratch() + "/give";
	boost::filesystem::create_directories(dir);
	Kinds::make_files(dir);
	for (int mask = 0; mask <= all; ++mask) {
		if (!mc::mine(mask)) {
			continue;
		}
		/* how 0: all are encrypted and some keys are given
		 *     1: some are encrypted, and a KDM is made for the whole CPL
		 *     2: some are encrypted and all keys are given
		 *     3: as 0, with the KDM being given before the assets are found
		 *     4: as 0, through the DCP
		 *     5: as 4, but the KDM is for another CPL
		 *     6: as 1, with a key for each
		 *     7: as 0, with each key in its own KDM
		 */
		for (int how = 0; how < 8; ++how) {
			if (!mc::at("give", { mask, how })) {
				continue;
			}
			mc::transition();
			bool const some = how == 1 || how == 2 || how == 6;
			int const encrypted = some ? mask : all;
			int given = how == 1 || how == 6 ? encrypted : how == 2 ? all : mask;
			Kinds k(encrypted, dir, how == 1);
			auto cpl = make_shared<dcp::CPL>("title", dcp::ContentKind::FEATURE, dcp::Standard::SMPTE, dcp::Profile::SMPTE_A);
			auto one = make_shared<dcp::Reel>(), two = make_shared<dcp::Reel>();
			for (int i = 0; i < Kinds::N; ++i) {
				(mask & 8 && i == 1 ? two : one)->add(k.reel[i]);
				MC_CHECK(k.reel[i]->encryptable() && k.reel[i]->key_type() && *k.reel[i]->key_type() == Kinds::type(i), "asset %d has the wrong key type", i);
				MC_CHECK(k.reel[i]->encrypted() == bool(encrypted & (1 << i)), "asset %d's encryption is not known", i);
			}
			cpl->add(one);
			if (mask & 8) {
				cpl->add(two);
			}

			optional<dcp::DecryptedKDM> kdm;
			vector<dcp::DecryptedKDM> kdms;
			try {
				if (how == 1) {
					kdm = dcp::DecryptedKDM(cpl, key_value(7), from, to, "a", "t", "i");
				} else if (how == 6) {
					map<shared_ptr<const dcp::ReelFileAsset>, dcp::Key> keys;
					for (int i = 0; i < Kinds::N; ++i) {
						if (given & (1 << i)) {
							keys.insert({ k.reel[i], key_value(i) });
						}
					}
					kdm = dcp::DecryptedKDM(cpl->id(), keys, from, to, "a", "t", "i");
				} else {
					kdm = dcp::DecryptedKDM(from, to, "a", "t", "i");
					for (int i = 0; i < Kinds::N; ++i) {
						if (given & (1 << i)) {
							auto const id = how == 5 ? uuid(99) : cpl->id();
							kdm->add_key(Kinds::type(i), uuid(i), key_value(i), id, dcp::Standard::SMPTE);
							kdms.push_back(dcp::DecryptedKDM(from, to, "a", "t", "i"));
							kdms.back().add_key(Kinds::type(i), uuid(i), key_value(i), id, dcp::Standard::SMPTE);
						}
					}
				}
			} catch (dcp::NotEncryptedError&) {
				MC_CHECK(how == 1 && !encrypted, "a KDM was refused for a CPL which is encrypted");
				continue;
			}
			MC_CHECK(how != 1 || encrypted, "a KDM was made for a CPL which is not encrypted");
			if (how == 1 || how == 6) {
				map<string, string> want, got;
				for (int i = 0; i < Kinds::N; ++i) {
					if (encrypted & (1 << i)) {
						want[uuid(i)] = Kinds::type(i) + key_value(how == 1 ? 7 : i).hex();
					}
				}
				for (auto const& j: kdm->keys()) {
					MC_CHECK(j.cpl_id() == cpl->id() && j.type(), "a key is for the wrong CPL or has no type");
					MC_CHECK(!got.count(j.id()), "a key is in the KDM twice");
					got[j.id()] = *j.type() + j.key().hex();
				}
				MC_CHECK(got == want, "the KDM has %zu keys which are not the %zu wanted", got.size(), want.size());
			}

			if (how == 3) {
				/* A copy of the CPL, whose assets are not there yet */
				auto const file = dir / "cpl.xml";
				cpl->write_xml(file, {});
				dcp::CPL copy(file);
				copy.add(*kdm);
				for (int i = 0; i < Kinds::N; ++i) {
					MC_CHECK(!k.mxf[i]->key(), "asset %d has a key already", i);
				}
				copy.resolve_refs(k.asset);
			} else if (how == 4 || how == 5) {
				dcp::DCP d(dir);
				d.add(cpl);
				d.add(*kdm);
			} else if (how == 7) {
				for (auto const& j: kdms) {
					cpl->add(j);
				}
			} else {
				cpl->add(*kdm);
			}

			if (how == 5) {
				given = 0;
			}
			for (int i = 0; i < Kinds::N; ++i) {
				bool const should = encrypted & given & (1 << i);
				MC_CHECK(bool(k.mxf[i]->key()) == should, "asset %d %s its key", i, should ? "did not get" : "should not have got");
				if (should) {
					MC_CHECK(*k.mxf[i]->key() == key_value(how == 1 ? 7 : i), "asset %d got the wrong key", i);
					MC_CHECK(*k.mxf[i]->key_id() == uuid(i), "asset %d's key id changed", i);
				}
				if (auto text = std::dynamic_pointer_cast<dcp::SMPTETextAsset>(k.mxf[i])) {
					bool const readable = !(encrypted & (1 << i)) || should;
					MC_CHECK(text->texts().size() == (readable ? 1 : 0), "text asset %d has %zu texts", i, text->texts().size());
					if (readable) {
						auto s = std::dynamic_pointer_cast<const dcp::TextString>(text->texts()[0]);
						MC_CHECK(s && s->text() == "text " + std::to_string(i), "text asset %d has the wrong text", i);
						auto const fonts = text->font_data();
						MC_CHECK(fonts.size() == 1 && fonts.begin()->second == assets::png(i), "text asset %d has the wrong font", i);
					}
				}
			}
			mc::state(mc::format("%d %d", mask, how));
		}
	}
}

static void quiet(void*, char const*, ...) {}

int main(int argc, char* argv[])
{
	mc::init(argc, argv);
	dcp::init();
	xmlSecErrorsSetCallback(nullptr);
	xmlSetGenericErrorFunc(nullptr, quiet);
	contents();
	windows();
	damage();
	foreign();
	copies();
	give();
	mc::finish();
}
