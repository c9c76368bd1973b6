/* C26: certificates and chains of them */

#include "assets.h"
#include "certs.h"
#include "exceptions.h"
#include "pkl.h"
#include "util.h"
#include "mc.h"
#include "xmlref.h"
#include <openssl/err.h>
#include <openssl/rsa.h>
#include <xmlsec/xmldsig.h>
#include <xmlsec/xmltree.h>
#include <xmlsec/crypto.h>
#include <xmlsec/errors.h>
#include <sys/stat.h>

using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;
using boost::optional;
namespace fs = boost::filesystem;
using dcp::Certificate;
using dcp::CertificateChain;

static X509* parse(string const& pem)
{
	auto bio = BIO_new_mem_buf(pem.data(), pem.size());
	auto x = PEM_read_bio_X509(bio, nullptr, nullptr, nullptr);
	BIO_free(bio);
	ERR_clear_error();
	return x;
}

static string join(vector<int> const& s)
{
	string out;
	for (auto i: s) {
		out += ":" + std::to_string(i);
	}
	return out;
}

/** Certificates for making chains from.  Those of the second chain have the same names as those of the first. */
struct Pool
{
	vector<string> pem;
	vector<int> key;
	vector<X509*> x;

	void add(certs::Spec s) {
		pem.push_back(certs::make(s));
		key.push_back(s.key);
		x.push_back(parse(pem.back()));
	}

	Pool()
	{
		certs::Name root("root", 0), inter("inter", 1), leaf("leaf", 2), alone("alone", 6);
		add({ 0, root, 0, root, 5 });
		add({ 1, inter, 0, root, 6 });
		add({ 2, leaf, 1, inter, 7, "20200101000000Z", "20400101000000Z", false });
		/* The same names with other keys */
		add({ 3, root, 3, root, 5 });
		add({ 4, inter, 3, root, 6 });
		add({ 5, leaf, 4, inter, 7, "20200101000000Z", "20400101000000Z", false });
		/* By itself, and with a time which is over */
		add({ 6, alone, 6, alone, 1, "20000101000000Z", "20010101000000Z" });
		/* The first intermediate, signed by the second root */
		add({ 1, inter, 3, root, 8 });
		/* Below the first leaf, which may not sign */
		add({ 7, certs::Name("below", 7), 2, leaf, 9, "20200101000000Z", "20400101000000Z", false });
		/* Another intermediate between the first one and a leaf, in a time which is to come */
		add({ 7, certs::Name("second", 7), 1, inter, 9, "20600101000000Z", "20610101000000Z" });
	}

	/** @return true if one certificate is signed by another */
	bool signs(int a, int b) const {
		return X509_NAME_cmp(X509_get_issuer_name(x[b]), X509_get_subject_name(x[a])) == 0 && X509_verify(x[b], X509_get0_pubkey(x[a])) == 1;
	}

	bool in_order(vector<int> const& c) const {
		if (c.size() > 1 && !signs(c[0], c[0])) {
			return false;
		}
		for (size_t i = 1; i < c.size(); ++i) {
			/* Leaves, which are 2, 5 and 8, may not sign */
			if (!signs(c[i - 1], c[i]) || c[i - 1] == c[i] || c[i - 1] == 2 || c[i - 1] == 5 || c[i - 1] == 8) {
				return false;
			}
		}
		return true;
	}

	/** @return the order of some certificates from root to leaf, if there is one */
	optional<vector<int>> order(vector<int> c) const {
		std::sort(c.begin(), c.end());
		do {
			if (in_order(c)) {
				return c;
			}
		} while (std::next_permutation(c.begin(), c.end()));
		return {};
	}
};

static string all(Pool const& p, vector<int> const& c)
{
	string out;
	for (auto i: c) {
		out += p.pem[i];
	}
	return out;
}

static vector<string> pems(CertificateChain::List const& l)
{
	vector<string> out;
	for (auto const& i: l) {
		out.push_back(i.certificate(true));
	}
	return out;
}

static vector<string> pems(Pool const& p, vector<int> const& c)
{
	vector<string> out;
	for (auto i: c) {
		out.push_back(p.pem[i]);
	}
	return out;
}

static void check_chain(Pool const& p, CertificateChain& c, vector<int> const& s, bool keys)
{
	mc::transition();
	/* Whether one certificate which isn't self-signed is a chain is not for us to say */
	bool const unsure = s.size() == 1 && !p.signs(s[0], s[0]);
	auto const order = p.order(s);
	optional<vector<string>> got;
	try {
		got = pems(c.root_to_leaf());
	} catch (dcp::CertificateChainError&) {

	}
	MC_CHECK(pems(c.unordered()) == pems(p, s), "the certificates are not those that were added");
	if (!unsure) {
		MC_CHECK(bool(got) == bool(order), "certificates which %s a chain were %s", order ? "are" : "are not", got ? "taken for one" : "refused");
		MC_CHECK(c.chain_valid() == p.in_order(s), "a list %s order is %s", p.in_order(s) ? "in" : "out of", c.chain_valid() ? "valid" : "not valid");
	}
	if (!got) {
		MC_CHECK(!c.valid(), "certificates which are not a chain are valid");
		string reason;
		MC_CHECK(!c.valid(&reason) && !reason.empty(), "no reason is given");
		return;
	}
	if (!order) {
		return;
	}
	MC_CHECK(*got == pems(p, *order), "the chain is in the wrong order");
	auto reversed = *got;
	std::reverse(reversed.begin(), reversed.end());
	MC_CHECK(pems(c.leaf_to_root()) == reversed, "leaf to root is wrong");
	MC_CHECK(c.chain() == all(p, *order), "the text of the chain is wrong");
	if (s.empty()) {
		return;
	}
	MC_CHECK(c.root().certificate(true) == got->front() && c.leaf().certificate(true) == got->back(), "the root or leaf is wrong");
	if (!keys) {
		return;
	}
	/* Private keys */
	for (int k = -1; k < 10; ++k) {
		auto d = c;
		if (k >= 0) {
			d.set_key(k < 8 ? certs::pem[k] : k == 8 ? "not a key" : p.pem[0]);
		}
		bool const right = k == p.key[order->back()];
		MC_CHECK(d.private_key_valid() == right, "the %s private key is %s", right ? "right" : "wrong", right ? "refused" : "taken");
		string reason = "untouched";
		MC_CHECK(d.valid(&reason) == right && d.valid() == right, "the chain with the %s private key is %s", right ? "right" : "wrong", right ? "refused" : "taken");
		MC_CHECK((reason == "untouched") == right, "the reason is %s", reason.c_str());
	}
}

static void chains()
{
	Pool const p;
	int unit = 0;
	int const n = p.pem.size();
	mc::sequences_to(n, 4, [&](vector<int> const& s) {
		if (s.size() == 4) {
			/* Only those which are chains, unless there's time */
			auto t = s;
			std::sort(t.begin(), t.end());
			bool const repeats = std::unique(t.begin(), t.end()) != t.end();
			if (repeats || (!mc::thorough() && !p.order(s))) {
				return;
			}
		}
		if (!mc::mine(unit++)) {
			return;
		}
		if (!mc::at("chain" + join(s))) {
			return;
		}
		CertificateChain c;
		for (auto i: s) {
			c.add(Certificate(p.pem[i]));
		}
		bool const good = bool(p.order(s));
		check_chain(p, c, s, good);
		mc::state(join(s));

		/* From text */
		if (!s.empty() && (s.size() > 1 || good)) {
			bool read = true;
			try {
				CertificateChain t(all(p, s));
				check_chain(p, t, s, false);
			} catch (dcp::CertificateChainError&) {
				read = false;
			}
			MC_CHECK(read == good, "the text of certificates which %s a chain was %s", good ? "are" : "are not", read ? "read" : "refused");
		}

		/* Taking things away */
		if (s.size() <= 3 || good) {
			for (int i = 0; i < n; ++i) {
				auto d = c;
				d.remove(Certificate(p.pem[i]));
				auto t = s;
				auto j = std::find(t.begin(), t.end(), i);
				if (j != t.end()) {
					t.erase(j);
				}
				MC_CHECK(pems(d.unordered()) == pems(p, t), "removing a certificate left the wrong ones");
			}
			if (good) {
				auto const order = *p.order(s);
				for (int i = 0; i <= int(s.size()); ++i) {
					auto d = c;
					d.remove(i);
					auto t = s;
					if (i < int(order.size())) {
						t.erase(std::find(t.begin(), t.end(), order[i]));
					}
					MC_CHECK(pems(d.unordered()) == pems(p, t), "removing certificate %d of a chain left the wrong ones", i);
				}
			}
		}
	});
}

/** @param field time as OpenSSL has it
 *  @return form in which we compare it
 */
static string time_text(ASN1_TIME const* t)
{
	struct tm tm;
	ASN1_TIME_to_tm(t, &tm);
	char buffer[64];
	strftime(buffer, sizeof(buffer), "%Y-%m-%dT%H:%M:%S+00:00", &tm);
	return buffer;
}

static void check_certificate(string const& pem, certs::Spec const& s, Certificate const& c)
{
	mc::transition();
	auto x = parse(pem);
	auto name = [](X509_NAME* n) {
		auto b = BIO_new(BIO_s_mem());
		X509_NAME_print_ex(b, n, 0, XN_FLAG_RFC2253);
		char* data;
		auto const length = BIO_get_mem_data(b, &data);
		string const out(data, length);
		BIO_free(b);
		return out;
	};
	MC_CHECK(c.certificate(true) == pem, "the certificate is not the one that was given");
	auto const from = pem.find('\n') + 1;
	MC_CHECK(c.certificate() == pem.substr(from, pem.find("\n-----END") - from), "the body of the certificate is wrong");
	MC_CHECK(c.issuer() == name(X509_get_issuer_name(x)) && c.subject() == name(X509_get_subject_name(x)), "the issuer or subject is wrong: %s, %s", c.issuer().c_str(), c.subject().c_str());
	MC_CHECK(c.issuer_common_name() == s.issuer.cn && c.issuer_organization_name() == s.issuer.o && c.issuer_organizational_unit_name() == s.issuer.ou, "part of the issuer is wrong");
	MC_CHECK(c.subject_common_name() == s.subject.cn && c.subject_organization_name() == s.subject.o && c.subject_organizational_unit_name() == s.subject.ou && c.subject_dn_qualifier() == s.subject.qualifier, "part of the subject is wrong");
	MC_CHECK(c.serial() == std::to_string(s.serial), "the serial number is %s", c.serial().c_str());
	MC_CHECK(c.not_before().as_string() == time_text(X509_get0_notBefore(x)), "it is valid from %s", c.not_before().as_string().c_str());
	MC_CHECK(c.not_after().as_string() == time_text(X509_get0_notAfter(x)), "it is valid until %s", c.not_after().as_string().c_str());
	unsigned char* tbs = nullptr;
	auto const length = i2d_re_X509_tbs(x, &tbs);
	MC_CHECK(c.thumbprint() == assets::digest(string(reinterpret_cast<char*>(tbs), length)), "the thumbprint is %s", c.thumbprint().c_str());
	OPENSSL_free(tbs);
	auto rsa = c.public_key();
	BIGNUM const *n, *e;
	RSA_get0_key(rsa, &n, &e, nullptr);
	auto theirs = EVP_PKEY_get1_RSA(certs::key(s.key));
	BIGNUM const *tn, *te;
	RSA_get0_key(theirs, &tn, &te, nullptr);
	MC_CHECK(!BN_cmp(n, tn) && !BN_cmp(e, te), "the public key is wrong");
	RSA_free(theirs);
	MC_CHECK(c.has_utf8_strings() == (s.type == MBSTRING_UTF8), "UTF-8 strings are %s", c.has_utf8_strings() ? "found" : "not found");
	X509_free(x);
}

static void certificate()
{
	int unit = 0;
	auto const base = certs::Spec(0, certs::Name("CS.subject", 0), 1, certs::Name("issuer", 1), 5);
	vector<certs::Spec> specs;
	for (auto cn: { "x", "with space", "a,b+c=d", "\"quoted\"", "a\\b", "#x", "<&>", "LE.SPB.x", "/slash/" }) {
		auto s = base;
		s.subject.cn = cn;
		specs.push_back(s);
		s = base;
		s.issuer.cn = cn;
		specs.push_back(s);
		s = base;
		s.subject.o = cn;
		s.issuer.ou = cn;
		specs.push_back(s);
		s = base;
		s.subject.ou = cn;
		s.issuer.o = cn;
		specs.push_back(s);
	}
	/* Things left out */
	for (int mask = 0; mask < 64; ++mask) {
		auto s = base;
		if (mask & 1) s.subject.o = "";
		if (mask & 2) s.subject.ou = "";
		if (mask & 4) s.subject.cn = "";
		if (mask & 8) s.subject.qualifier = "";
		if (mask & 16) s.issuer.cn = "";
		if (mask & 32) s.issuer.o = s.issuer.ou = "";
		specs.push_back(s);
	}
	for (auto serial: { 0L, 1L, 255L, 256L, 65535L, 2147483647L, 2147483648L, 4294967296L, 9223372036854775807L }) {
		auto s = base;
		s.serial = serial;
		specs.push_back(s);
	}
	for (auto time: { "19700101000000Z", "19991231235959Z", "20000101000000Z", "20000229120102Z", "20491231235959Z", "20500101000000Z", "20991231235959Z", "20381231010203Z" }) {
		auto s = base;
		s.from = time;
		specs.push_back(s);
		s = base;
		s.to = time;
		specs.push_back(s);
	}
	for (int key = 0; key < 11; ++key) {
		auto s = base;
		s.key = key;
		specs.push_back(s);
	}
	for (int padding: { 1, 100, 6000, 7000, 7500, 8000, 8192, 9000, 20000 }) {
		auto s = base;
		s.padding = padding;
		specs.push_back(s);
	}
	{
		auto s = base;
		s.type = MBSTRING_UTF8;
		s.subject.cn = "\xc3\xa9\xe6\x97\xa5";
		s.subject.o = "\xc3\xa9\xe6\x97\xa5";
		s.subject.ou = "\xc3\xa9\xe6\x97\xa5";
		specs.push_back(s);
	}

	for (size_t i = 0; i < specs.size(); ++i) {
		if (!mc::mine(unit++)) {
			continue;
		}
		if (!mc::at("certificate", { int(i) })) {
			continue;
		}
		auto const pem = certs::make(specs[i]);
		if (!parse(pem)) {
			exit(77);
		}
		Certificate c(pem);
		check_certificate(pem, specs[i], c);
		/* As often as one likes */
		check_certificate(pem, specs[i], c);
		Certificate copy(c);
		check_certificate(pem, specs[i], copy);
		auto const other = certs::make(certs::Spec(1, certs::Name("other", 1), 1, certs::Name("other", 1), 1));
		Certificate o(other);
		o.public_key();
		o = c;
		check_certificate(pem, specs[i], o);
		auto& same = o;
		o = same;
		check_certificate(pem, specs[i], o);
		MC_CHECK(o == c && !(o < c) && !(c < o), "a copy is not equal");
		Certificate different(other);
		MC_CHECK(!(different == c) && ((different < c) != (c < different)), "a different certificate is equal, or they have no order");
		mc::state("certificate" + std::to_string(i));
	}

	/* Ways to write it */
	auto const pem = certs::make(base);
	string body;
	for (auto ch: pem.substr(28, pem.find("-----END") - 28)) {
		if (ch != '\n') {
			body += ch;
		}
	}
	for (int line = 1; line <= 130; ++line) {
		for (int ending = 0; ending < 4; ++ending) {
			for (int before = 0; before < 3; ++before) {
				for (int after = 0; after < 4; ++after) {
					if (line % 16 > 1 && (before || after) && !mc::thorough()) {
						continue;
					}
					if (!mc::mine(unit++)) {
						continue;
					}
					if (!mc::at("layout", { line, ending, before, after })) {
						continue;
					}
					mc::transition();
					string const nl = ending == 0 ? "\n" : ending == 1 ? "\r\n" : ending == 2 ? "  \n\t" : "\r";
					string text = before == 0 ? "" : before == 1 ? nl + nl : "Some words" + nl;
					text += "-----BEGIN CERTIFICATE-----" + nl;
					for (size_t j = 0; j < body.size(); j += line) {
						text += body.substr(j, line) + nl;
					}
					text += "-----END CERTIFICATE-----";
					text += after == 0 ? "" : after == 1 ? nl : after == 2 ? nl + nl : nl + "x";
					optional<Certificate> c;
					try {
						c = Certificate(text);
					} catch (dcp::MiscError&) {

					}
					MC_CHECK(bool(c) == (after < 3), "a certificate with %s after it was %s", after < 3 ? "nothing" : "more", c ? "read" : "refused");
					if (c) {
						MC_CHECK(c->certificate(true) == pem, "a certificate is different when laid out in another way");
					}
				}
			}
		}
	}

	/* Damage */
	auto const end = pem.find("-----END") + strlen("-----END CERTIFICATE-----");
	for (size_t n = 0; n < end; ++n) {
		if (!mc::mine(unit++)) {
			continue;
		}
		for (int how = 0; how < 4; ++how) {
			if (!mc::at("damage", { int(n), how })) {
				continue;
			}
			mc::transition();
			auto text = pem;
			if (how == 0) {
				text = pem.substr(0, n);
			} else if (how == 1) {
				text[n] = text[n] == 'B' ? 'C' : 'B';
			} else if (how == 2) {
				text.erase(n, 1);
			} else {
				text[n] = '!';
			}
			auto const insignificant = pem[n] == '\n' && n > 27 && n < end - 26;
			try {
				Certificate c(text);
				/* Some changes leave a certificate, but then it's a different one */
				MC_CHECK(how != 0, "the first %zu characters of a certificate were read", n);
				MC_CHECK(c.certificate(true) != pem || insignificant || pem[n] == '=' || pem[n + 1] == '=', "a change at %zu was not noticed", n);
				c.issuer(); c.subject(); c.serial(); c.thumbprint(); c.subject_common_name(); c.has_utf8_strings();
			} catch (std::exception&) {

			}
		}
	}
}

static void digests()
{
	for (int k = 0; k < 11; ++k) {
		if (k == 9 || !mc::mine(k)) {
			/* The digest is only meant for keys of 2048 bits and above */
			continue;
		}
		if (!mc::at("digest", { k })) {
			continue;
		}
		string want;
		for (auto c: certs::qualifier(certs::key(k))) {
			want += (c == '/' || c == '+') ? string("\\") + c : string(1, c);
		}
		fs::path const file = mc::scratch() + "/key";
		assets::put(file, certs::pem[k]);
		MC_CHECK(dcp::public_key_digest(file) == want, "the digest of a key is %s rather than %s", dcp::public_key_digest(file).c_str(), want.c_str());
		auto rsa = EVP_PKEY_get1_RSA(certs::key(k));
		MC_CHECK(dcp::public_key_digest(rsa) == want, "the digest of a public key is wrong");
		RSA_free(rsa);
		for (auto bad: { string(), string("x"), string(certs::pem[k]).substr(0, 500) }) {
			assets::put(file, bad);
			bool refused = false;
			try {
				dcp::public_key_digest(file);
			} catch (std::exception&) {
				refused = true;
			}
			MC_CHECK(refused, "something which is not a key has a digest");
		}
	}
	mc::sequences_to(5, 5, [](vector<int> const& s) {
		if (!mc::at("escape" + join(s))) {
			return;
		}
		string in, out;
		for (auto i: s) {
			char const c = "a/+=\\"[i];
			in += c;
			out += (c == '/' || c == '+') ? string("\\") + c : string(1, c);
		}
		MC_CHECK(dcp::escape_digest(in) == out, "%s escaped is %s", in.c_str(), dcp::escape_digest(in).c_str());
	});
}

/** Making a chain with the openssl program.  A stand-in for it gives out our own keys and then goes on to the real one; it fails when told to. */
static void making()
{
	fs::path const dir = fs::canonical(mc::scratch()) / "making";
	fs::path const temporary = dir / "tmp";
	fs::create_directories(temporary);
	setenv("TMPDIR", temporary.string().c_str(), 1);
	for (int i = 0; i < 8; ++i) {
		assets::put(dir / ("key" + std::to_string(i)), certs::pem[i]);
	}
	auto const program = dir / "open ssl";
	assets::put(program,
		"#!/bin/sh\n"
		"D='" + dir.string() + "'\n"
		"read n < \"$D/count\"\n"
		"n=$((n + 1))\n"
		"echo $n > \"$D/count\"\n"
		"read fail < \"$D/fail\"\n"
		"if [ \"$n\" = \"$fail\" ]; then exit 1; fi\n"
		"if [ \"$1\" = genrsa ]; then\n"
		"  read k < \"$D/next\"\n"
		"  cat \"$D/key$k\" > \"$3\"\n"
		"  echo $(((k + 1) % 8)) > \"$D/next\"\n"
		"else\n"
		"  exec openssl \"$@\"\n"
		"fi\n");
	chmod(program.string().c_str(), 0755);

	auto const cwd = fs::current_path();
	auto left = [&]() {
		return std::distance(fs::directory_iterator(temporary), fs::directory_iterator());
	};

	int unit = 0;
	vector<string> const names = { "example.org", "With Space", "a-b_c.d", "UPPER.lower.123" };
	for (int first = 0; first < 8; ++first) {
		for (int days: { 3, 366, 3650, 36500 }) {
			for (int rotate = 0; rotate < 4; ++rotate) {
				if ((first + days + rotate) % 4 && !mc::thorough()) {
					continue;
				}
				if (!mc::mine(unit++) || !mc::at("make", { first, days, rotate })) {
					continue;
				}
				mc::transition();
				assets::put(dir / "count", "0\n");
				assets::put(dir / "fail", "none\n");
				assets::put(dir / "next", std::to_string(first) + "\n");
				auto name = [&](int n) { return names[(n + rotate) % names.size()]; };
				CertificateChain c(program, days, name(0), name(1), "root." + name(2), "inter." + name(3), "leaf." + name(0));
				MC_CHECK(fs::current_path() == cwd, "the working directory changed");
				MC_CHECK(left() == 0, "%d things were left", int(left()));
				MC_CHECK(c.valid(), "the chain is not valid");
				auto const l = c.root_to_leaf();
				MC_CHECK(l.size() == 3, "there are %zu certificates", l.size());
				MC_CHECK(c.key() && *c.key() == certs::pem[(first + 2) % 8], "the key is not that of the leaf");
				vector<string> const cn = { "root." + name(2), "inter." + name(3), "leaf." + name(0) };
				for (int i = 0; i < 3; ++i) {
					MC_CHECK(l[i].subject_organization_name() == name(0) && l[i].subject_organizational_unit_name() == name(1) && l[i].subject_common_name() == cn[i], "certificate %d has the wrong name %s", i, l[i].subject().c_str());
					MC_CHECK(l[i].subject_dn_qualifier() == certs::qualifier(certs::key((first + i) % 8)), "certificate %d has the qualifier %s", i, l[i].subject_dn_qualifier().c_str());
					auto x = parse(l[i].certificate(true));
					MC_CHECK(X509_check_ca(x) == (i < 2 ? 1 : 0), "certificate %d %s sign", i, i < 2 ? "may not" : "may");
					int d, s;
					ASN1_TIME_diff(&d, &s, X509_get0_notBefore(x), X509_get0_notAfter(x));
					MC_CHECK(d == days - i && s == 0, "certificate %d lasts for %d days", i, d);
					MC_CHECK(!l[i].has_utf8_strings(), "certificate %d has UTF-8 strings", i);
					auto const sig = X509_get_signature_nid(x);
					MC_CHECK(sig == NID_sha256WithRSAEncryption, "certificate %d is signed in the wrong way", i);
					X509_free(x);
				}
				mc::state(mc::format("make %d %d", days, rotate));
			}
		}
	}

	/* Each of the commands failing */
	for (int fail = 1; ; ++fail) {
		assets::put(dir / "count", "0\n");
		assets::put(dir / "fail", std::to_string(fail) + "\n");
		assets::put(dir / "next", "0\n");
		if (fail > 20) {
			break;
		}
		if (!mc::mine(unit++) || !mc::at("fail", { fail })) {
			continue;
		}
		mc::transition();
		bool failed = false;
		try {
			CertificateChain c(program, 100);
			MC_CHECK(c.valid(), "the chain is not valid");
		} catch (std::exception&) {
			failed = true;
		}
		int const used = atoi(assets::slurp(dir / "count").c_str());
		MC_CHECK(failed == (used >= fail), "a failure of command %d was %s", fail, failed ? "made up" : "ignored");
		MC_CHECK(fs::current_path() == cwd, "the working directory is %s after a failure", fs::current_path().string().c_str());
		MC_CHECK(left() == 0, "%d things were left after a failure", int(left()));
		fs::current_path(cwd);
		mc::state(mc::format("fail %d", failed));
	}
	if (mc::mine(unit++) && mc::at("nothing", {})) {
		bool failed = false;
		try {
			CertificateChain c(dir / "no such program", 100);
		} catch (std::exception&) {
			failed = true;
		}
		MC_CHECK(failed && fs::current_path() == cwd && left() == 0, "making a chain without openssl went wrong");
	}
	unsetenv("TMPDIR");
}

/** @return true if a document has a good enveloped signature by the holder of a certificate, of the right kind */
static bool signature_good(string const& xml, string const& certificate, dcp::Standard standard)
{
	auto doc = xmlReadMemory(xml.data(), xml.size(), "x.xml", nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
	if (!doc) {
		return false;
	}
	auto node = xmlSecFindNode(xmlDocGetRootElement(doc), xmlSecNodeSignature, xmlSecDSigNs);
	bool good = false;
	if (node) {
		auto context = xmlSecDSigCtxCreate(nullptr);
		context->signKey = xmlSecCryptoAppKeyLoadMemory(reinterpret_cast<xmlSecByte const*>(certificate.data()), certificate.size(), xmlSecKeyDataFormatCertPem, nullptr, nullptr, nullptr);
		good = context->signKey && xmlSecDSigCtxVerify(context, node) >= 0 && context->status == xmlSecDSigStatusSucceeded;
		good = good && xmlSecPtrListGetSize(&context->signedInfoReferences) == 1;
		if (good) {
			auto r = static_cast<xmlSecDSigReferenceCtx*>(xmlSecPtrListGetItem(&context->signedInfoReferences, 0));
			good = !r->uri || !strlen(reinterpret_cast<char const*>(r->uri));
		}
		xmlSecDSigCtxDestroy(context);
	}
	auto const method = string("xmldsig") + (standard == dcp::Standard::INTEROP ? "#rsa-sha1\"" : "-more#rsa-sha256\"");
	good = good && xml.find(method) != string::npos;
	xmlFreeDoc(doc);
	return good;
}

/** Signing playlists and packing lists */
static void signing()
{
	Pool const p;
	int unit = 0;
	vector<vector<int>> const orders = { { 0, 1, 2 }, { 2, 1, 0 }, { 1, 2, 0 }, { 6 }, { 3, 4 }, { 0, 1 }, { 1, 0 }, { 3, 7, 2 }, { 0, 1, 9 } };
	for (auto standard: { dcp::Standard::INTEROP, dcp::Standard::SMPTE }) {
		for (size_t o = 0; o < orders.size(); ++o) {
			for (int what = 0; what < 4; ++what) {
				if (!mc::mine(unit++) || !mc::at("sign", { int(standard), int(o), what })) {
					continue;
				}
				mc::transition();
				auto const order = *p.order(orders[o]);
				auto chain = make_shared<CertificateChain>();
				for (auto i: orders[o]) {
					chain->add(Certificate(p.pem[i]));
				}
				chain->set_key(certs::pem[p.key[order.back()]]);
				fs::path const file = mc::scratch() + "/signed.xml";
				string const title = what % 2 ? "it's <odd> & \"\xc3\xa9\"" : "title";
				if (what < 2) {
					dcp::CPL cpl(title, dcp::ContentKind::FEATURE, standard, dcp::Profile::SMPTE_A);
					cpl.add(make_shared<dcp::Reel>());
					cpl.write_xml(file, chain);
				} else {
					dcp::PKL pkl(standard, title, "2020-01-01T00:00:00+00:00", "issuer", "creator");
					pkl.add_asset("11111111-2222-4333-8444-555555555555", title, "hash", 12, "type", "name.mxf");
					pkl.write_xml(file, chain);
				}
				auto const xml = assets::slurp(file);
				MC_CHECK(signature_good(xml, p.pem[order.back()], standard), "the signature is not a good one of the leaf");
				auto const root = xmlref::parse(xml);
				auto const leaf = Certificate(p.pem[order.back()]);
				auto const signer = root.one("Signer").one("X509Data");
				MC_CHECK(signer.one("X509IssuerSerial").child("X509IssuerName") == leaf.issuer() && signer.one("X509IssuerSerial").child("X509SerialNumber") == leaf.serial() && signer.child("X509SubjectName") == leaf.subject(), "the signer is wrong");
				auto const data = root.one("Signature").one("KeyInfo").all("X509Data");
				MC_CHECK(data.size() == order.size(), "there are %zu certificates in the signature", data.size());
				for (size_t i = 0; i < data.size(); ++i) {
					Certificate const c(p.pem[order[order.size() - 1 - i]]);
					MC_CHECK(data[i].child("X509Certificate") == c.certificate() && data[i].one("X509IssuerSerial").child("X509IssuerName") == c.issuer() && data[i].one("X509IssuerSerial").child("X509SerialNumber") == c.serial(), "certificate %zu in the signature is wrong", i);
				}
				/* Nothing in it can be changed; the title and the ids are enough to show that all of it is signed */
				for (size_t n = 0; n < xml.find("Signer>"); n += 13) {
					if (isalnum(xml[n])) {
						auto changed = xml;
						changed[n] = changed[n] == 'x' ? 'y' : 'x';
						MC_CHECK(!signature_good(changed, p.pem[order.back()], standard) || xml.find("<?xml") != 0 || n < 40, "a change at %zu was not noticed", n);
					}
				}
				MC_CHECK(!signature_good(xml, p.pem[order.back() == 6 ? 0 : 6], standard), "the signature is good for somebody else");
				mc::state(mc::format("sign %d %zu %d", int(standard), o, what));
			}
		}
	}
}

static void quiet(void*, char const*, ...) {}

int main(int argc, char* argv[])
{
	mc::init(argc, argv);
	dcp::init();
	xmlSecErrorsSetCallback(nullptr);
	xmlSetGenericErrorFunc(nullptr, quiet);
	chains();
	certificate();
	digests();
	making();
	signing();
	mc::finish();
}
