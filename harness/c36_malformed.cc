/* C36: files which are not as they should be.  Every one of a set of changes is made at every place in each kind of document, and what
 * is left is read in every way that such a document is read; it must be accepted, or refused with an error which is about the document.
 */

#include "assets.h"
#include "certificate.h"
#include "certificate_chain.h"
#include "certs.h"
#include "decrypted_kdm.h"
#include "decrypted_kdm_key.h"
#include "encrypted_kdm.h"
#include "exceptions.h"
#include "pkl.h"
#include "util.h"
#include "verify.h"
#include "verify_j2k.h"
#include "mc.h"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <algorithm>
#include <functional>
#include <typeinfo>

using std::function;
using std::make_shared;
using std::map;
using std::shared_ptr;
using std::string;
using std::vector;
using boost::optional;
namespace fs = boost::filesystem;

/* Validation against schemas takes nearly all of the time of verify(), and is not the library's own work */

extern "C" {

void wrap_parse_file(void*, char const*) asm("__wrap__ZN11xercesc_3_217AbstractDOMParser5parseEPKc");
void wrap_parse_source(void*, void const*) asm("__wrap__ZN11xercesc_3_217AbstractDOMParser5parseERKNS_11InputSourceE");
void wrap_parse_file(void*, char const*) {}
void wrap_parse_source(void*, void const*) {}

}

static dcp::Standard const SMPTE = dcp::Standard::SMPTE;
static dcp::Standard const INTEROP = dcp::Standard::INTEROP;

/** Do something with malformed input, which may only fail in ways that say that something is wrong with the input
 *  @return true if it was accepted
 */
static bool attempt(char const* what, function<void ()> f)
{
	mc::transition();
	mc::trace();
	try {
		f();
		mc::outcome(string(what) + " accepted");
		return true;
	} catch (dcp::ProgrammingError& e) {
		mc::violation(mc::format("%s gave the error for a mistake in the program: %s", what, e.what()));
	} catch (std::bad_alloc& e) {
		mc::violation(mc::format("%s tried to take too much memory", what));
	} catch (std::logic_error& e) {
		mc::violation(mc::format("%s gave %s: %s", what, typeid(e).name(), e.what()));
	} catch (std::exception& e) {
		mc::outcome(string(what) + " " + typeid(e).name());
	} catch (...) {
		mc::violation(mc::format("%s gave something which is not an exception", what));
	}
	return false;
}

/*
 * The documents
 */

static string const pic_id = "11111111-1111-4111-8111-111111111111";

static void smpte_package(fs::path dir, bool encrypted = false)
{
	fs::create_directories(dir);
	auto const key = encrypted ? optional<dcp::Key>(dcp::Key("00112233445566778899aabbccddeeff")) : optional<dcp::Key>();
	auto cpl = make_shared<dcp::CPL>("title", dcp::ContentKind::TRAILER, SMPTE);
	auto reel = make_shared<dcp::Reel>();
	reel->add(make_shared<dcp::ReelMonoPictureAsset>(assets::mono(dir / "pic.mxf", SMPTE, 24, dcp::Size(64, 32), 0, key), 0));
	reel->add(make_shared<dcp::ReelSoundAsset>(assets::sound(dir / "snd.mxf", SMPTE, 24, 6, 0, key), 0));
	reel->add(make_shared<dcp::ReelSMPTETextAsset>(dcp::TextType::OPEN_SUBTITLE, assets::smpte_text(dir / "sub.mxf", 24), dcp::Fraction(24, 1), 24, 0));
	reel->add(make_shared<dcp::ReelSMPTETextAsset>(dcp::TextType::CLOSED_CAPTION, assets::smpte_text(dir / "ccap.mxf", 24), dcp::Fraction(24, 1), 24, 0));
	reel->add(make_shared<dcp::ReelAtmosAsset>(assets::atmos(dir / "atmos.mxf", 24), 0));
	auto markers = make_shared<dcp::ReelMarkersAsset>(dcp::Fraction(24, 1), 24);
	markers->set(dcp::Marker::FFOC, dcp::Time(0, 0, 0, 1, 24));
	markers->set(dcp::Marker::LFOC, dcp::Time(0, 0, 0, 23, 24));
	reel->add(markers);
	cpl->add(reel);
	cpl->set_annotation_text("notes");
	cpl->set_content_versions({ dcp::ContentVersion("a", "x"), dcp::ContentVersion("b", "y") });
	cpl->set_ratings({ dcp::Rating("http://www.mpaa.org/2003-ratings", "PG-13") });
	cpl->set_full_content_title_text("full");
	cpl->set_full_content_title_text_language(dcp::LanguageTag("de-DE"));
	cpl->set_release_territory(dcp::LanguageTag::RegionSubtag("DE"));
	cpl->set_version_number(3);
	cpl->set_status(dcp::Status::FINAL);
	cpl->set_chain("chain");
	cpl->set_distributor("distributor");
	cpl->set_facility("facility");
	cpl->set_luminance(dcp::Luminance(14, dcp::Luminance::Unit::FOOT_LAMBERT));
	cpl->set_main_sound_configuration(dcp::MainSoundConfiguration("51/L,R,C,LFE,Ls,Rs"));
	cpl->set_main_sound_sample_rate(48000);
	cpl->set_main_picture_stored_area(dcp::Size(1998, 1080));
	cpl->set_main_picture_active_area(dcp::Size(1998, 1080));
	cpl->set_additional_subtitle_languages({ dcp::LanguageTag("de-DE"), dcp::LanguageTag("fr") });
	cpl->set_sign_language_video_language(dcp::LanguageTag("bfi"));
	cpl->set_dolby_edr_image_transfer_function("PQ10K");
	dcp::DCP dcp(dir);
	dcp.add(cpl);
	dcp.set_annotation_text("annotation");
	dcp.write_xml(certs::chain(certs::three(0), 2));
}

static string const interop_xml =
	"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"
	"<DCSubtitle Version=\"1.0\"><SubtitleID>c0c0c0c0-1111-4222-8333-444444444444</SubtitleID><MovieTitle>title</MovieTitle><ReelNumber>1</ReelNumber><Language>English</Language>"
	"<LoadFont Id=\"font0\" URI=\"font.ttf\"/><LoadVariableZ ID=\"z\">-1:24 2.5:10</LoadVariableZ>"
	"<Font Id=\"font0\" Color=\"FFFF8040\" Effect=\"border\" EffectColor=\"FF000000\" Italic=\"yes\" Underlined=\"no\" Weight=\"bold\" Size=\"42\" AspectAdjust=\"1.1\">"
	"<Subtitle SpotNumber=\"1\" TimeIn=\"00:00:01:000\" TimeOut=\"00:00:02:125\" FadeUpTime=\"00:00:00:005\" FadeDownTime=\"20\">"
	"<Text VAlign=\"bottom\" VPosition=\"10\" HAlign=\"left\" HPosition=\"5\" Direction=\"ltr\" ZPosition=\"-2\" VariableZ=\"z\">Hello <Font Italic=\"no\">there</Font></Text>"
	"<Text VAlign=\"top\" VPosition=\"20\"><Ruby><Rb>base</Rb><Rt Size=\"0.5\" Position=\"before\" Offset=\"0.1\" Spacing=\"0.2\" AspectAdjust=\"1\">above</Rt></Ruby><Space Size=\"0.5em\"/>after</Text>"
	"</Subtitle>"
	"<Subtitle SpotNumber=\"2\" TimeIn=\"00:00:03.5\" TimeOut=\"00:00:04.25\"><Image VAlign=\"center\" VPosition=\"0\" HAlign=\"center\">d0d0d0d0-1111-4222-8333-444444444444.png</Image></Subtitle>"
	"</Font></DCSubtitle>\n";

static string const smpte_xml =
	"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"
	"<SubtitleReel xmlns=\"http://www.smpte-ra.org/schemas/428-7/2014/DCST\" xmlns:xs=\"http://www.w3.org/2001/XMLSchema\">"
	"<Id>urn:uuid:c0c0c0c0-1111-4222-8333-444444444444</Id><ContentTitleText>title</ContentTitleText><AnnotationText>notes</AnnotationText><IssueDate>2020-01-02T03:04:05.000+00:00</IssueDate>"
	"<ReelNumber>1</ReelNumber><Language>en-GB</Language><EditRate>24 1</EditRate><TimeCodeRate>24</TimeCodeRate><StartTime>00:00:00:00</StartTime><DisplayType>MainSubtitle</DisplayType>"
	"<LoadFont ID=\"font0\">urn:uuid:e0e0e0e0-1111-4222-8333-444444444444</LoadFont><LoadVariableZ ID=\"z\">-1:24 2.5:10</LoadVariableZ>"
	"<SubtitleList><Font ID=\"font0\" Color=\"FFFF8040\" Effect=\"shadow\" EffectColor=\"FF000000\" Italic=\"yes\" Underline=\"no\" Weight=\"bold\" Size=\"42\" AspectAdjust=\"1.1\" Spacing=\"0.1em\">"
	"<Subtitle SpotNumber=\"1\" TimeIn=\"00:00:01:00\" TimeOut=\"00:00:02:12\" FadeUpTime=\"00:00:00:05\" FadeDownTime=\"00:00:00:02\">"
	"<Text Valign=\"bottom\" Vposition=\"10\" Halign=\"left\" Hposition=\"5\" Direction=\"rtl\" Zposition=\"-2\" VariableZ=\"z\">Hello <Font Italic=\"no\">there</Font></Text>"
	"<Text Valign=\"top\" Vposition=\"20\"><Ruby><Rb>base</Rb><Rt Size=\"0.5\" Position=\"before\" Offset=\"0.1\" Spacing=\"0.2\" AspectAdjust=\"1\">above</Rt></Ruby><Space Size=\"0.5em\"/>after</Text>"
	"</Subtitle>"
	"<Subtitle SpotNumber=\"2\" TimeIn=\"00:00:03:00\" TimeOut=\"00:00:04:00\"><Image Valign=\"center\" Vposition=\"0\" Halign=\"center\">urn:uuid:d0d0d0d0-1111-4222-8333-444444444444</Image></Subtitle>"
	"</Font></SubtitleList></SubtitleReel>\n";

static void interop_package(fs::path dir)
{
	fs::create_directories(dir);
	auto cpl = make_shared<dcp::CPL>("title", dcp::ContentKind::FEATURE, INTEROP);
	auto reel = make_shared<dcp::Reel>();
	reel->add(make_shared<dcp::ReelMonoPictureAsset>(assets::mono(dir / "pic.mxf", INTEROP, 24), 0));
	reel->add(make_shared<dcp::ReelSoundAsset>(assets::sound(dir / "snd.mxf", INTEROP, 24), 0));
	auto text = make_shared<dcp::InteropTextAsset>();
	text->set_reel_number("1");
	text->set_language("English");
	text->set_movie_title("title");
	text->add_font("font0", assets::png(1));
	text->add(assets::text("Hello", dcp::Time(0, 0, 0, 10, 250), dcp::Time(0, 0, 0, 100, 250), 0.8, string("font0")));
	fs::create_directories(dir / "text");
	text->write(dir / "text" / "sub.xml");
	reel->add(make_shared<dcp::ReelInteropTextAsset>(dcp::TextType::OPEN_SUBTITLE, text, dcp::Fraction(24, 1), 24, 0));
	cpl->add(reel);
	dcp::DCP dcp(dir);
	dcp.add(cpl);
	dcp.write_xml();
}

static string kdm()
{
	auto const signer = certs::chain(certs::three(0), 2);
	auto const recipient = certs::three(3)[2];
	dcp::DecryptedKDM d(dcp::LocalTime("2025-01-01T00:00:00+00:00"), dcp::LocalTime("2025-02-01T00:00:00+00:00"), "notes", "title", "2024-01-01T00:00:00+00:00");
	d.add_key(string("MDIK"), "aaaaaaaa-1111-4222-8333-444444444444", dcp::Key("00112233445566778899aabbccddeeff"), pic_id, SMPTE);
	d.add_key(string("MDAK"), "bbbbbbbb-1111-4222-8333-444444444444", dcp::Key("00112233445566778899aabbccddeeff"), pic_id, SMPTE);
	return d.encrypt(signer, dcp::Certificate(recipient), { "abcdefgh" }, dcp::Formulation::MODIFIED_TRANSITIONAL_1, true, 12).as_xml();
}

/*
 * The ways of reading them
 */

static void silent(string, optional<fs::path>) {}
static void no_progress(float) {}

static void read_text(dcp::TextAsset& a)
{
	a.texts();
	a.latest_text_out();
	a.raw_xml();
	a.xml_as_string();
}

static fs::path put(string const& name, string const& content)
{
	auto const p = fs::path(mc::scratch()) / name;
	assets::put(p, content);
	return p;
}

static void read_cpl(string const& xml)
{
	auto const file = put("cpl.xml", xml);
	for (int with_notes = 0; with_notes < 2; ++with_notes) {
		vector<dcp::VerificationNote> notes;
		shared_ptr<dcp::CPL> cpl;
		if (attempt("reading a CPL", [&]() { cpl = make_shared<dcp::CPL>(file, with_notes ? &notes : nullptr); }) && with_notes) {
			attempt("looking at a CPL", [&]() {
				cpl->duration();
				cpl->any_encrypted();
				cpl->all_encrypted();
				cpl->can_be_read();
				cpl->content_version();
				cpl->reel_file_assets();
				if (mc::thorough()) {
					cpl->equals(cpl, dcp::EqualityOptions(), [](dcp::NoteType, string) {});
				}
			});
		}
	}
}

static void read_pkl(string const& xml)
{
	auto const file = put("pkl.xml", xml);
	for (int with_notes = 0; with_notes < 2; ++with_notes) {
		vector<dcp::VerificationNote> notes;
		attempt("reading a PKL", [&]() {
			dcp::PKL p(file, with_notes ? &notes : nullptr);
			p.hash(pic_id);
			p.type(pic_id);
		});
	}
}

static void read_asset_map(string const& xml)
{
	auto const file = put("ASSETMAP", xml);
	attempt("reading an asset map", [&]() {
		dcp::AssetMap m(file);
		m.asset_ids_and_paths();
		m.pkl_paths();
	});
}

static void read_interop(string const& xml)
{
	auto const file = put("interop.xml", xml);
	put("font.ttf", "font");
	put("d0d0d0d0-1111-4222-8333-444444444444.png", "image");
	shared_ptr<dcp::InteropTextAsset> a;
	if (attempt("reading Interop subtitles", [&]() { a = make_shared<dcp::InteropTextAsset>(file); })) {
		attempt("looking at Interop subtitles", [&]() {
			read_text(*a);
			a->load_font_nodes();
			a->resolve_fonts({});
			a->font_assets();
			a->equals(a, dcp::EqualityOptions(), [](dcp::NoteType, string) {});
		});
	}
}

static void read_smpte(string const& xml)
{
	auto const file = put("smpte.xml", xml);
	put("e0e0e0e0-1111-4222-8333-444444444444", "font");
	put("d0d0d0d0-1111-4222-8333-444444444444", "image");
	shared_ptr<dcp::SMPTETextAsset> a;
	if (attempt("reading SMPTE subtitles", [&]() { a = make_shared<dcp::SMPTETextAsset>(file); })) {
		attempt("looking at SMPTE subtitles", [&]() {
			read_text(*a);
			a->load_font_nodes();
			a->equals(a, dcp::EqualityOptions(), [](dcp::NoteType, string) {});
		});
	}
}

static void read_kdm(string const& xml)
{
	shared_ptr<dcp::EncryptedKDM> k;
	if (attempt("reading a KDM", [&]() { k = make_shared<dcp::EncryptedKDM>(xml); })) {
		attempt("looking at a KDM", [&]() {
			k->keys();
			k->id();
			k->annotation_text();
			k->content_title_text();
			k->issue_date();
			k->cpl_id();
			k->recipient_x509_subject_name();
			k->trusted_devices();
			k->as_xml();
		});
		attempt("reading the dates of a KDM", [&]() {
			k->not_valid_before();
			k->not_valid_after();
		});
		attempt("reading the signer of a KDM", [&]() {
			k->signer_certificate_chain().leaf_to_root();
		});
		attempt("decrypting a KDM", [&]() {
			dcp::DecryptedKDM d(*k, certs::pem[5]);
		});
	}
}

static void read_certificate(string const& text)
{
	attempt("reading a certificate", [&]() {
		dcp::Certificate c(text);
		c.issuer();
		c.serial();
		c.subject();
		c.subject_common_name();
		c.not_before();
		c.not_after();
		c.thumbprint();
		c.certificate(true);
		c.has_utf8_strings();
	});
	attempt("reading a chain", [&]() {
		dcp::CertificateChain c(text);
		c.chain_valid();
		c.private_key_valid();
		c.leaf_to_root();
	});
}

static void read_codestream(string const& bytes)
{
	auto data = make_shared<dcp::ArrayData>(reinterpret_cast<uint8_t const*>(bytes.data()), bytes.size());
	attempt("verifying a codestream", [&]() {
		vector<dcp::VerificationNote> notes;
		dcp::verify_j2k(data, 0, 0, 24, notes);
	});
	attempt("decompressing a codestream", [&]() {
		dcp::decompress_j2k(data, 0);
	});
}

/** Read a whole package in which one of the documents is not as it should be */
static void read_package(fs::path dir, fs::path file, string const& content)
{
	assets::put(file, content);
	for (int with_notes = 0; with_notes < 2; ++with_notes) {
		vector<dcp::VerificationNote> notes;
		dcp::DCP dcp(dir);
		if (attempt("reading a DCP", [&]() { dcp.read(with_notes ? &notes : nullptr); })) {
			attempt("looking at a DCP", [&]() {
				dcp.any_encrypted();
				dcp.all_encrypted();
				dcp.can_be_read();
				dcp.assets(true);
			});
		}
	}
	attempt("summarising a DCP", [&]() {
		dcp::DCP(dir).cpl_summaries();
	});
	mc::transition();
	mc::trace();
	try {
		dcp::VerificationOptions options;
		options.check_picture_details = false;
		dcp::verify({ dir }, {}, &silent, &no_progress, options, fs::path(getenv("LIBDCP_RESOURCES")) / "xsd");
	} catch (std::exception& e) {
		mc::violation(mc::format("verifying a DCP gave %s: %s", typeid(e).name(), e.what()));
	}
}

/*
 * The changes
 */

static vector<string> const junk = {
	"", " ", "x", "-", "0", "-1", "1", "2.5", "-7.25", "1 2 3", "24 0", "0 0", "-24 1", "1 ", "24/1", "99999999999999999999", "-99999999999999999999", "1e400", "nan", "0x10", "::", ":", "1:2", "1:2:3:4", "00:00:00:00", "00:00:0a:00",
	"99:99:99:999", "00:00:00.", "urn:uuid:", "urn:uuid:x", "urn:uuid:11111111-1111-4111-8111-111111111111", "11111111-1111-4111-8111-11111111111", "#", "%1", "%s%n", "FF", "FFFFFFFFFF", "GGGGGGGG", "/", "../..", "/dev/null",
	"2020-01-01T00:00:00+00:00", "2020-13-41T25:61:61+00:00", "0000-00-00T00:00:00+00:00", "2020-01-01T00:00:00+99:99", "2020-01-01T00:00:00-13:00", "2020-01-01T00:00:00.", "2020-01-01T00:00:00.1234567890123", "de-DE", "de-", "-", "de-XX-YY", "51/", "/L", "51/L,,", "51/L,Foo",
	"\xc3\xa9", "yes", "LONG", "-1:", ":24", "-1:24 :", " :", "1.5:99999999999", "a:b c:d", "1::2", "em", "0.5em0.5em", "//////8=", "AAAA"
};

static string junk_text(size_t n)
{
	return junk[n] == "LONG" ? string(5000, 'a') : junk[n];
}

/** All nodes of a document, in order */
static void nodes(xmlNode* n, vector<xmlNode*>& out)
{
	for (; n; n = n->next) {
		out.push_back(n);
		if (n->type == XML_ELEMENT_NODE) {
			nodes(n->children, out);
		}
	}
}

static string dump(xmlDoc* doc)
{
	xmlChar* buffer = nullptr;
	int size = 0;
	xmlDocDumpMemory(doc, &buffer, &size);
	string out(reinterpret_cast<char*>(buffer), size);
	xmlFree(buffer);
	return out;
}

static int64_t unit = 0;

typedef function<void (string const&)> Reader;

/** Make every change to the structure and values of a document */
static void structural(string const& name, string const& xml, Reader read, bool all_changes = true)
{
	auto parse = [&]() { return xmlReadMemory(xml.data(), xml.size(), "x", nullptr, XML_PARSE_NONET); };
	auto doc = parse();
	vector<xmlNode*> all;
	nodes(doc->children, all);
	auto const count = all.size();
	vector<int> attributes;
	vector<bool> blank;
	for (auto i: all) {
		int n = 0;
		if (i->type == XML_ELEMENT_NODE) {
			for (auto a = i->properties; a; a = a->next) {
				++n;
			}
		}
		attributes.push_back(n);
		blank.push_back(i->type == XML_TEXT_NODE && xmlIsBlankNode(i));
	}
	vector<xmlElementType> types;
	/** true for each node which is part of a signature */
	vector<bool> signature;
	for (auto i: all) {
		types.push_back(i->type);
		bool in = false;
		for (auto j = i->parent; j && j->type == XML_ELEMENT_NODE; j = j->parent) {
			in = in || !strcmp(reinterpret_cast<char const*>(j->name), "Signature") || !strcmp(reinterpret_cast<char const*>(j->name), "Signer");
		}
		signature.push_back(in);
	}
	xmlFreeDoc(doc);

	auto change = [&](string const& what, size_t n, function<void (xmlNode*)> f) {
		if (!mc::mine(unit++) || !mc::at(mc::format("%s/%zu/%s", name.c_str(), n, what.c_str()))) {
			return;
		}
		auto d = parse();
		vector<xmlNode*> v;
		nodes(d->children, v);
		f(v[n]);
		auto const text = dump(d);
		xmlFreeDoc(d);
		mc::state(text);
		read(text);
	};

	for (size_t n = 0; n < count; ++n) {
		if (!all_changes && signature[n]) {
			continue;
		}
		/* The library looks at little inside signatures */
		auto const number = (all_changes && (mc::thorough() || !signature[n])) ? junk.size() : 3;
		if (types[n] == XML_ELEMENT_NODE) {
			change("delete", n, [](xmlNode* i) { xmlUnlinkNode(i); xmlFreeNode(i); });
			change("twice", n, [](xmlNode* i) { xmlAddNextSibling(i, xmlCopyNode(i, 1)); });
			change("rename", n, [](xmlNode* i) { xmlNodeSetName(i, BAD_CAST "Foo"); });
			change("empty", n, [](xmlNode* i) { while (i->children) { auto c = i->children; xmlUnlinkNode(c); xmlFreeNode(c); } });
			change("inside", n, [](xmlNode* i) { auto c = xmlCopyNode(i, 1); xmlAddChild(i, c); });
			if (all_changes) {
				change("bare", n, [](xmlNode* i) { while (i->properties) { xmlRemoveProp(i->properties); } });
				change("namespace", n, [](xmlNode* i) { xmlSetNs(i, xmlNewNs(i, BAD_CAST "http://example.com/", BAD_CAST "foo")); });
				change("no-namespace", n, [](xmlNode* i) { i->ns = nullptr; i->nsDef = nullptr; });
				change("comment", n, [](xmlNode* i) { xmlAddChild(i, xmlNewComment(BAD_CAST "comment")); });
				change("last", n, [](xmlNode* i) {
					auto parent = i->parent;
					if (parent->type == XML_ELEMENT_NODE) {
						xmlUnlinkNode(i);
						xmlAddChild(parent, i);
					}
				});
				for (size_t j = 0; j < number; j += 9) {
					change(mc::format("content-%zu", j), n, [j](xmlNode* i) {
						while (i->children) { auto c = i->children; xmlUnlinkNode(c); xmlFreeNode(c); }
						xmlAddChild(i, xmlNewText(BAD_CAST junk_text(j).c_str()));
					});
				}
			}
			for (int a = 0; a < attributes[n]; ++a) {
				auto find = [a](xmlNode* i) {
					auto p = i->properties;
					for (int k = 0; k < a; ++k) {
						p = p->next;
					}
					return p;
				};
				change(mc::format("attribute-%d-delete", a), n, [find](xmlNode* i) { xmlRemoveProp(find(i)); });
				change(mc::format("attribute-%d-rename", a), n, [find](xmlNode* i) { xmlNodeSetName(reinterpret_cast<xmlNode*>(find(i)), BAD_CAST "Foo"); });
				for (size_t j = 0; j < number; ++j) {
					change(mc::format("attribute-%d-%zu", a, j), n, [find, j](xmlNode* i) { xmlSetProp(i, find(i)->name, BAD_CAST junk_text(j).c_str()); });
				}
			}
		} else if (types[n] == XML_TEXT_NODE && !blank[n]) {
			for (size_t j = 0; j < number; ++j) {
				change(mc::format("text-%zu", j), n, [j](xmlNode* i) { xmlNodeSetContent(i, BAD_CAST junk_text(j).c_str()); });
			}
		}
	}
}

/** Make every change of a byte of a document */
static void bytes(string const& name, string const& original, Reader read, string const& with, int step = 1)
{
	auto go = [&](string const& what, size_t n, string const& text) {
		if (mc::mine(unit++) && mc::at(mc::format("%s/byte/%zu/%s", name.c_str(), n, what.c_str()))) {
			mc::state(text);
			read(text);
		}
	};
	for (size_t n = 0; n < original.size(); n += step) {
		go("cut", n, original.substr(0, n));
		go("drop", n, original.substr(0, n) + original.substr(n + 1));
		for (size_t i = 0; i < with.size(); ++i) {
			auto changed = original;
			changed[n] = with[i];
			go(mc::format("set-%zu", i), n, changed);
		}
	}
}

static void ignore_error(void*, char const*, ...) {}

int main(int argc, char* argv[])
{
	mc::init(argc, argv);
	dcp::init(fs::path(getenv("LIBDCP_RESOURCES")));
	xmlSetGenericErrorFunc(nullptr, &ignore_error);

	auto const scratch = fs::path(mc::scratch());
	auto const smpte = scratch / "smpte";
	auto const interop = scratch / "interop";
	fs::remove_all(smpte);
	fs::remove_all(interop);
	smpte_package(smpte);
	interop_package(interop);

	auto find = [](fs::path dir, string start) {
		for (auto i: fs::directory_iterator(dir)) {
			if (i.path().filename().string().substr(0, start.length()) == start) {
				return i.path();
			}
		}
		exit(77);
	};

	for (auto dir: { smpte, interop }) {
		string const name = dir.filename().string();
		auto const cpl_file = find(dir, "cpl_");
		auto const pkl_file = find(dir, "pkl_");
		auto const asset_map_file = find(dir, "ASSETMAP");
		auto const cpl = assets::slurp(cpl_file);
		auto const pkl = assets::slurp(pkl_file);
		auto const asset_map = assets::slurp(asset_map_file);

		structural("cpl-" + name, cpl, &read_cpl);
		structural("pkl-" + name, pkl, &read_pkl);
		structural("asset-map-" + name, asset_map, &read_asset_map);

		auto package = [&](fs::path file, string const& original, string const& what) {
			structural("package-" + name + "-" + what, original, [&](string const& text) {
				read_package(dir, file, text);
				assets::put(file, original);
			}, mc::thorough());
		};
		package(cpl_file, cpl, "cpl");
		package(pkl_file, pkl, "pkl");
		package(asset_map_file, asset_map, "asset-map");
		package(find(dir, "VOLINDEX"), assets::slurp(find(dir, "VOLINDEX")), "volindex");
		if (dir == interop) {
			package(dir / "text" / "sub.xml", assets::slurp(dir / "text" / "sub.xml"), "text");
			package(dir / "text" / "sub.xml", interop_xml, "long-text");
		}
		vector<fs::path> files;
		for (auto i: fs::directory_iterator(dir)) {
			if (fs::is_regular_file(i.path())) {
				files.push_back(i.path());
			}
		}
		std::sort(files.begin(), files.end());
		for (auto const& i: files) {
			/* Each file empty, or cut short */
			auto const original = assets::slurp(i);
			for (int part = 0; part < 4; ++part) {
				size_t const lengths[] = { 0, 1, original.size() / 2, original.size() - 1 };
				if (mc::mine(unit++) && mc::at(mc::format("cut-%s/%s/%d", name.c_str(), i.filename().string().substr(0, 4).c_str(), part))) {
					read_package(dir, i, original.substr(0, lengths[part]));
					assets::put(i, original);
				}
			}
		}
		string const odd("<\"&\0\xff", 5);
		int const step = mc::thorough() ? 1 : 19;
		bytes("cpl-" + name, cpl, &read_cpl, odd, step);
		bytes("pkl-" + name, pkl, &read_pkl, odd, step);
		bytes("asset-map-" + name, asset_map, &read_asset_map, odd, step);
	}

	structural("interop-text", interop_xml, &read_interop);
	structural("smpte-text", smpte_xml, &read_smpte);
	string const odd("<\"&\0\xff:9", 7);
	bytes("interop-text", interop_xml, &read_interop, odd);
	bytes("smpte-text", smpte_xml, &read_smpte, odd);

	auto const k = kdm();
	structural("kdm", k, &read_kdm);
	bytes("kdm", k, &read_kdm, string("<\0\xff", 3), mc::thorough() ? 1 : 17);

	auto const chain = certs::three(0);
	bytes("certificate", chain[2], &read_certificate, string("A/-\n\0\xff", 6), mc::thorough() ? 1 : 2);
	bytes("chain", chain[0] + chain[1] + chain[2], &read_certificate, string("-\n", 2), mc::thorough() ? 1 : 7);

	auto const j2k = assets::j2k(dcp::Size(64, 32), 0);
	bytes("codestream", string(reinterpret_cast<char const*>(j2k.data()), j2k.size()), &read_codestream, string("\0\x01\x7f\xff\x4f\x52", 6));

	mc::finish();
}
