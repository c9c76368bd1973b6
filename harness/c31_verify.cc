/* C31: verification of whole DCPs.  A package is described by a model, from which the harness writes all of its XML and makes its
 * assets; the same model is given to a reference for the rules, and what verify() says must be what the reference says.  Starting from
 * packages with nothing wrong, every single change and every two changes of a set are made.
 */

#include "assets.h"
#include "crypto_context.h"
#include "decrypted_kdm.h"
#include "exceptions.h"
#include "util.h"
#include "verify.h"
#include "mc.h"
#include "xmlref.h"
#include <asdcp/AS_DCP.h>
#include <asdcp/KM_util.h>
#include <xercesc/framework/MemBufInputSource.hpp>
#include <xercesc/util/BinInputStream.hpp>
#include <xercesc/util/PlatformUtils.hpp>
#include <functional>
#include <set>
#include <unistd.h>

using std::function;
using std::make_shared;
using std::map;
using std::set;
using std::shared_ptr;
using std::string;
using std::vector;
using boost::optional;
using xmlref::nest;
using xmlref::tag;
namespace fs = boost::filesystem;

/* Reading the schemas takes nearly all the time, so XML of a shape which was found to be valid (whatever the values in it) is not
 * validated again, except when it is the values which matter.
 */

static set<string> known_valid;
/** those validated by the current call to verify() */
static set<string> validated;
static bool always_validate = false;

static string shape(string const& xml)
{
	if (always_validate) {
		return xml;
	}
	string out;
	out.reserve(xml.size());
	/* Whether we are in a tag, and if so inside quotes; and whether the current word has been noted */
	bool in_tag = false, quoted = false, noted = false;
	for (size_t i = 0; i < xml.size(); ++i) {
		auto const c = xml[i];
		if (!in_tag && c == '<') {
			in_tag = true;
			out += c;
		} else if (in_tag && !quoted && c == '>') {
			in_tag = noted = false;
			out += c;
		} else if (in_tag && c == '"') {
			quoted = !quoted;
			out += c;
			/* Namespaces are not values */
			noted = out.size() < 2 || !quoted;
			if (quoted && (out.size() > 7 && out.find("xmlns", out.rfind(' ')) != string::npos)) {
				auto const end = xml.find('"', i + 1);
				out += xml.substr(i + 1, end - i - 1);
				i = end - 1;
			}
		} else if (in_tag && !quoted) {
			out += c;
		} else if (!noted) {
			out += '.';
			noted = true;
		}
	}
	return out;
}

extern "C" {

void real_parse_file(void*, char const*) asm("__real__ZN11xercesc_3_217AbstractDOMParser5parseEPKc");
void real_parse_source(void*, void const*) asm("__real__ZN11xercesc_3_217AbstractDOMParser5parseERKNS_11InputSourceE");
void wrap_parse_file(void*, char const*) asm("__wrap__ZN11xercesc_3_217AbstractDOMParser5parseEPKc");
void wrap_parse_source(void*, void const*) asm("__wrap__ZN11xercesc_3_217AbstractDOMParser5parseERKNS_11InputSourceE");

void wrap_parse_file(void* parser, char const* file)
{
	auto const text = shape(assets::slurp(file));
	if (!known_valid.count(text)) {
		real_parse_file(parser, file);
		validated.insert(text);
	}
}

void wrap_parse_source(void* parser, void const* source)
{
	auto const stream = static_cast<xercesc::InputSource const*>(source)->makeStream();
	string raw;
	XMLByte buffer[4096];
	while (auto const n = stream->readBytes(buffer, sizeof(buffer))) {
		raw.append(reinterpret_cast<char*>(buffer), n);
	}
	delete stream;
	auto const text = shape(raw);
	if (!known_valid.count(text)) {
		real_parse_source(parser, source);
		validated.insert(text);
	}
}

}

/*
 * The model
 */

/** The ids of everything: a kind, a composition, a reel and a number */
static string id(char kind, int cpl = 0, int reel = 0, int n = 0)
{
	return mc::format("%02x%02d%02d%02d-1111-4222-8333-444444444444", kind, cpl, reel, n);
}

static string other_id(string const& id)
{
	return id.substr(0, id.size() - 1) + "5";
}

struct Line
{
	string text;
	/** percent */
	int position;
	string align;
};

struct Sub
{
	/** in frames */
	int in;
	int out;
	vector<Line> lines;
};

/** What is common to the references to all assets, and the files they refer to */
struct Ref
{
	int64_t intrinsic = 24;
	/** number of frames which the file says it has, if it is not the intrinsic duration */
	optional<int64_t> real;
	optional<int64_t> entry = int64_t(0);
	optional<int64_t> duration;
	bool hash = true;
	/** hash in the CPL is not that of the file */
	bool wrong_cpl = false;
	/** and in the PKL */
	bool wrong_pkl = false;
	/** the same wrong hash in both */
	bool wrong_both = false;
	/** not mentioned in the package's lists */
	bool external = false;
	/** mentioned, but not there */
	bool missing = false;
	/** the asset map gives another id */
	bool wrong_map_id = false;
	bool encrypted = false;
};

struct Picture : public Ref
{
	dcp::Size size = dcp::Size(1998, 1080);
	bool stereo = false;
	dcp::Fraction frame_rate = dcp::Fraction(24, 1);
	/** size in bytes of the frame which is different from the others */
	int bytes = 0;
	/** and which it is */
	int which = 0;
	/** something wrong with all frames */
	string fault;
};

struct Sound : public Ref
{
	int channels = 6;
	int rate = 48000;
};

struct Text : public Ref
{
	optional<string> language = string("de-DE");
	optional<string> reference_language;
	optional<int> start = 0;
	vector<Sub> subs;
	bool load_font = true;
	string font = "font";
	string issue_date = "2018-10-02T12:25:14";
	bool another_namespace = false;
	bool wrong_resource_id = false;
	bool same_asset_id = false;
	int padding = 0;
	int font_size = 100;
	/** the font's file is not mentioned in the package's lists */
	bool external_font = false;
};

struct Reel
{
	optional<Picture> picture;
	optional<Sound> sound;
	optional<Text> subtitle;
	vector<Text> captions;
	bool has_markers = true;
	map<string, int> markers;
	bool marker_entry = false;
	bool marker_duration = false;
};

struct CPL
{
	string title = "A Test DCP";
	optional<string> annotation = string("A Test DCP");
	string kind = "trailer";
	optional<string> kind_scope;
	optional<string> version = string("label");
	optional<string> territory;
	optional<string> territory_scope;
	bool metadata = true;
	optional<int> version_number = 1;
	string extension = "2.1";
	string sound_configuration = "51/L,R,C,LFE,Ls,Rs";
	dcp::Size active = dcp::Size(1998, 1080);
	vector<string> languages;
	vector<Reel> reels;
	bool wrong_hash = false;
	bool is_signed = false;
	bool disorder = false;
};

struct Package
{
	bool interop = false;
	int rate = 24;
	vector<CPL> cpls;
	/** index of the PKL for each CPL (and its assets) */
	vector<int> pkl_of;
	optional<string> pkl_annotation = string("A Test DCP");
	bool duplicate_in_pkl = false;
	bool duplicate_in_map = false;
	bool pkl_signed = false;
	bool empty_path = false;
	string pkl_element;
	string map_element;
	/** keys are given */
	bool keys = false;
	bool check_hashes = true;
	bool check_details = true;
	/** maximum size of file to check, less the size of the first picture asset */
	optional<int> maximum_size;
};

/** Do something to each asset */
static void each(Package& p, function<void (Ref&, char kind, int cpl, int reel, int n)> f)
{
	for (int c = 0; c < int(p.cpls.size()); ++c) {
		for (int r = 0; r < int(p.cpls[c].reels.size()); ++r) {
			auto& reel = p.cpls[c].reels[r];
			if (reel.picture) {
				f(*reel.picture, 'p', c, r, 0);
			}
			if (reel.sound) {
				f(*reel.sound, 's', c, r, 0);
			}
			if (reel.subtitle) {
				f(*reel.subtitle, 't', c, r, 0);
			}
			for (int i = 0; i < int(reel.captions.size()); ++i) {
				f(reel.captions[i], 'c', c, r, i);
			}
		}
	}
}

/*
 * Making a package
 */

static fs::path pool;
static string const key_id = "99999999-1111-4222-8333-444444444444";
static dcp::Key const the_key(string("00112233445566778899aabbccddeeff"));

template <class T>
class Identified : public T
{
public:
	template <class... A>
	Identified(string id, A... a)
		: T(a...)
	{
		this->_id = id;
	}
};

static string time(int frames, int rate)
{
	return mc::format("%02d:%02d:%02d:%02d", frames / (rate * 3600), (frames / (rate * 60)) % 60, (frames / rate) % 60, frames % rate);
}

static string font_id(string const& asset_id)
{
	return (asset_id[0] == '7' ? "f0" : "f1") + asset_id.substr(2);
}

/** A codestream with a difference */
static dcp::ArrayData codestream(dcp::Size size, string fault, int bytes)
{
	/* Nothing looks at more than the headers, so what is in the picture does not matter */
	static map<bool, dcp::ArrayData> made;
	bool const four = size.width > 2048;
	if (!made.count(four)) {
		auto image = make_shared<dcp::OpenJPEGImage>(dcp::Size(64, 64));
		for (int c = 0; c < 3; ++c) {
			for (int i = 0; i < 64 * 64; ++i) {
				image->data(c)[i] = 0;
			}
		}
		made[four] = dcp::compress_j2k(image, 100000000, 24, false, four);
	}
	auto data = made[four];
	for (int i: { 8, 24 }) {
		for (int j = 0; j < 4; ++j) {
			data.data()[i + j] = size.width >> (24 - 8 * j);
			data.data()[i + 4 + j] = size.height >> (24 - 8 * j);
		}
	}
	string s(reinterpret_cast<char const*>(data.data()), data.size());
	auto marker = [&s](unsigned char code) {
		return s.find(string("\xff") + char(code));
	};
	if (fault == "rsiz") {
		s[7] = 0;
	} else if (fault == "tlm") {
		auto const at = marker(0x55);
		s.erase(at, 2 + static_cast<unsigned char>(s[at + 2]) * 256 + static_cast<unsigned char>(s[at + 3]));
	} else if (fault == "guard") {
		s[marker(0x5c) + 4] ^= 0x60;
	} else if (fault == "junk") {
		/* A marker which should not be there */
		s[marker(0x55) + 1] = 0x56;
	}
	if (bytes > int(s.size())) {
		/* Before the end of the last tile part */
		s.insert(s.size() - 2, string(bytes - s.size(), '\x01'));
	}
	return dcp::ArrayData(reinterpret_cast<uint8_t const*>(s.data()), s.size());
}

static string text_xml(Text const& t, string xml_id, string font_id, bool interop, int rate)
{
	string x;
	if (interop) {
		x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<DCSubtitle Version=\"1.0\"" + string(t.another_namespace ? " xmlns:dcp=\"http://www.example.com/a\" xmlns:dcpx=\"http://www.example.com/b\"" : "") + ">";
		x += tag("SubtitleID", xml_id) + tag("MovieTitle", "title") + tag("ReelNumber", "1") + tag("Language", t.language ? *t.language : "German");
		if (t.load_font) {
			x += "<LoadFont Id=\"font\" URI=\"font_" + font_id + ".ttf\"/>";
		}
		x += "<Font Id=\"" + t.font + "\" Size=\"42\">";
	} else {
		x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<SubtitleReel xmlns=\"http://www.smpte-ra.org/schemas/428-7/2014/DCST\"" + string(t.another_namespace ? " xmlns:xs=\"http://www.w3.org/2001/XMLSchema\"" : "") + ">";
		x += tag("Id", "urn:uuid:" + xml_id) + tag("ContentTitleText", "title") + tag("IssueDate", t.issue_date);
		if (t.language) {
			x += tag("Language", *t.language);
		}
		x += tag("EditRate", mc::format("%d 1", rate)) + tag("TimeCodeRate", mc::format("%d", rate));
		if (t.start) {
			x += tag("StartTime", time(*t.start, rate));
		}
		if (t.load_font) {
			x += "<LoadFont ID=\"font\">urn:uuid:" + font_id + "</LoadFont>";
		}
		x += "<SubtitleList><Font ID=\"" + t.font + "\" Size=\"42\">";
	}
	int n = 0;
	for (auto const& s: t.subs) {
		auto at = [&](int frames) {
			auto const text = time(frames, rate);
			return interop ? text.substr(0, 9) + mc::format("%03d", (frames % rate) * 250 / rate) : text;
		};
		x += mc::format("<Subtitle SpotNumber=\"%d\" TimeIn=\"%s\" TimeOut=\"%s\">", ++n, at(s.in).c_str(), at(s.out).c_str());
		for (auto const& l: s.lines) {
			if (interop) {
				x += mc::format("<Text VAlign=\"%s\" VPosition=\"%d\">", l.align.c_str(), l.position) + l.text + "</Text>";
			} else {
				x += mc::format("<Text Valign=\"%s\" Vposition=\"%d\">", l.align.c_str(), l.position) + l.text + "</Text>";
			}
		}
		x += "</Subtitle>";
	}
	x += interop ? "</Font></DCSubtitle>\n" : "</Font></SubtitleList></SubtitleReel>\n";
	if (t.padding) {
		x += "<!--" + string(t.padding, '.') + "-->";
	}
	return x;
}

static string uuid(byte_t* out, string const& id)
{
	unsigned int length = 0;
	Kumu::hex2bin(id.c_str(), out, ASDCP::UUIDlen, &length);
	return id;
}

/** Make (or find) a file in the pool.
 *  @param make called with where to write it
 *  @return its name in the pool
 */
static string pooled(string const& description, function<void (fs::path)> make)
{
	static map<string, string> files;
	auto const i = files.find(description);
	if (i != files.end()) {
		return i->second;
	}
	auto const name = mc::format("%d", int(files.size()));
	make(pool / name);
	files[description] = name;
	return name;
}

static void place(string const& pooled_name, fs::path to)
{
	if (link((pool / pooled_name).c_str(), to.c_str()) != 0) {
		fs::copy_file(pool / pooled_name, to);
	}
}

static string const& pooled_hash(string const& name)
{
	static map<string, string> hashes;
	auto i = hashes.find(name);
	if (i == hashes.end()) {
		i = hashes.insert(std::make_pair(name, assets::digest(assets::slurp(pool / name)))).first;
	}
	return i->second;
}

static string picture_file(Picture const& p, string const& asset_id, int rate, bool interop)
{
	auto const frames = p.real.get_value_or(p.intrinsic);
	return pooled(
		mc::format("p %s %d %d %d %d %d %d %d %s %d %d", asset_id.c_str(), p.size.width, p.size.height, p.stereo, rate, int(frames), p.bytes, p.which, p.fault.c_str(), p.encrypted, interop),
		[&](fs::path file) {
			auto const standard = interop ? dcp::Standard::INTEROP : dcp::Standard::SMPTE;
			shared_ptr<dcp::J2KPictureAsset> asset;
			if (p.stereo) {
				asset = make_shared<Identified<dcp::StereoJ2KPictureAsset>>(asset_id, dcp::Fraction(rate, 1), standard);
			} else {
				asset = make_shared<Identified<dcp::MonoJ2KPictureAsset>>(asset_id, dcp::Fraction(rate, 1), standard);
			}
			if (p.encrypted) {
				asset->set_key_id(key_id);
				asset->set_key(the_key);
			}
			auto writer = asset->start_write(file, dcp::Behaviour::MAKE_NEW);
			auto const good = codestream(p.size, p.fault, 0);
			auto const other = codestream(p.size, p.fault, p.bytes);
			for (int i = 0; i < frames * (p.stereo ? 2 : 1); ++i) {
				auto const& d = i == p.which ? other : good;
				writer->write(d.data(), d.size());
			}
			writer->finalize();
		});
}

static string sound_file(Sound const& s, string const& asset_id, int rate, bool interop)
{
	auto const frames = s.real.get_value_or(s.intrinsic);
	return pooled(
		mc::format("s %s %d %d %d %d %d %d", asset_id.c_str(), s.channels, s.rate, rate, int(frames), s.encrypted, interop),
		[&](fs::path file) {
			auto asset = make_shared<Identified<dcp::SoundAsset>>(
				asset_id, dcp::Fraction(rate, 1), s.rate, s.channels, dcp::LanguageTag("en-US"), interop ? dcp::Standard::INTEROP : dcp::Standard::SMPTE
				);
			if (s.encrypted) {
				asset->set_key_id(key_id);
				asset->set_key(the_key);
			}
			auto writer = asset->start_write(file, {}, dcp::SoundAsset::AtmosSync::DISABLED, dcp::SoundAsset::MCASubDescriptors::ENABLED);
			std::vector<float> samples(s.rate / rate, 0);
			std::vector<float*> data(s.channels, samples.data());
			for (int i = 0; i < frames; ++i) {
				writer->write(data.data(), s.channels, samples.size());
			}
			writer->finalize();
		});
}

static string text_xml_id(Text const& t, string const& asset_id)
{
	return t.same_asset_id ? asset_id : "7e" + asset_id.substr(2);
}

static string text_file(Text const& t, string const& asset_id, int rate, bool interop)
{
	auto const xml = text_xml(t, interop ? asset_id : text_xml_id(t, asset_id), font_id(asset_id), interop, rate);
	if (interop) {
		return pooled("t " + xml, [&](fs::path file) { assets::put(file, xml); });
	}
	return pooled(
		"t " + xml + mc::format(" %d %d %d %d ", int(t.real.get_value_or(t.intrinsic)), t.wrong_resource_id, t.font_size, t.encrypted) + asset_id,
		[&](fs::path file) {
			dcp::EncryptionContext enc(t.encrypted ? optional<dcp::Key>(the_key) : optional<dcp::Key>(), dcp::Standard::SMPTE);
			ASDCP::WriterInfo info;
			info.LabelSetType = ASDCP::LS_MXF_SMPTE;
			uuid(info.AssetUUID, asset_id);
			if (t.encrypted) {
				Kumu::GenRandomUUID(info.ContextID);
				info.EncryptedEssence = true;
				info.UsesHMAC = true;
				uuid(info.CryptographicKeyID, key_id);
			}
			ASDCP::TimedText::TimedTextDescriptor d;
			d.EditRate = ASDCP::Rational(rate, 1);
			d.ContainerDuration = t.real.get_value_or(t.intrinsic);
			d.NamespaceName = "http://www.smpte-ra.org/schemas/428-7/2014/DCST";
			uuid(d.AssetID, t.wrong_resource_id ? "aa" + asset_id.substr(2) : text_xml_id(t, asset_id));
			if (t.load_font) {
				ASDCP::TimedText::TimedTextResourceDescriptor r;
				uuid(r.ResourceID, font_id(asset_id));
				r.Type = ASDCP::TimedText::MT_OPENTYPE;
				d.ResourceList.push_back(r);
			}
			ASDCP::TimedText::MXFWriter writer;
			writer.OpenWrite(file.string(), info, d, 16384);
			writer.WriteTimedTextResource(xml, enc.context(), enc.hmac());
			if (t.load_font) {
				ASDCP::TimedText::FrameBuffer buffer(t.font_size);
				memset(buffer.Data(), 0, t.font_size);
				buffer.Size(t.font_size);
				byte_t font[ASDCP::UUIDlen];
				uuid(font, font_id(asset_id));
				buffer.AssetID(font);
				writer.WriteAncillaryResource(buffer, enc.context(), enc.hmac());
			}
			writer.Finalize();
		});
}

/** Where things are and what they were given as */
struct Made
{
	map<string, string> hashes;
	map<string, string> files;
	map<string, uintmax_t> sizes;
	string cpl_hash[4];
	string cpl_pkl_hash[4];
};

static string const other_hash = "AAAAAAAAAAAAAAAAAAAAAAAAAAA=";
static string const another_hash = "BBBBBBBBBBBBBBBBBBBBBBBBBBA=";

static string signature(bool interop)
{
	return
		"<Signer><dsig:X509Data xmlns:dsig=\"http://www.w3.org/2000/09/xmldsig#\"><dsig:X509IssuerSerial><dsig:X509IssuerName>CN=a</dsig:X509IssuerName>"
		"<dsig:X509SerialNumber>1</dsig:X509SerialNumber></dsig:X509IssuerSerial></dsig:X509Data></Signer>"
		"<dsig:Signature xmlns:dsig=\"http://www.w3.org/2000/09/xmldsig#\"><dsig:SignedInfo>"
		"<dsig:CanonicalizationMethod Algorithm=\"http://www.w3.org/TR/2001/REC-xml-c14n-20010315\"/>"
		"<dsig:SignatureMethod Algorithm=\"http://www.w3.org/2001/04/xmldsig-more#rsa-sha256\"/>"
		"<dsig:Reference URI=\"\"><dsig:Transforms><dsig:Transform Algorithm=\"http://www.w3.org/2000/09/xmldsig#enveloped-signature\"/></dsig:Transforms>"
		"<dsig:DigestMethod Algorithm=\"http://www.w3.org/2000/09/xmldsig#sha1\"/><dsig:DigestValue>AAAA</dsig:DigestValue></dsig:Reference></dsig:SignedInfo>"
		"<dsig:SignatureValue>AAAA</dsig:SignatureValue></dsig:Signature>";
}

static string cpl_name(int c)
{
	return mc::format("cpl%d.xml", c);
}

static Made make(Package const& package, fs::path dir)
{
	auto p = package;
	Made made;
	struct Entry
	{
		Entry(string id_, string hash_, string type_, string file_, string map_id_)
			: id(id_), hash(hash_), type(type_), file(file_), map_id(map_id_)
		{}

		string id, hash, type, file, map_id;
		bool in_map = true;
		int pkl = 0;
	};
	vector<Entry> entries;

	each(p, [&](Ref& ref, char kind, int c, int r, int n) {
		auto const asset = id(kind, 0, r, n);
		string name;
		string ending = "mxf";
		string type = p.interop ? "application/x-smpte-mxf;asdcpKind=Picture" : "application/mxf";
		auto& reel = p.cpls[c].reels[r];
		switch (kind) {
		case 'p':
			name = picture_file(*reel.picture, asset, p.rate, p.interop);
			break;
		case 's':
			name = sound_file(*reel.sound, asset, p.rate, p.interop);
			if (p.interop) {
				type = "application/x-smpte-mxf;asdcpKind=Sound";
			}
			break;
		default:
			name = text_file(kind == 't' ? *reel.subtitle : reel.captions[n], asset, p.rate, p.interop);
			if (p.interop) {
				type = "text/xml;asdcpKind=Subtitle";
				ending = "xml";
			}
			break;
		}
		made.hashes[asset] = pooled_hash(name);
		auto const file = mc::format("%c%d%d.%s", kind, r, n, ending.c_str());
		made.files[asset] = file;
		made.sizes[asset] = fs::file_size(pool / name);
		if (c && p.cpls[0].reels.size() > size_t(r)) {
			/* It was in the first CPL too */
			return;
		}
		if (!ref.external) {
			if (!ref.missing) {
				place(name, dir / file);
			}
			entries.push_back(Entry{asset, ref.wrong_pkl || ref.wrong_both ? other_hash : made.hashes[asset], type, file, ref.wrong_map_id ? other_id(asset) : asset});
			entries.back().pkl = p.pkl_of.empty() ? 0 : p.pkl_of[c];
			if (ref.wrong_map_id) {
				entries.back().id = entries.back().map_id;
			}
			if (p.interop && (kind == 't' || kind == 'c') && (kind == 't' ? *reel.subtitle : reel.captions[n]).load_font && !(kind == 't' ? *reel.subtitle : reel.captions[n]).external_font) {
				auto const font = font_id(asset);
				assets::put(dir / ("font_" + font + ".ttf"), "font");
				entries.push_back(Entry{font, assets::digest("font"), "application/ttf", "font_" + font + ".ttf", font});
			}
		}
	});

	auto const rate = mc::format("%d 1", p.rate);
	for (int c = 0; c < int(p.cpls.size()); ++c) {
		auto const& cpl = p.cpls[c];
		string x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<CompositionPlaylist xmlns=\"" +
			string(p.interop ? "http://www.digicine.com/PROTO-ASDCP-CPL-20040511#" : "http://www.smpte-ra.org/schemas/429-7/2006/CPL") + "\">";
		x += tag("Id", "urn:uuid:" + id('C', c));
		if (cpl.annotation) {
			x += tag("AnnotationText", *cpl.annotation);
		}
		x += tag("IssueDate", "2012-07-17T04:45:18+00:00") + (cpl.disorder ? tag("Creator", "c") + tag("Issuer", "i") : tag("Issuer", "i") + tag("Creator", "c")) + tag("ContentTitleText", cpl.title);
		x += tag("ContentKind" + (cpl.kind_scope ? " scope=\"" + *cpl.kind_scope + "\"" : string()), cpl.kind);
		if (cpl.version) {
			x += nest("ContentVersion", tag("Id", "urn:uri:1") + tag("LabelText", *cpl.version));
		}
		x += "<RatingList/><ReelList>";
		for (int r = 0; r < int(cpl.reels.size()); ++r) {
			auto const& reel = cpl.reels[r];
			x += "<Reel>" + tag("Id", "urn:uuid:" + id('R', c, r)) + "<AssetList>";
			if (reel.has_markers && !p.interop) {
				string list;
				for (auto const& m: reel.markers) {
					list += nest("Marker", tag("Label", m.first) + tag("Offset", mc::format("%d", m.second)));
				}
				x += nest("MainMarkers",
					tag("Id", "urn:uuid:" + id('M', c, r)) + tag("EditRate", rate) + tag("IntrinsicDuration", mc::format("%d", int(reel.picture ? reel.picture->intrinsic : 24))) +
					(reel.marker_entry ? tag("EntryPoint", "0") : "") + (reel.marker_duration ? tag("Duration", "24") : "") +
					nest("MarkerList", list)
					);
			}
			auto common = [&](Ref const& ref, string const& asset, string const& between = "") {
				string y = tag("Id", "urn:uuid:" + asset) + tag("EditRate", rate) + tag("IntrinsicDuration", mc::format("%lld", (long long) ref.intrinsic));
				if (ref.entry) {
					y += tag("EntryPoint", mc::format("%lld", (long long) *ref.entry));
				}
				if (ref.duration) {
					y += tag("Duration", mc::format("%lld", (long long) *ref.duration));
				}
				if (ref.encrypted) {
					y += tag("KeyId", "urn:uuid:" + key_id);
				}
				if (ref.hash) {
					y += tag("Hash", ref.wrong_cpl ? another_hash : ref.wrong_both ? other_hash : made.hashes[asset]);
				}
				return y;
			};
			auto picture = [&]() {
				auto const& q = *reel.picture;
				string const name = !q.stereo ? "MainPicture" : p.interop ? "msp-cpl:MainStereoscopicPicture xmlns:msp-cpl=\"http://www.digicine.com/schemas/437-Y/2007/Main-Stereo-Picture-CPL\"" :
					"msp-cpl:MainStereoscopicPicture xmlns:msp-cpl=\"http://www.smpte-ra.org/schemas/429-10/2008/Main-Stereo-Picture-CPL\"";
				x += nest(
					name,
					common(q, id('p', 0, r)) + tag("FrameRate", mc::format("%d %d", q.frame_rate.numerator, q.frame_rate.denominator)) +
					tag("ScreenAspectRatio", p.interop ? "1.85" : mc::format("%d %d", q.size.width, q.size.height))
					);
			};
			if (reel.picture && !reel.picture->stereo) {
				picture();
			}
			if (reel.sound) {
				x += nest("MainSound", common(*reel.sound, id('s', 0, r)));
			}
			auto language = [](Text const& t, string prefix) {
				return t.reference_language ? tag(prefix + "Language", *t.reference_language) : string();
			};
			if (reel.subtitle) {
				x += nest("MainSubtitle", common(*reel.subtitle, id('t', 0, r)) + language(*reel.subtitle, ""));
			}
			for (int i = 0; i < int(reel.captions.size()); ++i) {
				x += nest(
					p.interop ? "cc-cpl:MainClosedCaption xmlns:cc-cpl=\"http://www.digicine.com/PROTO-ASDCP-CC-CPL-20070926#\"" : "tt:ClosedCaption xmlns:tt=\"http://www.smpte-ra.org/schemas/429-12/2008/TT\"",
					common(reel.captions[i], id('c', 0, r, i)) + language(reel.captions[i], "tt:")
					);
			}
			if (reel.picture && reel.picture->stereo) {
				picture();
			}
			if (r == 0 && cpl.metadata && !p.interop) {
				string m = "<meta:CompositionMetadataAsset xmlns:meta=\"http://www.smpte-ra.org/schemas/429-16/2014/CPL-Metadata\">";
				m += tag("Id", "urn:uuid:" + id('m', c)) + tag("EditRate", rate) + tag("IntrinsicDuration", "24") + tag("meta:FullContentTitleText", cpl.title);
				if (cpl.territory) {
					m += tag("meta:ReleaseTerritory" + (cpl.territory_scope ? " scope=\"" + *cpl.territory_scope + "\"" : string()), *cpl.territory);
				}
				if (cpl.version_number) {
					m += tag("meta:VersionNumber", mc::format("%d", *cpl.version_number));
				}
				m += tag("meta:MainSoundConfiguration", cpl.sound_configuration) + tag("meta:MainSoundSampleRate", "48000 1");
				m += nest("meta:MainPictureStoredArea", tag("meta:Width", "1998") + tag("meta:Height", "1080"));
				m += nest("meta:MainPictureActiveArea", tag("meta:Width", mc::format("%d", cpl.active.width)) + tag("meta:Height", mc::format("%d", cpl.active.height)));
				if (!cpl.languages.empty()) {
					string l;
					for (auto const& i: cpl.languages) {
						l += (l.empty() ? "" : " ") + i;
					}
					m += tag("meta:MainSubtitleLanguageList", l);
				}
				if (cpl.extension != "none") {
					string const scope = cpl.extension == "scope" ? "http://example.com/" : "http://isdcf.com/ns/cplmd/app";
					string const name = cpl.extension == "name" ? "Applicatio" : "Application";
					string const property = cpl.extension == "property" ? "DCP Constraints" : "DCP Constraints Profile";
					string const value = cpl.extension == "value" ? "SMPTE-RDD-52:2020-Bv2.2" : cpl.extension == "2.0" ? "SMPTE-RDD-52:2020-Bv2.0" : "SMPTE-RDD-52:2020-Bv2.1";
					m += nest(
						"meta:ExtensionMetadataList", nest(
							"meta:ExtensionMetadata scope=\"" + scope + "\"",
							tag("meta:Name", name) + nest("meta:PropertyList", nest("meta:Property", tag("meta:Name", property) + tag("meta:Value", value)))
							));
				}
				x += m + "</meta:CompositionMetadataAsset>";
			}
			x += "</AssetList></Reel>";
		}
		x += "</ReelList>" + (cpl.is_signed ? signature(p.interop) : "") + "</CompositionPlaylist>\n";
		assets::put(dir / cpl_name(c), x);
		made.cpl_hash[c] = assets::digest(x);
		made.cpl_pkl_hash[c] = cpl.wrong_hash ? other_hash : made.cpl_hash[c];
		entries.push_back(Entry{id('C', c), made.cpl_pkl_hash[c], p.interop ? "text/xml;asdcpKind=CPL" : "text/xml", cpl_name(c), id('C', c)});
		entries.back().pkl = p.pkl_of.empty() ? 0 : p.pkl_of[c];
	}

	if (p.duplicate_in_pkl) {
		/* Of no file */
		auto e = entries.back();
		e.in_map = false;
		entries.push_back(e);
	}

	int pkls = 1;
	for (auto i: p.pkl_of) {
		pkls = std::max(pkls, i + 1);
	}

	string map_assets;
	auto chunk = [&](string const& asset, string const& path, bool pkl) {
		map_assets += nest("Asset",
			tag("Id", "urn:uuid:" + asset) + (pkl ? (p.interop ? "<PackingList/>" : tag("PackingList", "true")) : "") +
			nest("ChunkList", nest("Chunk", tag("Path", path) + tag("VolumeIndex", "1") + tag("Offset", "0") + tag("Length", "1")))
			);
	};

	for (int k = 0; k < pkls; ++k) {
		string x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<PackingList xmlns=\"" +
			string(p.interop ? "http://www.digicine.com/PROTO-ASDCP-PKL-20040311#" : "http://www.smpte-ra.org/schemas/429-8/2007/PKL") + "\">";
		x += tag("Id", "urn:uuid:" + id('P', k));
		if (p.pkl_annotation) {
			x += tag("AnnotationText", *p.pkl_annotation + (k ? mc::format("%d", k) : ""));
		}
		x += tag("IssueDate", "2012-07-17T04:45:18+00:00") + tag("Issuer", "i") + tag("Creator", "c") + "<AssetList>";
		for (auto const& e: entries) {
			if (e.pkl == k) {
				x += nest("Asset", tag("Id", "urn:uuid:" + e.id) + tag("Hash", e.hash) + tag("Size", "1") + tag("Type", e.type));
			}
		}
		x += "</AssetList>" + (p.pkl_element.empty() ? "" : tag(p.pkl_element, "x")) + (p.pkl_signed ? signature(p.interop) : "") + "</PackingList>\n";
		auto const name = mc::format("pkl%d.xml", k);
		assets::put(dir / name, x);
		chunk(id('P', k), name, true);
	}

	for (auto const& e: entries) {
		if (e.in_map) {
			chunk(e.map_id, e.file, false);
		}
	}
	if (p.duplicate_in_map) {
		chunk(id('C', 0), cpl_name(0), false);
	}
	if (p.empty_path) {
		chunk(id('E'), "", false);
	}
	string x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<AssetMap xmlns=\"" +
		string(p.interop ? "http://www.digicine.com/PROTO-ASDCP-AM-20040311#" : "http://www.smpte-ra.org/schemas/429-9/2007/AM") + "\">";
	x += tag("Id", "urn:uuid:" + id('A'));
	if (p.interop) {
		x += tag("VolumeCount", "1") + tag("IssueDate", "2012-07-17T04:45:18+00:00") + tag("Issuer", "i") + tag("Creator", "c");
	} else {
		x += tag("Creator", "c") + tag("VolumeCount", "1") + tag("IssueDate", "2012-07-17T04:45:18+00:00") + tag("Issuer", "i");
	}
	x += nest("AssetList", map_assets) + (p.map_element.empty() ? "" : tag(p.map_element, "x")) + "</AssetMap>\n";
	assets::put(dir / (p.interop ? "ASSETMAP" : "ASSETMAP.xml"), x);
	return made;
}

/*
 * What should be said about a package
 */

typedef dcp::VerificationNote::Code Code;

static string name(Code code)
{
#define N(c) { Code::c, #c }
	static map<Code, string> const names = {
		N(FAILED_READ), N(MATCHING_CPL_HASHES), N(MISMATCHED_CPL_HASHES), N(INVALID_PICTURE_FRAME_RATE), N(CORRECT_PICTURE_HASH), N(INCORRECT_PICTURE_HASH),
		N(MISMATCHED_PICTURE_HASHES), N(INCORRECT_SOUND_HASH), N(MISMATCHED_SOUND_HASHES), N(EMPTY_ASSET_PATH), N(MISSING_ASSET), N(MISMATCHED_STANDARD), N(INVALID_XML),
		N(MISSING_ASSETMAP), N(INVALID_INTRINSIC_DURATION), N(INVALID_DURATION), N(VALID_PICTURE_FRAME_SIZES_IN_BYTES), N(INVALID_PICTURE_FRAME_SIZE_IN_BYTES),
		N(NEARLY_INVALID_PICTURE_FRAME_SIZE_IN_BYTES), N(EXTERNAL_ASSET), N(THREED_ASSET_MARKED_AS_TWOD), N(INVALID_STANDARD), N(INVALID_LANGUAGE), N(VALID_RELEASE_TERRITORY),
		N(INVALID_PICTURE_SIZE_IN_PIXELS), N(INVALID_PICTURE_FRAME_RATE_FOR_2K), N(INVALID_PICTURE_FRAME_RATE_FOR_4K), N(INVALID_PICTURE_ASSET_RESOLUTION_FOR_3D),
		N(INVALID_CLOSED_CAPTION_XML_SIZE_IN_BYTES), N(INVALID_TIMED_TEXT_SIZE_IN_BYTES), N(INVALID_TIMED_TEXT_FONT_SIZE_IN_BYTES), N(MISSING_SUBTITLE_LANGUAGE),
		N(MISMATCHED_SUBTITLE_LANGUAGES), N(MISSING_SUBTITLE_START_TIME), N(INVALID_SUBTITLE_START_TIME), N(INVALID_SUBTITLE_FIRST_TEXT_TIME), N(INVALID_SUBTITLE_DURATION),
		N(INVALID_SUBTITLE_DURATION_BV21), N(INVALID_SUBTITLE_SPACING), N(SUBTITLE_OVERLAPS_REEL_BOUNDARY), N(INVALID_SUBTITLE_LINE_COUNT), N(NEARLY_INVALID_SUBTITLE_LINE_LENGTH),
		N(INVALID_SUBTITLE_LINE_LENGTH), N(INVALID_CLOSED_CAPTION_LINE_COUNT), N(INVALID_CLOSED_CAPTION_LINE_LENGTH), N(INVALID_SOUND_FRAME_RATE), N(INVALID_SOUND_BIT_DEPTH),
		N(MISSING_CPL_ANNOTATION_TEXT), N(MISMATCHED_CPL_ANNOTATION_TEXT), N(VALID_CPL_ANNOTATION_TEXT), N(MISMATCHED_ASSET_DURATION), N(MISSING_MAIN_SUBTITLE_FROM_SOME_REELS),
		N(MISMATCHED_CLOSED_CAPTION_ASSET_COUNTS), N(MISSING_SUBTITLE_ENTRY_POINT), N(INCORRECT_SUBTITLE_ENTRY_POINT), N(MISSING_CLOSED_CAPTION_ENTRY_POINT),
		N(INCORRECT_CLOSED_CAPTION_ENTRY_POINT), N(MISSING_HASH), N(MISSING_FFEC_IN_FEATURE), N(MISSING_FFMC_IN_FEATURE), N(MISSING_FFOC), N(MISSING_LFOC), N(INCORRECT_FFOC),
		N(INCORRECT_LFOC), N(MISSING_CPL_METADATA), N(MISSING_CPL_METADATA_VERSION_NUMBER), N(MISSING_EXTENSION_METADATA), N(INVALID_EXTENSION_METADATA),
		N(UNSIGNED_CPL_WITH_ENCRYPTED_CONTENT), N(UNSIGNED_PKL_WITH_ENCRYPTED_CONTENT), N(MISMATCHED_PKL_ANNOTATION_TEXT_WITH_CPL), N(MATCHING_PKL_ANNOTATION_TEXT_WITH_CPL),
		N(ALL_ENCRYPTED), N(NONE_ENCRYPTED), N(PARTIALLY_ENCRYPTED), N(INVALID_JPEG2000_CODESTREAM), N(INVALID_JPEG2000_GUARD_BITS_FOR_2K), N(INVALID_JPEG2000_GUARD_BITS_FOR_4K),
		N(INVALID_JPEG2000_RSIZ_FOR_2K), N(INVALID_JPEG2000_RSIZ_FOR_4K), N(MISSING_JPEG2000_TLM_MARKER), N(MISMATCHED_TIMED_TEXT_RESOURCE_ID), N(INCORRECT_TIMED_TEXT_ASSET_ID),
		N(MISMATCHED_TIMED_TEXT_DURATION), N(MISSED_CHECK_OF_ENCRYPTED), N(EMPTY_TEXT), N(MISMATCHED_CLOSED_CAPTION_VALIGN), N(INCORRECT_CLOSED_CAPTION_ORDERING),
		N(UNEXPECTED_ENTRY_POINT), N(UNEXPECTED_DURATION), N(INVALID_CONTENT_KIND), N(VALID_CONTENT_KIND), N(INVALID_MAIN_PICTURE_ACTIVE_AREA), N(VALID_MAIN_PICTURE_ACTIVE_AREA),
		N(DUPLICATE_ASSET_ID_IN_PKL), N(DUPLICATE_ASSET_ID_IN_ASSETMAP), N(MISSING_SUBTITLE), N(INVALID_SUBTITLE_ISSUE_DATE), N(MISMATCHED_SOUND_CHANNEL_COUNTS),
		N(INVALID_MAIN_SOUND_CONFIGURATION), N(MISSING_FONT), N(INVALID_JPEG2000_TILE_PART_SIZE), N(INCORRECT_SUBTITLE_NAMESPACE_COUNT), N(MISSING_LOAD_FONT_FOR_FONT),
		N(MISSING_LOAD_FONT), N(MISMATCHED_ASSET_MAP_ID), N(EMPTY_CONTENT_VERSION_LABEL_TEXT), N(VALID_CONTENT_VERSION_LABEL_TEXT), N(INVALID_CPL_NAMESPACE),
		N(MISSING_CPL_CONTENT_VERSION), N(INVALID_PKL_NAMESPACE)
	};
	auto i = names.find(code);
	return i == names.end() ? mc::format("code %d", int(code)) : i->second;
}

/** Which parts of a note are judged, for each code: those which verify.h says will be there */
static string judged(Code code)
{
	static map<Code, string> const parts = {
		{ Code::MATCHING_CPL_HASHES, "c" }, { Code::MISMATCHED_CPL_HASHES, "cfHh" }, { Code::INVALID_PICTURE_FRAME_RATE, "rR" }, { Code::CORRECT_PICTURE_HASH, "r" },
		{ Code::INCORRECT_PICTURE_HASH, "rfHh" }, { Code::MISMATCHED_PICTURE_HASHES, "rf" }, { Code::INCORRECT_SOUND_HASH, "rfHh" }, { Code::MISMATCHED_SOUND_HASHES, "rf" },
		{ Code::MISSING_ASSET, "f" }, { Code::INVALID_INTRINSIC_DURATION, "ar" }, { Code::INVALID_DURATION, "ar" }, { Code::VALID_PICTURE_FRAME_SIZES_IN_BYTES, "r" },
		{ Code::INVALID_PICTURE_FRAME_SIZE_IN_BYTES, "rfF" }, { Code::NEARLY_INVALID_PICTURE_FRAME_SIZE_IN_BYTES, "rfF" }, { Code::EXTERNAL_ASSET, "a" },
		{ Code::INVALID_LANGUAGE, "rL" }, { Code::VALID_RELEASE_TERRITORY, "T" }, { Code::INVALID_PICTURE_SIZE_IN_PIXELS, "Sfr" }, { Code::INVALID_PICTURE_FRAME_RATE_FOR_2K, "Rfr" },
		{ Code::INVALID_PICTURE_FRAME_RATE_FOR_4K, "Rfr" }, { Code::INVALID_PICTURE_ASSET_RESOLUTION_FOR_3D, "f" }, { Code::INVALID_CLOSED_CAPTION_XML_SIZE_IN_BYTES, "bfr" },
		{ Code::INVALID_TIMED_TEXT_SIZE_IN_BYTES, "bf" }, { Code::INVALID_TIMED_TEXT_FONT_SIZE_IN_BYTES, "bf" }, { Code::MISSING_SUBTITLE_LANGUAGE, "fr" },
		{ Code::MISMATCHED_SUBTITLE_LANGUAGES, "r" }, { Code::MISSING_SUBTITLE_START_TIME, "fr" }, { Code::INVALID_SUBTITLE_START_TIME, "fr" },
		{ Code::INVALID_SUBTITLE_FIRST_TEXT_TIME, "ra" }, { Code::INVALID_SUBTITLE_DURATION, "ra" }, { Code::INVALID_SUBTITLE_DURATION_BV21, "ra" }, { Code::INVALID_SUBTITLE_SPACING, "ra" },
		{ Code::SUBTITLE_OVERLAPS_REEL_BOUNDARY, "ra" }, { Code::EMPTY_TEXT, "ra" }, { Code::INVALID_SOUND_FRAME_RATE, "Rfr" }, { Code::INVALID_SOUND_BIT_DEPTH, "Bfr" },
		{ Code::MISSING_CPL_ANNOTATION_TEXT, "cf" }, { Code::MISMATCHED_CPL_ANNOTATION_TEXT, "cf" }, { Code::VALID_CPL_ANNOTATION_TEXT, "n" }, { Code::MISMATCHED_ASSET_DURATION, "r" },
		{ Code::MISSING_SUBTITLE_ENTRY_POINT, "a" }, { Code::INCORRECT_SUBTITLE_ENTRY_POINT, "a" }, { Code::MISSING_CLOSED_CAPTION_ENTRY_POINT, "a" },
		{ Code::INCORRECT_CLOSED_CAPTION_ENTRY_POINT, "a" }, { Code::MISSING_HASH, "ar" }, { Code::INCORRECT_FFOC, "t" }, { Code::INCORRECT_LFOC, "t" }, { Code::MISSING_CPL_METADATA, "cf" },
		{ Code::MISSING_CPL_METADATA_VERSION_NUMBER, "cf" }, { Code::MISSING_EXTENSION_METADATA, "cf" }, { Code::INVALID_EXTENSION_METADATA, "fe" },
		{ Code::UNSIGNED_CPL_WITH_ENCRYPTED_CONTENT, "cf" }, { Code::UNSIGNED_PKL_WITH_ENCRYPTED_CONTENT, "pf" }, { Code::MISMATCHED_PKL_ANNOTATION_TEXT_WITH_CPL, "pf" },
		{ Code::INVALID_JPEG2000_CODESTREAM, "Fer" }, { Code::INVALID_JPEG2000_GUARD_BITS_FOR_2K, "gr" }, { Code::INVALID_JPEG2000_RSIZ_FOR_2K, "C" },
		{ Code::MISMATCHED_TIMED_TEXT_RESOURCE_ID, "r" }, { Code::INCORRECT_TIMED_TEXT_ASSET_ID, "r" }, { Code::MISMATCHED_TIMED_TEXT_DURATION, "dofr" }, { Code::MISSED_CHECK_OF_ENCRYPTED, "r" },
		{ Code::UNEXPECTED_ENTRY_POINT, "r" }, { Code::UNEXPECTED_DURATION, "r" }, { Code::INVALID_CONTENT_KIND, "k" }, { Code::VALID_CONTENT_KIND, "k" },
		{ Code::INVALID_MAIN_PICTURE_ACTIVE_AREA, "ef" }, { Code::VALID_MAIN_PICTURE_ACTIVE_AREA, "S" }, { Code::DUPLICATE_ASSET_ID_IN_PKL, "pf" },
		{ Code::DUPLICATE_ASSET_ID_IN_ASSETMAP, "mf" }, { Code::MISSING_SUBTITLE, "afr" }, { Code::INVALID_SUBTITLE_ISSUE_DATE, "ir" }, { Code::MISMATCHED_SOUND_CHANNEL_COUNTS, "fr" },
		{ Code::INVALID_MAIN_SOUND_CONFIGURATION, "cfe" }, { Code::MISSING_FONT, "lr" }, { Code::INCORRECT_SUBTITLE_NAMESPACE_COUNT, "ar" }, { Code::MISSING_LOAD_FONT_FOR_FONT, "l" },
		{ Code::MISSING_LOAD_FONT, "ar" }, { Code::MISMATCHED_ASSET_MAP_ID, "aO" }, { Code::EMPTY_CONTENT_VERSION_LABEL_TEXT, "cf" }, { Code::VALID_CONTENT_VERSION_LABEL_TEXT, "v" },
		{ Code::MISSING_CPL_CONTENT_VERSION, "f" }
	};
	auto i = parts.find(code);
	return i == parts.end() ? "" : i->second;
}

static string describe(dcp::VerificationNote const& n)
{
	auto s = name(n.code());
	for (auto c: judged(n.code())) {
		s += " ";
		switch (c) {
		case 'a': s += "asset=" + n.asset_id().get_value_or("?"); break;
		case 'b': s += n.size_in_bytes() ? mc::format("bytes=%d", *n.size_in_bytes()) : "?"; break;
		case 'B': s += n.bit_depth() ? mc::format("bits=%d", *n.bit_depth()) : "?"; break;
		case 'c': s += "cpl=" + n.cpl_id().get_value_or("?"); break;
		case 'C': s += n.capabilities() ? mc::format("capabilities=%d", *n.capabilities()) : "?"; break;
		case 'd': s += n.duration() ? mc::format("duration=%d", int(*n.duration())) : "?"; break;
		case 'e': s += !n.error() || n.error()->empty() ? "?" : "error"; break;
		case 'f': s += "file=" + (n.file() ? n.file()->filename().string() : "?"); break;
		case 'F': s += n.frame() ? mc::format("frame=%d", *n.frame()) : "?"; break;
		case 'g': s += n.guard_bits() ? mc::format("guard=%d", *n.guard_bits()) : "?"; break;
		case 'h': s += "calculated=" + n.calculated_hash().get_value_or("?"); break;
		case 'H': s += "reference=" + n.reference_hash().get_value_or("?"); break;
		case 'i': s += "date=" + n.issue_date().get_value_or("?"); break;
		case 'k': s += "kind=" + n.content_kind().get_value_or("?"); break;
		case 'l': s += "font=" + n.load_font_id().get_value_or("?"); break;
		case 'L': s += "language=" + n.language().get_value_or("?"); break;
		case 'm': s += "map=" + n.asset_map_id().get_value_or("?"); break;
		case 'n': s += "annotation=" + n.annotation_text().get_value_or("?"); break;
		case 'o': s += n.other_duration() ? mc::format("other=%d", int(*n.other_duration())) : "?"; break;
		case 'O': s += "other=" + n.other_asset_id().get_value_or("?"); break;
		case 'p': s += "pkl=" + n.pkl_id().get_value_or("?"); break;
		case 'r': s += n.reel_index() ? mc::format("reel=%d", *n.reel_index()) : "reel=?"; break;
		case 'R': s += n.frame_rate() ? mc::format("rate=%d/%d", n.frame_rate()->numerator, n.frame_rate()->denominator) : "?"; break;
		case 'S': s += n.size_in_pixels() ? mc::format("size=%dx%d", n.size_in_pixels()->width, n.size_in_pixels()->height) : "?"; break;
		case 't': s += n.time() ? "time=" + n.time()->as_string(dcp::Standard::SMPTE) : "?"; break;
		case 'T': s += "territory=" + n.territory().get_value_or("?"); break;
		case 'v': s += "version=" + n.content_version().get_value_or("?"); break;
		}
	}
	return s;
}

static vector<dcp::VerificationNote> expected(Package const& package, Made const& made)
{
	typedef dcp::VerificationNote Note;
	vector<Note> notes;
	auto p = package;

	auto readable = [&](Ref const& r) {
		return !r.encrypted || p.keys;
	};

	/* Reading */

	if (p.interop) {
		notes.push_back(Note(Code::INVALID_STANDARD));
	}
	if (p.empty_path) {
		notes.push_back(Note(Code::EMPTY_ASSET_PATH));
	}
	if (p.duplicate_in_map) {
		notes.push_back(Note(Code::DUPLICATE_ASSET_ID_IN_ASSETMAP, p.interop ? "ASSETMAP" : "ASSETMAP.xml").set_asset_map_id(id('A')));
	}
	int pkls = 1;
	for (auto i: p.pkl_of) {
		pkls = std::max(pkls, i + 1);
	}
	if (p.duplicate_in_pkl) {
		notes.push_back(Note(Code::DUPLICATE_ASSET_ID_IN_PKL, "pkl0.xml").set_pkl_id(id('P', 0)));
	}
	if (!p.pkl_element.empty() || !p.map_element.empty()) {
		notes.push_back(Note(Code::INVALID_XML));
	}

	each(p, [&](Ref& ref, char kind, int c, int r, int n) {
		auto const asset = id(kind, 0, r, n);
		if (ref.external) {
			notes.push_back(Note(Code::EXTERNAL_ASSET).set_asset_id(asset));
		} else if (ref.missing) {
			notes.push_back(Note(Code::MISSING_ASSET, made.files.at(asset)));
			if (ref.wrong_map_id) {
				notes.push_back(Note(Code::EXTERNAL_ASSET).set_asset_id(asset));
			}
		} else if (ref.wrong_map_id) {
			notes.push_back(Note(Code::MISMATCHED_ASSET_MAP_ID).set_asset_id(other_id(asset)).set_other_asset_id(asset));
		}
	});

	auto actual = [](Ref const& ref) {
		return ref.duration.get_value_or(ref.intrinsic - ref.entry.get_value_or(0));
	};

	/** Length of a reel, which is that of its picture */
	auto length = [&](Reel const& r) {
		return actual(*r.picture);
	};

	auto here = [&](Ref const& r) {
		return !r.external && !r.missing;
	};

	for (int c = 0; c < int(p.cpls.size()); ++c) {
		auto& cpl = p.cpls[c];
		auto const file = cpl_name(c);
		auto const cpl_id = id('C', c);

		if (!p.interop && !cpl.version) {
			notes.push_back(Note(Code::MISSING_CPL_CONTENT_VERSION, file));
		}
		if (cpl.disorder || (!p.interop && !cpl.version)) {
			notes.push_back(Note(Code::INVALID_XML));
		}

		/* Encryption */
		int encrypted = 0, plain = 0;
		bool mxf_encrypted = false;
		for (auto& r: cpl.reels) {
			auto count = [&](Ref const& ref) {
				++(ref.encrypted ? encrypted : plain);
				mxf_encrypted = mxf_encrypted || (ref.encrypted && here(ref) && !ref.wrong_map_id);
			};
			if (r.picture) {
				count(*r.picture);
			}
			if (r.sound) {
				count(*r.sound);
			}
			if (r.subtitle && !p.interop) {
				count(*r.subtitle);
			}
			if (!p.interop) {
				for (auto& i: r.captions) {
					count(i);
				}
			}
		}
		notes.push_back(Note(!encrypted ? Code::NONE_ENCRYPTED : !plain ? Code::ALL_ENCRYPTED : Code::PARTIALLY_ENCRYPTED));
		if (encrypted && !p.interop && !cpl.is_signed) {
			notes.push_back(Note(Code::UNSIGNED_CPL_WITH_ENCRYPTED_CONTENT, file).set_cpl_id(cpl_id));
		}
		if (mxf_encrypted && !p.pkl_signed) {
			int const k = p.pkl_of.empty() ? 0 : p.pkl_of[c];
			notes.push_back(Note(Code::UNSIGNED_PKL_WITH_ENCRYPTED_CONTENT, mc::format("pkl%d.xml", k)).set_pkl_id(id('P', k)));
		}

		/* Things in the playlist itself */
		for (auto const& l: cpl.languages) {
			if (!p.interop && cpl.metadata && &l != &cpl.languages[0] && l == "xx-bad") {
				notes.push_back(Note(Code::INVALID_LANGUAGE).set_language(l));
			}
		}
		if (!cpl.kind_scope || *cpl.kind_scope == "http://www.smpte-ra.org/schemas/429-7/2006/CPL#standard-content") {
			static set<string> const kinds = {
				"feature", "short", "trailer", "test", "transitional", "rating", "teaser", "policy", "psa", "advertisement", "clip", "promo", "stereocard", "episode", "highlights", "event"
			};
			string lower;
			for (auto ch: cpl.kind) {
				lower += tolower(ch);
			}
			notes.push_back(Note(kinds.count(lower) ? Code::VALID_CONTENT_KIND : Code::INVALID_CONTENT_KIND).set_content_kind(cpl.kind));
		}
		if (cpl.metadata && !p.interop) {
			if (cpl.territory && (!cpl.territory_scope || *cpl.territory_scope != "http://www.smpte-ra.org/schemas/429-16/2014/CPL-Metadata#scope/release-territory/UNM49")) {
				if (*cpl.territory == "GB" || *cpl.territory == "001") {
					notes.push_back(Note(Code::VALID_RELEASE_TERRITORY).set_territory(*cpl.territory));
				} else {
					notes.push_back(Note(Code::INVALID_LANGUAGE).set_language(*cpl.territory));
				}
			}
			auto const odd = (cpl.active.width % 2) + (cpl.active.height % 2);
			if (odd) {
				notes.push_back(Note(Code::INVALID_MAIN_PICTURE_ACTIVE_AREA, file).set_error("e"));
			} else {
				notes.push_back(Note(Code::VALID_MAIN_PICTURE_ACTIVE_AREA).set_size_in_pixels(cpl.active));
			}
			if (cpl.sound_configuration == "51/L,Q") {
				notes.push_back(Note(Code::INVALID_MAIN_SOUND_CONFIGURATION, file).set_cpl_id(cpl_id).set_error("e"));
			}
		}
		if (cpl.version) {
			if (cpl.version->empty()) {
				notes.push_back(Note(Code::EMPTY_CONTENT_VERSION_LABEL_TEXT, file).set_cpl_id(cpl_id));
			} else {
				notes.push_back(Note(Code::VALID_CONTENT_VERSION_LABEL_TEXT).set_content_version(*cpl.version));
			}
		}
		if (!p.interop) {
			if (!cpl.annotation) {
				notes.push_back(Note(Code::MISSING_CPL_ANNOTATION_TEXT, file).set_cpl_id(cpl_id));
			} else if (*cpl.annotation != cpl.title) {
				notes.push_back(Note(Code::MISMATCHED_CPL_ANNOTATION_TEXT, file).set_cpl_id(cpl_id));
			} else {
				notes.push_back(Note(Code::VALID_CPL_ANNOTATION_TEXT).set_annotation_text(*cpl.annotation));
			}
		}
		if (cpl.wrong_hash) {
			notes.push_back(Note(Code::MISMATCHED_CPL_HASHES, file).set_cpl_id(cpl_id).set_reference_hash(made.cpl_pkl_hash[c]).set_calculated_hash(made.cpl_hash[c]));
		} else {
			notes.push_back(Note(Code::MATCHING_CPL_HASHES).set_cpl_id(cpl_id));
		}

		/* Reels */
		optional<int> channels;
		optional<string> subtitle_language;
		bool subtitles = false, no_subtitles = false;
		size_t fewest = SIZE_MAX, most = 0;
		map<string, int> markers;
		int64_t start = 0;
		for (int r = 0; r < int(cpl.reels.size()); ++r) {
			auto& reel = cpl.reels[r];
			auto add = [&](Note n) {
				notes.push_back(n.set_reel_index(r));
			};

			vector<std::pair<string, Ref const*>> refs;
			if (reel.picture) {
				refs.push_back(std::make_pair(id('p', 0, r), &*reel.picture));
			}
			if (reel.sound) {
				refs.push_back(std::make_pair(id('s', 0, r), &*reel.sound));
			}
			if (reel.subtitle) {
				refs.push_back(std::make_pair(id('t', 0, r), &*reel.subtitle));
			}
			for (int i = 0; i < int(reel.captions.size()); ++i) {
				refs.push_back(std::make_pair(id('c', 0, r, i), &reel.captions[i]));
			}
			set<int64_t> durations;
			for (auto i: refs) {
				auto const& ref = *i.second;
				if (ref.duration && *ref.duration < p.rate) {
					add(Note(Code::INVALID_DURATION).set_asset_id(i.first));
				}
				if (ref.intrinsic < p.rate) {
					add(Note(Code::INVALID_INTRINSIC_DURATION).set_asset_id(i.first));
				}
				if (!ref.hash && !(p.interop && (i.first.substr(0, 2) == "74" || i.first.substr(0, 2) == "63"))) {
					add(Note(Code::MISSING_HASH).set_asset_id(i.first));
				}
				durations.insert(actual(ref));
			}
			if (!p.interop && durations.size() > 1) {
				add(Note(Code::MISMATCHED_ASSET_DURATION));
			}

			if (reel.picture) {
				auto const& q = *reel.picture;
				auto const asset = id('p', 0, r);
				auto const f = made.files.at(asset);
				static set<int> const rates = { 24, 25, 30, 48, 50, 60, 96 };
				if (q.frame_rate.denominator != 1 || !rates.count(q.frame_rate.numerator)) {
					add(Note(Code::INVALID_PICTURE_FRAME_RATE).set_frame_rate(q.frame_rate));
				}
				if (here(q)) {
					if (p.check_hashes && (!p.maximum_size || int64_t(made.sizes.at(asset)) <= int64_t(made.sizes.at(id('p', 0, 0))) + *p.maximum_size)) {
						auto const in_pkl = q.wrong_pkl || q.wrong_both ? other_hash : made.hashes.at(asset);
						auto const in_cpl = q.wrong_cpl ? another_hash : q.wrong_both ? other_hash : made.hashes.at(asset);
						/* If the packing list does not have it we have only the CPL */
						auto const reference = !q.wrong_map_id ? in_pkl : q.hash ? in_cpl : made.hashes.at(asset);
						if (q.hash && in_cpl != reference) {
							add(Note(Code::MISMATCHED_PICTURE_HASHES, f));
						} else if (reference != made.hashes.at(asset)) {
							add(Note(Code::INCORRECT_PICTURE_HASH, f).set_reference_hash(reference).set_calculated_hash(made.hashes.at(asset)));
						} else {
							add(Note(Code::CORRECT_PICTURE_HASH));
						}
					}
					if (p.check_details) {
						auto const maximum = lrint(250e6 / 8 / p.rate);
						auto const risky = lrint(230e6 / 8 / p.rate);
						int const frame = start + (q.stereo ? q.which / 2 : q.which);
						if (q.bytes > maximum) {
							add(Note(Code::INVALID_PICTURE_FRAME_SIZE_IN_BYTES, f).set_frame(frame));
						} else if (q.bytes > risky) {
							add(Note(Code::NEARLY_INVALID_PICTURE_FRAME_SIZE_IN_BYTES, f).set_frame(frame));
						} else {
							add(Note(Code::VALID_PICTURE_FRAME_SIZES_IN_BYTES));
						}
						if (readable(q)) {
							if (q.fault == "rsiz") {
								add(Note(q.size.width > 2048 ? Code::INVALID_JPEG2000_RSIZ_FOR_4K : Code::INVALID_JPEG2000_RSIZ_FOR_2K).set_capabilities(0));
							} else if (q.fault == "tlm") {
								add(Note(Code::MISSING_JPEG2000_TLM_MARKER));
							} else if (q.fault == "guard") {
								add(Note(q.size.width > 2048 ? Code::INVALID_JPEG2000_GUARD_BITS_FOR_4K : Code::INVALID_JPEG2000_GUARD_BITS_FOR_2K).set_guard_bits(q.size.width > 2048 ? 1 : 2));
							} else if (q.fault == "junk") {
								for (int i = 0; i < q.real.get_value_or(q.intrinsic); ++i) {
									add(Note(Code::INVALID_JPEG2000_CODESTREAM).set_frame(start + i).set_error("e"));
								}
							}
						}
					}
					auto is = [&q](int w, int h) {
						return q.size == dcp::Size(w, h);
					};
					bool const two = is(1998, 1080) || is(2048, 858);
					bool const four = is(3996, 2160) || is(4096, 1716);
					if (!two && !four) {
						add(Note(Code::INVALID_PICTURE_SIZE_IN_PIXELS, f).set_size_in_pixels(q.size));
					}
					if (two && p.rate != 24 && p.rate != 25 && p.rate != 48) {
						add(Note(Code::INVALID_PICTURE_FRAME_RATE_FOR_2K, f).set_frame_rate(dcp::Fraction(p.rate, 1)));
					}
					if (four && p.rate != 24) {
						add(Note(Code::INVALID_PICTURE_FRAME_RATE_FOR_4K, f).set_frame_rate(dcp::Fraction(p.rate, 1)));
					}
					if (four && q.stereo) {
						add(Note(Code::INVALID_PICTURE_ASSET_RESOLUTION_FOR_3D, f));
					}
					if (cpl.metadata && !p.interop && (cpl.active.width > q.size.width || cpl.active.height > q.size.height)) {
						add(Note(Code::INVALID_MAIN_PICTURE_ACTIVE_AREA, file).set_error("e"));
					}
				}
			}

			if (reel.sound && here(*reel.sound)) {
				auto const& q = *reel.sound;
				auto const asset = id('s', 0, r);
				auto const f = made.files.at(asset);
				if (p.check_hashes && (!p.maximum_size || int64_t(made.sizes.at(asset)) <= int64_t(made.sizes.at(id('p', 0, 0))) + *p.maximum_size)) {
					auto const in_pkl = q.wrong_pkl || q.wrong_both ? other_hash : made.hashes.at(asset);
					auto const in_cpl = q.wrong_cpl ? another_hash : q.wrong_both ? other_hash : made.hashes.at(asset);
					auto const reference = !q.wrong_map_id ? in_pkl : q.hash ? in_cpl : made.hashes.at(asset);
					if (q.hash && in_cpl != reference) {
						add(Note(Code::MISMATCHED_SOUND_HASHES, f));
					} else if (reference != made.hashes.at(asset)) {
						add(Note(Code::INCORRECT_SOUND_HASH, f).set_reference_hash(reference).set_calculated_hash(made.hashes.at(asset)));
					}
				}
				if (channels && *channels != q.channels) {
					add(Note(Code::MISMATCHED_SOUND_CHANNEL_COUNTS, f));
				}
				if (!channels) {
					channels = q.channels;
				}
				if (q.rate != 48000) {
					add(Note(Code::INVALID_SOUND_FRAME_RATE, f).set_frame_rate(dcp::Fraction(q.rate, 1)));
				}
			}

			auto text = [&](Text const& t, string const& asset, bool subtitle) {
				auto const f = made.files.at(asset);
				if (t.reference_language && *t.reference_language == "xx-bad") {
					add(Note(Code::INVALID_LANGUAGE).set_language(*t.reference_language));
				}
				if (!t.entry) {
					add(Note(subtitle ? Code::MISSING_SUBTITLE_ENTRY_POINT : Code::MISSING_CLOSED_CAPTION_ENTRY_POINT).set_asset_id(asset));
				} else if (*t.entry) {
					add(Note(subtitle ? Code::INCORRECT_SUBTITLE_ENTRY_POINT : Code::INCORRECT_CLOSED_CAPTION_ENTRY_POINT).set_asset_id(asset));
				}
				if (!here(t)) {
					return;
				}
				if (p.interop) {
					if (t.subs.empty()) {
						add(Note(Code::MISSING_SUBTITLE, f).set_asset_id(asset));
					}
					if (t.load_font && t.external_font) {
						add(Note(Code::MISSING_FONT).set_load_font_id("font"));
					}
					auto const size = text_xml(t, asset, font_id(asset), true, p.rate).size();
					if (!subtitle && size > 256 * 1024) {
						add(Note(Code::INVALID_CLOSED_CAPTION_XML_SIZE_IN_BYTES, f).set_size_in_bytes(size));
					}
					if (subtitle && t.another_namespace) {
						add(Note(Code::INCORRECT_SUBTITLE_NAMESPACE_COUNT).set_asset_id(asset));
					}
					if (t.font != "font" || !t.load_font) {
						add(Note(Code::MISSING_LOAD_FONT_FOR_FONT).set_load_font_id(t.font));
					}
					return;
				}
				if (t.duration && *t.duration != t.real.get_value_or(t.intrinsic)) {
					add(Note(Code::MISMATCHED_TIMED_TEXT_DURATION, f).set_duration(t.real.get_value_or(t.intrinsic)).set_other_duration(*t.duration));
				}
				if (!readable(t)) {
					add(Note(Code::MISSED_CHECK_OF_ENCRYPTED));
					return;
				}
				if (!t.language) {
					add(Note(Code::MISSING_SUBTITLE_LANGUAGE, f));
				} else if (*t.language == "xx-bad") {
					add(Note(Code::INVALID_LANGUAGE).set_language(*t.language));
				}
				if (t.load_font && t.font_size > 10 * 1024 * 1024) {
					add(Note(Code::INVALID_TIMED_TEXT_FONT_SIZE_IN_BYTES, f).set_size_in_bytes(t.font_size));
				}
				if (!t.start) {
					add(Note(Code::MISSING_SUBTITLE_START_TIME, f));
				} else if (*t.start) {
					add(Note(Code::INVALID_SUBTITLE_START_TIME, f));
				}
				if (subtitle) {
					if (t.language) {
						if (subtitle_language && *subtitle_language != *t.language) {
							add(Note(Code::MISMATCHED_SUBTITLE_LANGUAGES));
						}
						if (!subtitle_language) {
							subtitle_language = t.language;
						}
					}
					if (t.wrong_resource_id) {
						add(Note(Code::MISMATCHED_TIMED_TEXT_RESOURCE_ID));
					}
					if (t.same_asset_id) {
						add(Note(Code::INCORRECT_TIMED_TEXT_ASSET_ID));
					}
					if (t.issue_date != "2018-10-02T12:25:14") {
						add(Note(Code::INVALID_SUBTITLE_ISSUE_DATE).set_issue_date(t.issue_date));
					}
					if (t.another_namespace) {
						add(Note(Code::INCORRECT_SUBTITLE_NAMESPACE_COUNT).set_asset_id(asset));
					}
				} else {
					auto const size = text_xml(t, text_xml_id(t, asset), font_id(asset), false, p.rate).size();
					if (size > 256 * 1024) {
						add(Note(Code::INVALID_CLOSED_CAPTION_XML_SIZE_IN_BYTES, f).set_size_in_bytes(size));
					}
				}
				if (!t.load_font && !t.subs.empty()) {
					add(Note(Code::MISSING_LOAD_FONT).set_asset_id(asset));
				}
			};
			if (reel.subtitle) {
				text(*reel.subtitle, id('t', 0, r), true);
				subtitles = true;
			} else {
				no_subtitles = true;
			}
			for (int i = 0; i < int(reel.captions.size()); ++i) {
				text(reel.captions[i], id('c', 0, r, i), false);
			}
			fewest = std::min(fewest, reel.captions.size());
			most = std::max(most, reel.captions.size());
			if (reel.has_markers && !p.interop) {
				for (auto m: reel.markers) {
					markers.insert(m);
				}
				if (reel.marker_entry) {
					add(Note(Code::UNEXPECTED_ENTRY_POINT));
				}
				if (reel.marker_duration) {
					add(Note(Code::UNEXPECTED_DURATION));
				}
			}
			start += length(reel);
		}

		/* Times of texts, one set of them through all the reels at a time */
		auto times = [&](function<Text* (Reel&)> get, char kind, int n) {
			optional<int64_t> last;
			int64_t offset = 0;
			for (int r = 0; r < int(cpl.reels.size()); ++r) {
				auto t = get(cpl.reels[r]);
				if (!t || !here(*t) || !readable(*t)) {
					if (t && !here(*t)) {
						offset += actual(*t);
					}
					continue;
				}
				auto const asset = id(kind, 0, r, n);
				auto add = [&](Code code) {
					notes.push_back(Note(code).set_reel_index(r).set_asset_id(asset));
				};
				bool early = false, none = false, brief = false, close = false, empty = false;
				for (auto const& s: t->subs) {
					auto const in = s.in - (p.interop ? 0 : t->start.get_value_or(0));
					auto const out = s.out - (p.interop ? 0 : t->start.get_value_or(0));
					early = early || (!p.interop && r == 0 && in < 4 * p.rate);
					none = none || out - in <= 0;
					brief = brief || (out - in > 0 && out - in < 15);
					close = close || (last && offset + in - *last >= 0 && offset + in - *last < 2);
					last = offset + out;
					for (auto const& l: s.lines) {
						empty = empty || l.text.empty();
					}
				}
				offset += actual(*t);
				if (last && *last > offset) {
					add(Code::SUBTITLE_OVERLAPS_REEL_BOUNDARY);
				}
				if (early) {
					add(Code::INVALID_SUBTITLE_FIRST_TEXT_TIME);
				}
				if (none) {
					add(Code::INVALID_SUBTITLE_DURATION);
				}
				if (brief) {
					add(Code::INVALID_SUBTITLE_DURATION_BV21);
				}
				if (close) {
					add(Code::INVALID_SUBTITLE_SPACING);
				}
				if (empty) {
					add(Code::EMPTY_TEXT);
				}
			}
		};
		if (!cpl.reels.empty()) {
			if (cpl.reels[0].subtitle && here(*cpl.reels[0].subtitle)) {
				times([](Reel& r) { return r.subtitle ? &*r.subtitle : nullptr; }, 't', 0);
			}
			for (int i = 0; i < int(cpl.reels[0].captions.size()); ++i) {
				times([i](Reel& r) { return i < int(r.captions.size()) ? &r.captions[i] : nullptr; }, 'c', i);
			}
		}

		/* Where captions are, and how long and how many the lines are */
		bool align = false, order = false;
		struct Lines { int most = 0; int longest = 0; } subtitle_lines, caption_lines;
		for (auto& reel: cpl.reels) {
			auto lines = [&](Text const& t, Lines& worst) {
				if (!here(t) || !readable(t)) {
					return;
				}
				for (auto const& s: t.subs) {
					if (s.out <= s.in) {
						continue;
					}
					map<int, int> at;
					for (auto const& l: s.lines) {
						if (!l.text.empty()) {
							at[l.align == "top" ? l.position : l.align == "center" ? 50 + l.position : 100 - l.position] += l.text.size();
						}
					}
					worst.most = std::max(worst.most, int(at.size()));
					for (auto const& i: at) {
						worst.longest = std::max(worst.longest, i.second);
					}
				}
			};
			if (reel.subtitle) {
				lines(*reel.subtitle, subtitle_lines);
			}
			for (auto& t: reel.captions) {
				lines(t, caption_lines);
				if (!here(t) || !readable(t)) {
					continue;
				}
				for (auto const& s: t.subs) {
					for (size_t i = 1; i < s.lines.size(); ++i) {
						if (s.lines[i].align != s.lines[i - 1].align) {
							align = true;
						} else if (s.lines[i].align == "bottom" ? s.lines[i].position > s.lines[i - 1].position : s.lines[i].position < s.lines[i - 1].position) {
							order = true;
						}
					}
				}
			}
		}
		if (align) {
			notes.push_back(Note(Code::MISMATCHED_CLOSED_CAPTION_VALIGN));
		}
		if (order && !align) {
			notes.push_back(Note(Code::INCORRECT_CLOSED_CAPTION_ORDERING));
		}
		if (p.interop) {
			continue;
		}
		if (subtitle_lines.most > 3) {
			notes.push_back(Note(Code::INVALID_SUBTITLE_LINE_COUNT));
		}
		if (subtitle_lines.longest > 79) {
			notes.push_back(Note(Code::INVALID_SUBTITLE_LINE_LENGTH));
		} else if (subtitle_lines.longest > 52) {
			notes.push_back(Note(Code::NEARLY_INVALID_SUBTITLE_LINE_LENGTH));
		}
		if (caption_lines.most > 3) {
			notes.push_back(Note(Code::INVALID_CLOSED_CAPTION_LINE_COUNT));
		}
		if (caption_lines.longest > 32) {
			notes.push_back(Note(Code::INVALID_CLOSED_CAPTION_LINE_LENGTH));
		}

		/* The composition as a whole */
		if (cpl.metadata && cpl.sound_configuration != "51/L,Q" && channels && *channels != 6) {
			notes.push_back(Note(Code::INVALID_MAIN_SOUND_CONFIGURATION, file).set_cpl_id(cpl_id).set_error("e"));
		}
		if (cpl.metadata && cpl.sound_configuration == "71/L,R,C,LFE,Lss,Rss,Lrs,Rrs") {
			mc::violation("the harness does not expect that");
		}
		if (subtitles && no_subtitles) {
			notes.push_back(Note(Code::MISSING_MAIN_SUBTITLE_FROM_SOME_REELS));
		}
		if (fewest != most) {
			notes.push_back(Note(Code::MISMATCHED_CLOSED_CAPTION_ASSET_COUNTS));
		}
		if (cpl.kind == "feature" || cpl.kind == "Feature") {
			if (!markers.count("FFEC")) {
				notes.push_back(Note(Code::MISSING_FFEC_IN_FEATURE));
			}
			if (!markers.count("FFMC")) {
				notes.push_back(Note(Code::MISSING_FFMC_IN_FEATURE));
			}
		}
		auto frames = [&](int n) {
			return dcp::Time(n, p.rate, p.rate);
		};
		if (!markers.count("FFOC")) {
			notes.push_back(Note(Code::MISSING_FFOC));
		} else if (markers["FFOC"] != 1) {
			notes.push_back(Note(Code::INCORRECT_FFOC).set_time(frames(markers["FFOC"])));
		}
		if (!markers.count("LFOC")) {
			notes.push_back(Note(Code::MISSING_LFOC));
		} else {
			if (markers["LFOC"] != length(cpl.reels.back()) - 1) {
				notes.push_back(Note(Code::INCORRECT_LFOC).set_time(frames(markers["LFOC"])));
			}
		}
		if (!cpl.metadata) {
			notes.push_back(Note(Code::MISSING_CPL_METADATA, file).set_cpl_id(cpl_id));
		} else {
			if (!cpl.version_number) {
				notes.push_back(Note(Code::MISSING_CPL_METADATA_VERSION_NUMBER, file).set_cpl_id(cpl_id));
			}
			if (cpl.extension == "none" || cpl.extension == "scope") {
				notes.push_back(Note(Code::MISSING_EXTENSION_METADATA, file).set_cpl_id(cpl_id));
			} else if (cpl.extension != "2.0" && cpl.extension != "2.1") {
				notes.push_back(Note(Code::INVALID_EXTENSION_METADATA, file).set_error("e"));
			}
		}
	}

	/* A packing list with one CPL has its title */
	for (int k = 0; k < pkls; ++k) {
		int number = 0, which = 0;
		for (int c = 0; c < int(p.cpls.size()); ++c) {
			if ((p.pkl_of.empty() ? 0 : p.pkl_of[c]) == k) {
				++number;
				which = c;
			}
		}
		optional<string> annotation;
		if (p.pkl_annotation) {
			annotation = *p.pkl_annotation + (k ? mc::format("%d", k) : "");
		}
		bool const duplicate = p.duplicate_in_pkl && k == 0;
		if (number == 1 && !duplicate && (!annotation || *annotation != p.cpls[which].title)) {
			notes.push_back(Note(Code::MISMATCHED_PKL_ANNOTATION_TEXT_WITH_CPL, mc::format("pkl%d.xml", k)).set_pkl_id(id('P', k)));
		}
		if (number != 1 || duplicate || (annotation && *annotation == p.cpls[which].title)) {
			notes.push_back(Note(Code::MATCHING_PKL_ANNOTATION_TEXT_WITH_CPL));
		}
	}

	return notes;
}

static vector<dcp::VerificationNote> run(Package const& p, vector<fs::path> dirs, Made const& made)
{
	vector<dcp::DecryptedKDM> kdms;
	if (p.keys) {
		dcp::DecryptedKDM kdm(dcp::LocalTime("2012-07-17T04:45:18+00:00"), dcp::LocalTime("2032-07-17T04:45:18+00:00"), "a", "b", "2012-07-17T04:45:18+00:00");
		for (int c = 0; c < int(p.cpls.size()); ++c) {
			kdm.add_key(string("MDIK"), key_id, the_key, id('C', c), dcp::Standard::SMPTE);
		}
		kdms.push_back(kdm);
	}
	dcp::VerificationOptions options;
	options.check_asset_hashes = p.check_hashes;
	options.check_picture_details = p.check_details;
	if (p.maximum_size) {
		options.maximum_asset_size_for_hash_check = made.sizes.at(id('p', 0, 0)) + *p.maximum_size;
	}
	validated.clear();
	auto const notes = dcp::verify(dirs, kdms, [](string, optional<fs::path>) {}, [](float) {}, options, fs::path("/repo/xsd")).notes;
	if (std::none_of(notes.begin(), notes.end(), [](dcp::VerificationNote const& n) { return n.code() == Code::INVALID_XML; })) {
		known_valid.insert(validated.begin(), validated.end());
	}
	return notes;
}

static void check(Package const& p, string const& what)
{
	auto const dir = fs::path(mc::scratch()) / "dcp";
	fs::remove_all(dir);
	fs::create_directories(dir);
	auto const made = make(p, dir);
	vector<dcp::VerificationNote> notes;
	try {
		notes = run(p, {dir}, made);
	} catch (std::exception& e) {
		mc::violation(mc::format("%s: verify() threw %s", what.c_str(), e.what()));
		return;
	}
	set<string> got, want;
	bool valign = false;
	for (auto const& n: notes) {
		valign = valign || n.code() == Code::MISMATCHED_CLOSED_CAPTION_VALIGN;
	}
	for (auto const& n: notes) {
		if (n.code() == Code::THREED_ASSET_MARKED_AS_TWOD && p.interop) {
			/* asdcplib cannot tell */
			continue;
		}
		if (n.code() == Code::INCORRECT_CLOSED_CAPTION_ORDERING && valign) {
			/* The order of captions with different alignments is not judged */
			continue;
		}
		auto d = describe(n);
		MC_CHECK(!dcp::note_to_string(n).empty(), "%s: %s cannot be put into words", what.c_str(), d.c_str());
		if (d.substr(0, 21) == "INVALID_JPEG2000_RSIZ" || d.substr(0, 27) == "MISSING_JPEG2000_TLM_MARKER" || d.substr(0, 22) == "INVALID_JPEG2000_GUARD") {
			/* Said once, not once for each frame */
			d += mc::format(" reel=%d", n.reel_index().get_value_or(-1));
			MC_CHECK(!got.count(d), "%s: verify() says %s more than once", what.c_str(), d.c_str());
		}
		got.insert(d);
		mc::transition();
	}
	for (auto const& n: expected(p, made)) {
		auto d = describe(n);
		if (d.substr(0, 21) == "INVALID_JPEG2000_RSIZ" || d.substr(0, 27) == "MISSING_JPEG2000_TLM_MARKER" || d.substr(0, 22) == "INVALID_JPEG2000_GUARD") {
			d += mc::format(" reel=%d", n.reel_index().get_value_or(-1));
		}
		want.insert(d);
	}
	if (!p.keys) {
		/* How big encrypted frames are is not judged */
		for (auto const& r: p.cpls[0].reels) {
			if (r.picture && r.picture->encrypted && r.picture->bytes) {
				return;
			}
		}
	}
	mc::trace();
	string all;
	for (auto const& i: got) {
		MC_CHECK(want.count(i), "%s: verify() says %s", what.c_str(), i.c_str());
		all += i + "\n";
	}
	for (auto const& i: want) {
		MC_CHECK(got.count(i), "%s: verify() does not say %s", what.c_str(), i.c_str());
	}
	mc::state(all);
	mc::outcome(all);
	if (mc::want_sample("package")) {
		string firsts;
		for (auto const& i: got) {
			firsts += i.substr(0, i.find(' ')) + " ";
		}
		mc::sample("package", what + ": " + firsts);
	}
}

/*
 * The packages and the changes
 */

static Package good(int reels, int frames, bool texts, int captions)
{
	Package p;
	p.cpls.resize(1);
	auto& cpl = p.cpls[0];
	for (int r = 0; r < reels; ++r) {
		Reel reel;
		auto set_up = [&](Ref& ref) {
			ref.intrinsic = frames;
			ref.duration = int64_t(frames);
		};
		reel.picture = Picture();
		set_up(*reel.picture);
		reel.picture->real = int64_t(8);
		reel.sound = Sound();
		set_up(*reel.sound);
		reel.sound->real = int64_t(1);
		Text text;
		set_up(text);
		text.subs = {
			{ 100, 120, { { "Hello", 80, "top" }, { "world", 90, "top" } } },
			{ 122, 140, { { "Goodbye", 20, "bottom" } } }
		};
		if (texts) {
			reel.subtitle = text;
		}
		for (int i = 0; i < captions; ++i) {
			reel.captions.push_back(text);
		}
		if (r == 0) {
			reel.markers["FFOC"] = 1;
		}
		if (r == reels - 1) {
			reel.markers["LFOC"] = frames - 1;
		}
		reel.has_markers = !reel.markers.empty();
		cpl.reels.push_back(reel);
	}
	return p;
}

struct Change
{
	string name;
	function<void (Package&)> make;
};

static vector<Change> changes_to_cpl()
{
	vector<Change> c;
#define CHANGE(NAME, ...) c.push_back({ NAME, [](Package& p) { auto& cpl = p.cpls[0]; (void) cpl; __VA_ARGS__; } })
	CHANGE("no annotation", cpl.annotation = boost::none);
	CHANGE("other annotation", cpl.annotation = string("A test DCP"));
	CHANGE("other title", cpl.title = "Another");
	CHANGE("other PKL annotation", p.pkl_annotation = string("x"));
	CHANGE("no PKL annotation", p.pkl_annotation = boost::none);
	CHANGE("feature", cpl.kind = "feature");
	CHANGE("complete feature", cpl.kind = "feature"; cpl.reels[0].has_markers = true; cpl.reels[0].markers["FFEC"] = 5; cpl.reels.back().has_markers = true; cpl.reels.back().markers["FFMC"] = 7);
	CHANGE("FFMC only", cpl.kind = "feature"; cpl.reels[0].markers["FFMC"] = 5);
	CHANGE("upper case", cpl.kind = "TeaSer");
	CHANGE("unknown kind", cpl.kind = "cartoon");
	CHANGE("unknown kind with scope", cpl.kind = "cartoon"; cpl.kind_scope = string("http://example.com/"));
	CHANGE("unknown kind with standard scope", cpl.kind = "cartoon"; cpl.kind_scope = string("http://www.smpte-ra.org/schemas/429-7/2006/CPL#standard-content"));
	CHANGE("empty version", cpl.version = string(""));
	CHANGE("no version", cpl.version = boost::none);
	CHANGE("wrong CPL hash", cpl.wrong_hash = true);
	CHANGE("duplicate in PKL", p.duplicate_in_pkl = true);
	CHANGE("duplicate in map", p.duplicate_in_map = true);
	CHANGE("empty path", p.empty_path = true);
	CHANGE("no hash checks", p.check_hashes = false);
	CHANGE("no picture details", p.check_details = false);
	CHANGE("hash of picture of maximum size", p.maximum_size = 0);
	CHANGE("hash of picture of more than maximum size", p.maximum_size = -1);
	CHANGE("no markers", cpl.reels[0].has_markers = false; cpl.reels.back().has_markers = false);
	CHANGE("FFOC 0", cpl.reels[0].markers["FFOC"] = 0);
	CHANGE("FFOC 2", cpl.reels[0].markers["FFOC"] = 2);
	CHANGE("LFOC early", --cpl.reels.back().markers["LFOC"]);
	CHANGE("LFOC late", ++cpl.reels.back().markers["LFOC"]);
	CHANGE("disorder in CPL", cpl.disorder = true);
	CHANGE("extra element in PKL", p.pkl_element = "Extra");
	CHANGE("extra element in map", p.map_element = "Extra");
	CHANGE("territory", cpl.territory = string("GB"));
	CHANGE("territory 001", cpl.territory = string("001"));
	CHANGE("bad territory", cpl.territory = string("UK"));
	CHANGE("bad territory in another scope", cpl.territory = string("826"); cpl.territory_scope = string("http://www.smpte-ra.org/schemas/429-16/2014/CPL-Metadata#scope/release-territory/UNM49"));
	CHANGE("bad language", cpl.languages = {"de", "xx-bad"});
	CHANGE("no metadata", cpl.metadata = false);
	CHANGE("no version number", cpl.version_number = boost::none);
	CHANGE("no extension metadata", cpl.extension = "none");
	CHANGE("extension metadata of another scope", cpl.extension = "scope");
	CHANGE("extension metadata name", cpl.extension = "name");
	CHANGE("extension metadata property", cpl.extension = "property");
	CHANGE("extension metadata value", cpl.extension = "value");
	CHANGE("Bv2.0", cpl.extension = "2.0");
	CHANGE("bad sound configuration", cpl.sound_configuration = "51/L,Q");
	CHANGE("odd width", cpl.active.width = 1997);
	CHANGE("odd height", cpl.active.height = 1079);
	CHANGE("small area", cpl.active = dcp::Size(2, 2));
	CHANGE("wide area", cpl.active.width = 2000);
	CHANGE("high area", cpl.active.height = 1082);
	CHANGE("marker entry point", cpl.reels[0].marker_entry = true);
	CHANGE("marker duration", cpl.reels[0].marker_duration = true);
	CHANGE("signed", cpl.is_signed = true);
	CHANGE("PKL signed", p.pkl_signed = true);
	return c;
#undef CHANGE
}

template <class T>
static void changes_to_ref(vector<Change>& c, string name, function<T& (Package&)> get)
{
#define CHANGE(NAME, ...) c.push_back({ name + " " + NAME, [get](Package& p) { auto& a = get(p); (void) a; __VA_ARGS__; } })
	CHANGE("no hash", a.hash = false);
	CHANGE("wrong CPL hash", a.wrong_cpl = true);
	CHANGE("wrong PKL hash", a.wrong_pkl = true);
	CHANGE("wrong hash", a.wrong_both = true);
	CHANGE("external", a.external = true);
	CHANGE("missing", a.missing = true);
	CHANGE("another id in the map", a.wrong_map_id = true);
	CHANGE("encrypted", a.encrypted = true);
	CHANGE("no duration", a.duration = boost::none);
	CHANGE("short duration", a.duration = int64_t(23));
	CHANGE("duration one less", a.duration = a.duration.get_value_or(a.intrinsic) - 1);
	CHANGE("just long enough", a.duration = int64_t(24));
	CHANGE("no entry point", a.entry = boost::none);
#undef CHANGE
}

static void changes_to_picture(vector<Change>& c, int r)
{
	auto get = [r](Package& p) -> Picture& { return *p.cpls[0].reels[r].picture; };
	auto const name = mc::format("picture %d", r);
	changes_to_ref<Picture>(c, name, get);
#define CHANGE(NAME, ...) c.push_back({ name + " " + NAME, [get](Package& p) { auto& a = get(p); __VA_ARGS__; } })
	CHANGE("scope", a.size = dcp::Size(2048, 858));
	CHANGE("square", a.size = dcp::Size(2048, 1080));
	CHANGE("4K", a.size = dcp::Size(3996, 2160));
	CHANGE("4K scope", a.size = dcp::Size(4096, 1716));
	CHANGE("3D", a.stereo = true);
	CHANGE("3D 4K", a.stereo = true; a.size = dcp::Size(3996, 2160));
	CHANGE("frame rate 23", a.frame_rate = dcp::Fraction(23, 1));
	CHANGE("frame rate 24/2", a.frame_rate = dcp::Fraction(24, 2));
	CHANGE("frame rate 60", a.frame_rate = dcp::Fraction(60, 1));
	CHANGE("rsiz", a.fault = "rsiz");
	CHANGE("no TLM", a.fault = "tlm");
	CHANGE("guard bits", a.fault = "guard");
	CHANGE("not a codestream", a.fault = "junk");
	CHANGE("largest safe frame", a.bytes = 1197917; a.which = 3);
	CHANGE("smallest unsafe frame", a.bytes = 1197918; a.which = 0);
	CHANGE("largest frame", a.bytes = 1302083; a.which = 5);
	CHANGE("frame too big", a.bytes = 1302084; a.which = 7);
#undef CHANGE
}

static void changes_to_sound(vector<Change>& c, int r)
{
	auto get = [r](Package& p) -> Sound& { return *p.cpls[0].reels[r].sound; };
	auto const name = mc::format("sound %d", r);
	changes_to_ref<Sound>(c, name, get);
#define CHANGE(NAME, ...) c.push_back({ name + " " + NAME, [get](Package& p) { auto& a = get(p); __VA_ARGS__; } })
	CHANGE("8 channels", a.channels = 8);
	CHANGE("96kHz", a.rate = 96000);
#undef CHANGE
}

static void changes_to_text(vector<Change>& c, string name, function<Text& (Package&)> get)
{
	changes_to_ref<Text>(c, name, get);
#define CHANGE(NAME, ...) c.push_back({ name + " " + NAME, [get](Package& p) { auto& a = get(p); __VA_ARGS__; } })
	CHANGE("no language", a.language = boost::none);
	CHANGE("other language", a.language = string("fr-FR"));
	CHANGE("bad language", a.language = string("xx-bad"));
	CHANGE("bad reference language", a.reference_language = string("xx-bad"));
	CHANGE("good reference language", a.reference_language = string("de"));
	CHANGE("no start time", a.start = boost::none);
	CHANGE("start time", a.start = 1);
	CHANGE("entry point", a.entry = int64_t(1));
	CHANGE("early", a.subs[0].in = 95);
	CHANGE("just not early", a.subs[0].in = 96);
	CHANGE("no length", a.subs[1].out = a.subs[1].in);
	CHANGE("negative length", a.subs[1].out = a.subs[1].in - 1);
	CHANGE("short", a.subs[0].out = a.subs[0].in + 14; a.subs[0].in = a.subs[0].out - 14);
	CHANGE("just long", a.subs[1].out = a.subs[1].in + 15);
	CHANGE("close", a.subs[1].in = a.subs[0].out + 1);
	CHANGE("touching", a.subs[1].in = a.subs[0].out);
	CHANGE("to the end", a.subs[1].out = 144);
	CHANGE("over the end", a.subs[1].out = 145);
	CHANGE("empty text", a.subs[1].lines[0].text = "");
	CHANGE("no font", a.load_font = false);
	CHANGE("issue date", a.issue_date = "2018-10-02T12:25:14+02:00");
	CHANGE("namespaces", a.another_namespace = true);
	CHANGE("resource id", a.wrong_resource_id = true);
	CHANGE("asset id", a.same_asset_id = true);
	CHANGE("three lines", a.subs[0].lines.push_back({ "a", 95, "top" }));
	CHANGE("four lines", a.subs[0].lines.push_back({ "a", 95, "top" }); a.subs[0].lines.push_back({ "b", 97, "top" }));
	CHANGE("32 characters", a.subs[0].lines[0].text = string(32, 'x'));
	CHANGE("33 characters", a.subs[0].lines[0].text = string(33, 'x'));
	CHANGE("52 characters", a.subs[0].lines[0].text = string(52, 'x'));
	CHANGE("53 characters", a.subs[0].lines[0].text = string(53, 'x'));
	CHANGE("79 characters", a.subs[0].lines[0].text = string(79, 'x'));
	CHANGE("80 characters", a.subs[0].lines[0].text = string(80, 'x'));
	CHANGE("alignments", a.subs[0].lines[1].align = "bottom");
	CHANGE("order", a.subs[0].lines[1].position = 70);
	CHANGE("bottom", a.subs[0].lines[0].align = "bottom"; a.subs[0].lines[1].align = "bottom"; a.subs[0].lines[1].position = 70);
	CHANGE("bottom order", a.subs[0].lines[0].align = "bottom"; a.subs[0].lines[1].align = "bottom");
	CHANGE("256KB", a.padding = 262144 - 5000);
	CHANGE("more than 256KB", a.padding = 262144);
	CHANGE("other duration", a.real = int64_t(143));
#undef CHANGE
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	dcp::init();
	/* so that it is not done again for each validation */
	xercesc::XMLPlatformUtils::Initialize();
	pool = fs::path(mc::scratch()) / "pool";
	fs::create_directories(pool);

	uint64_t unit = 0;

	struct Base
	{
		string name;
		Package package;
		vector<Change> changes;
		/** whether to make all pairs of changes */
		bool pairs;
	};
	vector<Base> bases;

	/* One reel with nothing but picture and sound */
	{
		Base b{ "plain", good(1, 24, false, 0), changes_to_cpl(), true };
		changes_to_picture(b.changes, 0);
		changes_to_sound(b.changes, 0);
		bases.push_back(b);
	}

	/* Two reels with subtitles and captions */
	{
		Base b{ "text", good(2, 144, true, 2), mc::thorough() ? changes_to_cpl() : vector<Change>(), false };
		for (int r = 0; r < 2; ++r) {
			changes_to_picture(b.changes, r);
			changes_to_sound(b.changes, r);
			changes_to_text(b.changes, mc::format("subtitle %d", r), [r](Package& p) -> Text& { return *p.cpls[0].reels[r].subtitle; });
			changes_to_text(b.changes, mc::format("caption %d", r), [r](Package& p) -> Text& { return p.cpls[0].reels[r].captions[1]; });
			b.changes.push_back({ mc::format("no subtitle %d", r), [r](Package& p) { p.cpls[0].reels[r].subtitle = boost::none; } });
			b.changes.push_back({ mc::format("fewer captions %d", r), [r](Package& p) { p.cpls[0].reels[r].captions.pop_back(); } });
		}
		b.changes.push_back({ "all encrypted", [](Package& p) { each(p, [](Ref& r, char, int, int, int) { r.encrypted = true; }); } });
		b.changes.push_back({ "all encrypted with keys", [](Package& p) { p.keys = true; each(p, [](Ref& r, char, int, int, int) { r.encrypted = true; }); } });
		b.changes.push_back({ "font too big", [](Package& p) { p.cpls[0].reels[0].subtitle->font_size = 10 * 1024 * 1024 + 1; } });
		b.changes.push_back({ "largest font", [](Package& p) { p.cpls[0].reels[0].subtitle->font_size = 10 * 1024 * 1024; } });
		bases.push_back(b);
	}

	/* 3D */
	{
		auto p = good(2, 24, false, 0);
		for (auto& r: p.cpls[0].reels) {
			r.picture->stereo = true;
		}
		Base b{ "3D", p, mc::thorough() ? changes_to_cpl() : vector<Change>(), false };
		changes_to_picture(b.changes, 0);
		changes_to_picture(b.changes, 1);
		bases.push_back(b);
	}

	/* Other frame rates */
	for (auto rate: { 25, 30, 48, 60 }) {
		auto p = good(2, 60, false, 0);
		p.rate = rate;
		Base b{ mc::format("%d fps", rate), p, {}, false };
		for (int r = 0; r < 2; ++r) {
			changes_to_picture(b.changes, r);
			b.changes.push_back({ mc::format("largest frame %d", r), [r, rate](Package& p) { p.cpls[0].reels[r].picture->bytes = lrint(250e6 / 8 / rate); } });
			b.changes.push_back({ mc::format("too large frame %d", r), [r, rate](Package& p) { p.cpls[0].reels[r].picture->bytes = lrint(250e6 / 8 / rate) + 1; } });
			b.changes.push_back({ mc::format("largest safe frame %d", r), [r, rate](Package& p) { p.cpls[0].reels[r].picture->bytes = lrint(230e6 / 8 / rate); } });
			b.changes.push_back({ mc::format("too large safe frame %d", r), [r, rate](Package& p) { p.cpls[0].reels[r].picture->bytes = lrint(230e6 / 8 / rate) + 1; } });
			b.changes.push_back({ mc::format("just long enough %d", r), [r, rate](Package& p) { p.cpls[0].reels[r].picture->duration = int64_t(rate); } });
			b.changes.push_back({ mc::format("too short %d", r), [r, rate](Package& p) { p.cpls[0].reels[r].picture->duration = int64_t(rate - 1); } });
		}
		bases.push_back(b);
	}

	/* Encrypted, signed and with or without keys */
	for (int keys = 0; keys < 2; ++keys) {
		auto p = good(2, 144, true, 1);
		each(p, [](Ref& r, char, int, int, int) { r.encrypted = true; });
		p.keys = keys;
		p.cpls[0].is_signed = p.pkl_signed = true;
		p.check_hashes = false;
		Base b{ keys ? "encrypted with keys" : "encrypted", p, mc::thorough() ? changes_to_cpl() : vector<Change>(), false };
		changes_to_picture(b.changes, 0);
		changes_to_sound(b.changes, 0);
		changes_to_text(b.changes, "subtitle", [](Package& p) -> Text& { return *p.cpls[0].reels[1].subtitle; });
		changes_to_text(b.changes, "caption", [](Package& p) -> Text& { return p.cpls[0].reels[0].captions[0]; });
		b.changes.push_back({ "CPL not signed", [](Package& p) { p.cpls[0].is_signed = false; } });
		b.changes.push_back({ "PKL not signed", [](Package& p) { p.pkl_signed = false; } });
		b.changes.push_back({ "plain picture", [](Package& p) { p.cpls[0].reels[1].picture->encrypted = false; } });
		b.changes.push_back({ "plain sound", [](Package& p) { p.cpls[0].reels[0].sound->encrypted = false; } });
		b.changes.push_back({ "plain subtitle", [](Package& p) { p.cpls[0].reels[0].subtitle->encrypted = false; } });
		b.changes.push_back({ "plain caption", [](Package& p) { p.cpls[0].reels[1].captions[0].encrypted = false; } });
		b.changes.push_back({ "none encrypted", [](Package& p) { each(p, [](Ref& r, char, int, int, int) { r.encrypted = false; }); } });
		bases.push_back(b);
	}

	/* Interop */
	{
		auto p = good(2, 168, true, 1);
		p.interop = true;
		vector<Sub> const subs = {
			{ 24, 60, { { "Hello", 80, "top" }, { "world", 90, "top" } } },
			{ 96, 132, { { "Goodbye", 20, "bottom" } } }
		};
		for (auto& r: p.cpls[0].reels) {
			r.subtitle->subs = subs;
			r.captions[0].subs = subs;
		}
		Base b{ "Interop", p, changes_to_cpl(), false };
		changes_to_picture(b.changes, 0);
		changes_to_sound(b.changes, 1);
		for (int i = 0; i < 4; ++i) {
			auto const name = mc::format("text %d", i);
			function<Text& (Package&)> get = [i](Package& p) -> Text& { return i % 2 ? p.cpls[0].reels[i / 2].captions[0] : *p.cpls[0].reels[i / 2].subtitle; };
			{
				vector<Change> ref;
				changes_to_ref<Text>(ref, name, get);
				for (auto const& c: ref) {
					if (c.name.find("encrypted") == string::npos && c.name.find("another id") == string::npos) {
						b.changes.push_back(c);
					}
				}
			}
#define CHANGE(NAME, ...) b.changes.push_back({ name + " " + NAME, [get](Package& p) { auto& a = get(p); __VA_ARGS__; } })
			CHANGE("empty", a.subs.clear());
			CHANGE("one", a.subs.pop_back());
			CHANGE("no length", a.subs[0].out = a.subs[0].in);
			CHANGE("negative length", a.subs[0].out = a.subs[0].in - 12);
			CHANGE("short", a.subs[0].out = a.subs[0].in + 12);
			CHANGE("touching", a.subs[1].in = a.subs[0].out);
			CHANGE("to the end", a.subs[1].out = 168);
			CHANGE("over the end", a.subs[1].out = 180);
			CHANGE("at the start", a.subs[0].in = 0);
			CHANGE("empty text", a.subs[1].lines[0].text = "");
			CHANGE("no font", a.load_font = false);
			CHANGE("other font", a.font = "other");
			CHANGE("external font", a.external_font = true);
			CHANGE("namespaces", a.another_namespace = true);
			CHANGE("four lines", a.subs[0].lines.push_back({ "a", 95, "top" }); a.subs[0].lines.push_back({ "b", 97, "top" }));
			CHANGE("80 characters", a.subs[0].lines[0].text = string(80, 'x'));
			CHANGE("alignments", a.subs[0].lines[1].align = "bottom");
			CHANGE("order", a.subs[0].lines[1].position = 70);
			CHANGE("bottom", a.subs[0].lines[0].align = "bottom"; a.subs[0].lines[1].align = "bottom"; a.subs[0].lines[1].position = 70);
			CHANGE("bottom order", a.subs[0].lines[0].align = "bottom"; a.subs[0].lines[1].align = "bottom");
			CHANGE("more than 256KB", a.padding = 262144);
			CHANGE("entry point", a.entry = int64_t(1));
#undef CHANGE
		}
		bases.push_back(b);
	}

	for (auto const& b: bases) {
		auto const n = int(b.changes.size());
		for (int i = -1; i < n; ++i) {
			for (int j = i < 0 ? -1 : i; j < (i < 0 ? 0 : b.pairs ? n : i + 1); ++j) {
				if (!mc::mine(unit++)) {
					continue;
				}
				string const what = b.name + (i < 0 ? "" : ": " + b.changes[i].name) + (j == i ? "" : " and " + b.changes[j].name);
				if (!mc::at(what)) {
					continue;
				}
				auto p = b.package;
				if (i >= 0) {
					b.changes[i].make(p);
				}
				if (j != i) {
					b.changes[j].make(p);
				}
				check(p, what);
			}
		}
	}

	/* Exactly when two texts are, and a third in the next reel */
	{
		auto p = good(2, 144, true, 1);
		p.check_hashes = p.check_details = false;
		for (auto& r: p.cpls[0].reels) {
			r.picture->size = dcp::Size(64, 64);
			r.sound->channels = 1;
		}
		auto timing = [&](bool caption, int start, vector<Sub> first, vector<Sub> second) {
			auto q = p;
			auto& a = caption ? q.cpls[0].reels[0].captions[0] : *q.cpls[0].reels[0].subtitle;
			auto& b = caption ? q.cpls[0].reels[1].captions[0] : *q.cpls[0].reels[1].subtitle;
			for (auto& s: first) {
				s.in += start;
				s.out += start;
			}
			a.start = start;
			a.subs = first;
			b.subs = second;
			string what = mc::format("%s from %d:", caption ? "captions" : "subtitles", start);
			for (auto const& s: first) {
				what += mc::format(" %d-%d", s.in, s.out);
			}
			what += ",";
			for (auto const& s: second) {
				what += mc::format(" %d-%d", s.in, s.out);
			}
			if (mc::at(what)) {
				check(q, what);
			}
		};
		vector<Line> const line = { { "x", 80, "top" } };
		for (auto caption: { false, true }) {
			for (auto start: { 0, 24 }) {
				for (auto in: { 95, 96 }) {
					for (auto length: { -1, 0, 1, 14, 15, 16 }) {
						for (auto gap: { -1, 0, 1, 2, 3 }) {
							for (auto second: { 0, 1, 14, 15 }) {
								if (mc::mine(unit++)) {
									timing(caption, start, { { in, in + length, line }, { in + length + gap, in + length + gap + second, line } }, { { 20, 40, line } });
								}
							}
						}
					}
				}
				for (auto out: { 142, 143, 144, 145, 168 }) {
					for (auto in: { 0, 1, 2, 3, 24, 26 }) {
						for (auto end: { 143, 144, 145 }) {
							if (mc::mine(unit++)) {
								timing(caption, start, { { 100, out, line } }, { { in, in + 20, line }, { 100, end, line } });
							}
						}
					}
				}
			}
		}
	}

	/* Several CPLs and packing lists, with different titles */
	{
		auto const p = good(1, 24, false, 0);
		vector<string> const titles = { "A Test DCP", "A Test DCP1", "A Test DCP2", "Another" };
		for (int n = 1; n <= 3; ++n) {
			int combinations = 1;
			for (int i = 0; i < n; ++i) {
				combinations *= titles.size() * 3;
			}
			for (int k = 0; k < combinations; ++k) {
				auto q = p;
				string what = "CPLs";
				int highest = -1;
				bool valid = true;
				for (int i = 0, left = k; i < n; ++i, left /= titles.size() * 3) {
					auto cpl = p.cpls[0];
					cpl.title = titles[left % titles.size()];
					cpl.annotation = cpl.title;
					int const pkl = (left / titles.size()) % 3;
					/* In order of first mention */
					valid = valid && pkl <= highest + 1;
					highest = std::max(highest, pkl);
					q.pkl_of.push_back(pkl);
					if (i) {
						q.cpls.push_back(cpl);
					} else {
						q.cpls[0] = cpl;
					}
					what += " " + cpl.title + mc::format(" in %d", pkl);
				}
				if (valid && mc::mine(unit++) && mc::at(what)) {
					check(q, what);
				}
			}
		}
	}

	/* Values which the schemas do not allow */
	for (int interop = 0; interop < 2; ++interop) {
		auto p = good(1, 24, false, 0);
		p.interop = interop;
		vector<string> const files = { interop ? "ASSETMAP" : "ASSETMAP.xml", "pkl0.xml", "cpl0.xml" };
		vector<std::pair<string, string>> const values = {
			{ "<IssueDate>", "yesterday" }, { "<IssueDate>", "2012-13-01T00:00:00+00:00" }, { "<Id>", "urn:uuid:1234" }, { "<EditRate>", "24" },
			{ "<IntrinsicDuration>", "many" }, { "<Size>", "-1" }, { "<VolumeIndex>", "0" }, { "<VolumeCount>", "0" }, { "<Hash>", "!" }
		};
		for (auto const& f: files) {
			for (auto const& v: values) {
				if (!mc::mine(unit++) || !mc::at(mc::format("%s%s%s in %s", interop ? "Interop " : "", v.first.c_str(), v.second.c_str(), f.c_str()))) {
					continue;
				}
				auto const dir = fs::path(mc::scratch()) / "dcp";
				fs::remove_all(dir);
				fs::create_directories(dir);
				auto const made = make(p, dir);
				auto text = assets::slurp((dir / f).string());
				auto const start = text.find(v.first);
				if (start == string::npos) {
					continue;
				}
				auto const value = start + v.first.size();
				text.replace(value, text.find('<', value) - value, v.second);
				assets::put((dir / f).string(), text);
				always_validate = true;
				bool said = false;
				try {
					for (auto const& n: run(p, {dir}, made)) {
						said = said || n.code() == Code::INVALID_XML || n.code() == Code::FAILED_READ;
					}
				} catch (std::exception& e) {
					mc::violation(mc::format("verify() threw %s with %s%s in %s", e.what(), v.first.c_str(), v.second.c_str(), f.c_str()));
				}
				always_validate = false;
				mc::trace();
				mc::transition();
				MC_CHECK(said, "%s%s in %s is not said to be invalid", v.first.c_str(), v.second.c_str(), f.c_str());
			}
		}
	}

	/* Several packages at once are as each by itself */
	{
		auto make_one = [](int which) {
			auto p = good(1, 24, false, 0);
			auto& cpl = p.cpls[0];
			switch (which) {
			case 1: cpl.reels[0].picture->wrong_both = true; break;
			case 2: cpl.reels[0].sound->wrong_cpl = true; break;
			case 3: cpl.reels[0].sound->channels = 8; break;
			case 4: cpl.reels[0].picture->external = true; break;
			case 5: cpl.reels[0].picture->fault = "guard"; break;
			case 6: cpl.wrong_hash = true; break;
			case 7: p.interop = true; break;
			case 8: cpl.reels[0].sound->encrypted = true; break;
			case 9: p = good(2, 144, true, 1); p.cpls[0].reels[0].subtitle->language = string("fr"); p.cpls[0].reels[1].subtitle->language = string("fr"); break;
			case 10: p = good(2, 144, true, 1); break;
			case 11: p.duplicate_in_map = true; break;
			}
			return p;
		};
		int const kinds = 12;
		auto directory = [](int n) { return fs::path(mc::scratch()) / mc::format("dcp%d", n); };
		for (int i = 0; i < kinds; ++i) {
			for (int j = 0; j < kinds; ++j) {
				if (!mc::mine(unit++) || !mc::at("packages", {i, j})) {
					continue;
				}
				vector<vector<dcp::VerificationNote>> alone;
				vector<fs::path> both;
				for (int k = 0; k < 2; ++k) {
					auto const p = make_one(k ? j : i);
					fs::remove_all(directory(k));
					fs::create_directories(directory(k));
					auto const made = make(p, directory(k));
					alone.push_back(run(p, {directory(k)}, made));
					both.push_back(directory(k));
				}
				auto const together = run(make_one(0), both, Made());
				std::multiset<string> want, got;
				for (auto const& a: alone) {
					for (auto const& n: a) {
						want.insert(describe(n));
					}
				}
				for (auto const& n: together) {
					got.insert(describe(n));
					mc::transition();
				}
				mc::trace();
				for (auto const& k: want) {
					MC_CHECK(got.count(k) == want.count(k) || k.find("JPEG2000") != string::npos, "verify() of two packages says %s %d times, and of each by itself %d times", k.c_str(), int(got.count(k)), int(want.count(k)));
				}
				for (auto const& k: got) {
					MC_CHECK(want.count(k), "verify() of two packages says %s", k.c_str());
				}
			}
		}
	}

	mc::finish();
}
