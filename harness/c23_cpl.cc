/* C23: composition playlists written and read.  A model of a CPL is written by the harness as XML in its own way, and
 * compared in a canonical form with what the library writes.
 */

#include "cpl.h"
#include "exceptions.h"
#include "language_tag.h"
#include "reel.h"
#include "reel_atmos_asset.h"
#include "reel_interop_text_asset.h"
#include "reel_markers_asset.h"
#include "reel_mono_picture_asset.h"
#include "reel_smpte_text_asset.h"
#include "reel_sound_asset.h"
#include "reel_stereo_picture_asset.h"
#include "mc.h"
#include "xmlref.h"
#include <fstream>
#include <sstream>

using std::shared_ptr;
using std::string;
using std::vector;
using boost::optional;
using xmlref::escape;
using xmlref::nest;
using xmlref::tag;
typedef optional<string> OS;

enum Kind { MARKERS, MONO, SOUND, SUBTITLE, CAPTION, CLOSED_SUBTITLE, CLOSED_CAPTION, STEREO, ATMOS };

static string uuid(int n)
{
	return mc::format("%08x-1234-4abc-8def-0123456789ab", n);
}

struct AssetM
{
	Kind kind;
	string id;
	OS annotation;
	string edit_rate = "24 1";
	int64_t intrinsic = 240;
	optional<int64_t> entry;
	optional<int64_t> duration;
	OS key;
	OS hash;
	OS language;
	string frame_rate = "24 1";
	string ratio = "1998 1080";
	OS ratio_out;
	std::map<dcp::Marker, int> markers;

	AssetM(Kind k, int n) : kind(k), id(uuid(n)) {}
};

struct ReelM
{
	string id;
	vector<AssetM> assets;
	AssetM* find(Kind k) {
		for (auto& i: assets) {
			if (i.kind == k) {
				return &i;
			}
		}
		return nullptr;
	}
};

struct CPLM
{
	dcp::Standard standard;
	string id = uuid(1);
	OS annotation = string("annotation");
	string issue_date = "2020-08-28T13:35:06+02:00";
	string issuer = "issuer";
	string creator = "creator";
	string title = "title";
	string kind = "feature";
	OS kind_scope;
	vector<std::pair<string, string>> versions = { { "urn:uuid:" + uuid(2), "label" } };
	vector<std::pair<string, string>> ratings;
	vector<ReelM> reels;
	bool meta = false;
	string meta_id = uuid(3);
	string meta_edit_rate = "24 1";
	int64_t meta_intrinsic = 240;
	OS full_title;
	OS full_title_language;
	OS territory;
	OS territory_scope;
	optional<int> version;
	optional<dcp::Status> status;
	OS chain, distributor, facility;
	optional<dcp::Luminance> luminance;
	string luminance_text;
	string configuration = "51/L,R,C,LFE,Ls,Rs";
	int sample_rate = 48000;
	dcp::Size stored = dcp::Size(1998, 1080);
	dcp::Size active = dcp::Size(1998, 1080);
	vector<string> languages;
	OS sign_language;
	OS edr;
	bool mca = false;

	/** Language of the first subtitle, which goes at the head of the list */
	OS first_language() const {
		for (auto const& r: reels) {
			for (auto const& a: r.assets) {
				if (a.kind == SUBTITLE && a.language) {
					return a.language;
				}
			}
		}
		return {};
	}
};

static string property(string scope, string name, string tag_name, string value)
{
	return nest("m:ExtensionMetadata scope=\"" + scope + "\"", tag("m:Name", name) + nest("m:PropertyList", nest("m:Property", tag("m:Name", tag_name) + tag("m:Value", value))));
}

static string write(AssetM const& a, dcp::Standard standard, bool out)
{
	bool const smpte = standard == dcp::Standard::SMPTE;
	string const tt = smpte ? " xmlns:t=\"http://www.smpte-ra.org/schemas/429-12/2008/TT\"" : " xmlns:t=\"http://www.digicine.com/PROTO-ASDCP-CC-CPL-20070926#\"";
	string const stereo = smpte ? " xmlns:s=\"http://www.smpte-ra.org/schemas/429-10/2008/Main-Stereo-Picture-CPL\"" : " xmlns:s=\"http://www.digicine.com/schemas/437-Y/2007/Main-Stereo-Picture-CPL\"";
	string const name[] = {
		"MainMarkers", "MainPicture", "MainSound", "MainSubtitle", "t:MainCaption" + tt, "t:ClosedSubtitle" + tt, (smpte ? "t:ClosedCaption" : "t:MainClosedCaption") + tt,
		"s:MainStereoscopicPicture" + stereo, "a:AuxData xmlns:a=\"http://www.dolby.com/schemas/2012/AD\""
	};
	auto c = tag("Id", "urn:uuid:" + a.id);
	if (a.annotation && !(out && a.annotation->empty())) {
		c += tag("AnnotationText", *a.annotation);
	}
	c += tag("EditRate", a.edit_rate);
	c += tag("IntrinsicDuration", mc::format("%lld", (long long) a.intrinsic));
	if (a.entry) {
		c += tag("EntryPoint", mc::format("%lld", (long long) *a.entry));
	}
	if (a.duration) {
		c += tag("Duration", mc::format("%lld", (long long) *a.duration));
	}
	if (a.key) {
		c += tag("KeyId", "urn:uuid:" + *a.key);
	}
	if (a.hash) {
		c += tag("Hash", *a.hash);
	}
	switch (a.kind) {
	case MARKERS:
	{
		string m;
		for (auto const& i: a.markers) {
			char const* names[] = { "FFOC", "LFOC", "FFTC", "LFTC", "FFOI", "LFOI", "FFEC", "LFEC", "FFMC", "LFMC", "FFOB", "LFOB" };
			m += nest("Marker", tag("Label", names[int(i.first)]) + tag("Offset", mc::format("%d", i.second)));
		}
		c += nest("MarkerList", m);
		break;
	}
	case MONO:
	case STEREO:
		c += tag("FrameRate", a.frame_rate) + tag("ScreenAspectRatio", out && a.ratio_out ? *a.ratio_out : a.ratio);
		break;
	case SUBTITLE:
	case CLOSED_SUBTITLE:
	case CAPTION:
	case CLOSED_CAPTION:
		if (a.language) {
			c += tag(smpte && (a.kind == CAPTION || a.kind == CLOSED_CAPTION) ? "t:Language" : "Language", *a.language);
		}
		break;
	case ATMOS:
		c += tag("a:DataType", "urn:smpte:ul:060e2b34.04010105.0e090604.00000000");
		break;
	default:
		break;
	}
	return nest(name[a.kind], c);
}

/** @param out true for what the library should write, false for what it is given to read */
static string write(CPLM const& m, bool out)
{
	string const ns = m.standard == dcp::Standard::SMPTE ? "http://www.smpte-ra.org/schemas/429-7/2006/CPL" : "http://www.digicine.com/PROTO-ASDCP-CPL-20040511#";
	auto c = tag("Id", "urn:uuid:" + m.id);
	if (m.annotation) {
		c += tag("AnnotationText", *m.annotation);
	}
	c += tag("IssueDate", m.issue_date) + tag("Issuer", m.issuer) + tag("Creator", m.creator) + tag("ContentTitleText", m.title);
	c += tag(m.kind_scope ? "ContentKind scope=\"" + escape(*m.kind_scope) + "\"" : "ContentKind", m.kind);
	c += nest("ContentVersion", tag("Id", m.versions[0].first) + tag("LabelText", m.versions[0].second));
	string ratings;
	for (auto const& i: m.ratings) {
		ratings += nest("Rating", tag("Agency", i.first) + tag("Label", i.second));
	}
	c += nest("RatingList", ratings);
	string reels;
	for (size_t i = 0; i < m.reels.size(); ++i) {
		string assets;
		for (auto const& a: m.reels[i].assets) {
			assets += write(a, m.standard, out);
		}
		if (i == 0 && m.meta) {
			auto x = tag("Id", "urn:uuid:" + m.meta_id) + tag("EditRate", m.meta_edit_rate) + tag("IntrinsicDuration", mc::format("%lld", (long long) m.meta_intrinsic));
			x += tag(m.full_title_language ? "m:FullContentTitleText language=\"" + *m.full_title_language + "\"" : "m:FullContentTitleText", m.full_title.get_value_or(""));
			if (m.territory) {
				x += tag(m.territory_scope ? "m:ReleaseTerritory scope=\"" + *m.territory_scope + "\"" : "m:ReleaseTerritory", *m.territory);
			}
			if (m.version) {
				char const* s[] = { "final", "temp", "pre" };
				x += tag(m.status ? string("m:VersionNumber status=\"") + s[int(*m.status)] + "\"" : "m:VersionNumber", mc::format("%d", *m.version));
			}
			if (m.chain) {
				x += tag("m:Chain", *m.chain);
			}
			if (m.distributor) {
				x += tag("m:Distributor", *m.distributor);
			}
			if (m.facility) {
				x += tag("m:Facility", *m.facility);
			}
			if (m.versions.size() > 1) {
				string v;
				for (size_t j = 1; j < m.versions.size(); ++j) {
					v += nest("ContentVersion", tag("Id", m.versions[j].first) + tag("LabelText", m.versions[j].second));
				}
				x += nest("m:AlternateContentVersionList", v);
			}
			if (m.luminance) {
				x += tag(string("m:Luminance units=\"") + (m.luminance->unit() == dcp::Luminance::Unit::FOOT_LAMBERT ? "foot-lambert" : "candela-per-square-metre") + "\"", m.luminance_text);
			}
			x += tag("m:MainSoundConfiguration", m.configuration) + tag("m:MainSoundSampleRate", mc::format("%d 1", m.sample_rate));
			x += nest("m:MainPictureStoredArea", tag("m:Width", mc::format("%d", m.stored.width)) + tag("m:Height", mc::format("%d", m.stored.height)));
			x += nest("m:MainPictureActiveArea", tag("m:Width", mc::format("%d", m.active.width)) + tag("m:Height", mc::format("%d", m.active.height)));
			string l = m.first_language().get_value_or("");
			for (auto const& j: m.languages) {
				l += (l.empty() ? "" : " ") + j;
			}
			if (!l.empty()) {
				x += tag("m:MainSubtitleLanguageList", l);
			}
			auto e = property("http://isdcf.com/ns/cplmd/app", "Application", "DCP Constraints Profile", m.mca ? "SMPTE-RDD-52:2020-Bv2.1" : "SMPTE-RDD-52:2020-Bv2.0");
			if (m.sign_language) {
				e += property("http://isdcf.com/2017/10/SignLanguageVideo", "Sign Language Video", "Language Tag", *m.sign_language);
			}
			if (m.edr) {
				e += property("http://www.dolby.com/schemas/2014/EDR-Metadata", "Dolby EDR", "image transfer function", *m.edr);
			}
			x += nest("m:ExtensionMetadataList", e);
			if (m.mca) {
				auto d = nest("x:SoundfieldGroupLabelSubDescriptor",
					tag("y:InstanceID", "urn:uuid:" + uuid(50)) + tag("y:MCALabelDictionaryID", "urn:smpte:ul:060e2b34.0401010d.03020201.00000000") + tag("y:MCALinkID", "urn:uuid:" + uuid(51)) +
					tag("y:MCATagSymbol", "sg51") + tag("y:MCATagName", "5.1") + tag("y:RFC5646SpokenLanguage", "de-DE"));
				d += nest("x:AudioChannelLabelSubDescriptor",
					tag("y:InstanceID", "urn:uuid:" + uuid(52)) + tag("y:MCALabelDictionaryID", "urn:smpte:ul:060e2b34.0401010d.03020101.00000000") + tag("y:MCALinkID", "urn:uuid:" + uuid(53)) +
					tag("y:MCATagSymbol", "chL") + tag("y:MCATagName", "Left") + tag("y:MCAChannelID", "1") + tag("y:RFC5646SpokenLanguage", "de-DE") + tag("y:SoundfieldGroupLinkID", "urn:uuid:" + uuid(51)));
				d += nest("x:AudioChannelLabelSubDescriptor",
					tag("y:InstanceID", "urn:uuid:" + uuid(54)) + tag("y:MCALabelDictionaryID", "urn:smpte:ul:060e2b34.0401010d.03020102.00000000") + tag("y:MCALinkID", "urn:uuid:" + uuid(55)) +
					tag("y:MCATagSymbol", "chR"));
				x += nest("c:MCASubDescriptors xmlns:c=\"http://isdcf.com/ns/cplmd/mca\" xmlns:x=\"http://www.smpte-ra.org/reg/395/2014/13/1/aaf\" xmlns:y=\"http://www.smpte-ra.org/reg/335/2012\"", d);
			}
			assets += nest("m:CompositionMetadataAsset xmlns:m=\"http://www.smpte-ra.org/schemas/429-16/2014/CPL-Metadata\"", x);
		}
		reels += nest("Reel", tag("Id", "urn:uuid:" + m.reels[i].id) + nest("AssetList", assets));
	}
	c += nest("ReelList", reels);
	return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" + nest("CompositionPlaylist xmlns=\"" + ns + "\"", c);
}

static string os(OS const& s)
{
	return s ? "\"" + *s + "\"" : "none";
}

template <class T>
static string on(optional<T> const& s)
{
	return s ? mc::format("%lld", (long long) *s) : "none";
}

#define SAME(what, a, b) do { string const x = a; string const y = b; MC_CHECK(x == y, "%s: %s is %s instead of %s", how, what, x.c_str(), y.c_str()); } while (0)

static void check(char const* how, shared_ptr<const dcp::ReelAsset> r, AssetM const& m)
{
	MC_CHECK(bool(r), "%s: an asset of kind %d is missing", how, m.kind);
	SAME("asset id", r->id(), m.id);
	SAME("asset annotation", os(r->annotation_text()), os(m.annotation));
	SAME("edit rate", r->edit_rate().as_string(), m.edit_rate);
	SAME("intrinsic duration", mc::format("%lld", (long long) r->intrinsic_duration()), mc::format("%lld", (long long) m.intrinsic));
	SAME("entry point", on(r->entry_point()), on(m.entry));
	SAME("duration", on(r->duration()), on(m.duration));
	SAME("actual duration", mc::format("%lld", (long long) r->actual_duration()), mc::format("%lld", (long long) (m.duration ? *m.duration : m.intrinsic - m.entry.get_value_or(0))));
	if (m.kind == MARKERS) {
		auto k = std::dynamic_pointer_cast<const dcp::ReelMarkersAsset>(r);
		MC_CHECK(bool(k), "%s: markers are of the wrong kind", how);
		for (int i = 0; i < 12; ++i) {
			auto const t = k->get(dcp::Marker(i));
			auto const w = m.markers.find(dcp::Marker(i));
			MC_CHECK(bool(t) == (w != m.markers.end()), "%s: marker %d is %s", how, i, t ? "there" : "not there");
			MC_CHECK(!t || *t == dcp::Time(w->second, 24, 24), "%s: marker %d is at %s instead of frame %d", how, i, t->as_string(dcp::Standard::SMPTE).c_str(), w->second);
		}
		return;
	}
	auto f = std::dynamic_pointer_cast<const dcp::ReelFileAsset>(r);
	MC_CHECK(bool(f), "%s: asset %s is of the wrong kind", how, m.id.c_str());
	SAME("hash", os(f->hash()), os(m.hash));
	SAME("key", os(f->key_id()), os(m.key));
	MC_CHECK(f->encrypted() == bool(m.key), "%s: asset of kind %d is %s", how, m.kind, f->encrypted() ? "encrypted" : "not encrypted");
	SAME("reference", f->asset_ref().id(), m.id);
	switch (m.kind) {
	case MONO:
	case STEREO:
	{
		auto p = std::dynamic_pointer_cast<const dcp::ReelPictureAsset>(r);
		SAME("frame rate", p->frame_rate().as_string(), m.frame_rate);
		if (m.ratio.find(' ') != string::npos) {
			SAME("aspect ratio", p->screen_aspect_ratio().as_string(), m.ratio_out && m.ratio_out->find(' ') != string::npos ? *m.ratio_out : m.ratio);
		}
		MC_CHECK(bool(std::dynamic_pointer_cast<const dcp::ReelStereoPictureAsset>(r)) == (m.kind == STEREO), "%s: picture is of the wrong kind", how);
		break;
	}
	case SUBTITLE:
	case CAPTION:
	case CLOSED_SUBTITLE:
	case CLOSED_CAPTION:
	{
		auto t = std::dynamic_pointer_cast<const dcp::ReelTextAsset>(r);
		SAME("language", os(t->language()), os(m.language));
		break;
	}
	default:
		break;
	}
}

static void check(char const* how, dcp::CPL const& c, CPLM const& m)
{
	MC_CHECK(c.standard() == m.standard, "%s: wrong standard", how);
	SAME("id", c.id(), m.id);
	SAME("annotation", os(c.annotation_text()), os(m.annotation));
	SAME("issuer", c.issuer(), m.issuer);
	SAME("creator", c.creator(), m.creator);
	SAME("title", c.content_title_text(), m.title);
	SAME("kind", c.content_kind().name(), m.kind);
	SAME("kind scope", os(c.content_kind().scope()), os(m.kind_scope));
	auto const versions = c.content_versions();
	MC_CHECK(versions.size() == m.versions.size(), "%s: there are %zu content versions instead of %zu", how, versions.size(), m.versions.size());
	for (size_t i = 0; i < versions.size(); ++i) {
		SAME("content version", versions[i].id + " " + versions[i].label_text, m.versions[i].first + " " + m.versions[i].second);
	}
	MC_CHECK(c.content_version() && c.content_version()->id == m.versions[0].first, "%s: wrong content version", how);
	auto const ratings = c.ratings();
	MC_CHECK(ratings.size() == m.ratings.size(), "%s: there are %zu ratings instead of %zu", how, ratings.size(), m.ratings.size());
	for (size_t i = 0; i < ratings.size(); ++i) {
		SAME("rating", ratings[i].agency + " " + ratings[i].label, m.ratings[i].first + " " + m.ratings[i].second);
	}
	MC_CHECK(c.read_composition_metadata() == m.meta, "%s: metadata is %s", how, m.meta ? "missing" : "present");
	if (m.meta) {
		SAME("full title", c.full_content_title_text().get_value_or(""), m.full_title.get_value_or(""));
		SAME("full title language", os(c.full_content_title_text_language()), os(m.full_title_language));
		SAME("territory", os(c.release_territory()), os(m.territory));
		SAME("territory scope", os(c.release_territory_scope()), os(m.territory_scope));
		SAME("version", on(c.version_number()), on(m.version));
		SAME("status", c.status() ? mc::format("%d", int(*c.status())) : "none", m.status ? mc::format("%d", int(*m.status)) : "none");
		SAME("chain", os(c.chain()), os(m.chain));
		SAME("distributor", os(c.distributor()), os(m.distributor));
		SAME("facility", os(c.facility()), os(m.facility));
		MC_CHECK(bool(c.luminance()) == bool(m.luminance) && (!m.luminance || *c.luminance() == *m.luminance), "%s: wrong luminance", how);
		SAME("sound configuration", c.main_sound_configuration() ? c.main_sound_configuration()->as_string() : "none", m.configuration);
		SAME("sample rate", on(c.main_sound_sample_rate()), on(optional<int>(m.sample_rate)));
		MC_CHECK(c.main_picture_stored_area() && *c.main_picture_stored_area() == m.stored, "%s: wrong stored area", how);
		MC_CHECK(c.main_picture_active_area() && *c.main_picture_active_area() == m.active, "%s: wrong active area", how);
		auto const l = c.additional_subtitle_languages();
		MC_CHECK(l == m.languages, "%s: there are %zu additional subtitle languages instead of %zu", how, l.size(), m.languages.size());
		SAME("sign language", os(c.sign_language_video_language()), os(m.sign_language));
		SAME("transfer function", os(c.dolby_edr_image_transfer_function()), os(m.edr));
		MC_CHECK(c.profile() == (m.mca ? dcp::Profile::SMPTE_BV21 : dcp::Profile::SMPTE_BV20), "%s: wrong profile", how);
	} else {
		MC_CHECK(c.profile() == dcp::Profile::SMPTE_A, "%s: wrong profile", how);
	}
	auto const reels = c.reels();
	MC_CHECK(reels.size() == m.reels.size(), "%s: there are %zu reels instead of %zu", how, reels.size(), m.reels.size());
	size_t files = 0;
	bool any = false;
	bool all = true;
	int64_t duration = 0;
	for (size_t i = 0; i < reels.size(); ++i) {
		auto const& r = reels[i];
		SAME("reel id", r->id(), m.reels[i].id);
		size_t n[9] = {};
		bool reel_any = false;
		bool reel_all = true;
		int64_t reel_duration = INT64_MAX;
		bool picture = false;
		for (auto const& a: m.reels[i].assets) {
			auto const k = n[a.kind]++;
			switch (a.kind) {
			case MARKERS: check(how, r->main_markers(), a); break;
			case MONO: case STEREO: check(how, r->main_picture(), a); break;
			case SOUND: check(how, r->main_sound(), a); break;
			case SUBTITLE: check(how, r->main_subtitle(), a); break;
			case CAPTION: check(how, r->main_caption(), a); break;
			case CLOSED_SUBTITLE: MC_CHECK(r->closed_subtitles().size() > k, "%s: closed subtitle %zu is missing", how, k); check(how, r->closed_subtitles()[k], a); break;
			case CLOSED_CAPTION: MC_CHECK(r->closed_captions().size() > k, "%s: closed caption %zu is missing", how, k); check(how, r->closed_captions()[k], a); break;
			case ATMOS: check(how, r->atmos(), a); break;
			}
			if (a.kind != MARKERS) {
				++files;
				reel_any = reel_any || a.key;
				reel_all = reel_all && a.key;
			}
			auto const d = a.duration ? *a.duration : a.intrinsic - a.entry.get_value_or(0);
			if (a.kind == MONO || a.kind == STEREO) {
				picture = true;
				reel_duration = d;
			} else if (!picture) {
				reel_duration = std::min(reel_duration, d);
			}
		}
		for (auto const& a: m.reels[i].assets) {
			if (a.kind == MONO || a.kind == STEREO) {
				reel_duration = a.duration ? *a.duration : a.intrinsic - a.entry.get_value_or(0);
			}
		}
		MC_CHECK(
			bool(r->main_markers()) == bool(n[MARKERS]) && bool(r->main_picture()) == bool(n[MONO] + n[STEREO]) && bool(r->main_sound()) == bool(n[SOUND]) &&
			bool(r->main_subtitle()) == bool(n[SUBTITLE]) && bool(r->main_caption()) == bool(n[CAPTION]) && r->closed_subtitles().size() == n[CLOSED_SUBTITLE] &&
			r->closed_captions().size() == n[CLOSED_CAPTION] && bool(r->atmos()) == bool(n[ATMOS]), "%s: reel %zu has assets which are not in the file", how, i);
		MC_CHECK(r->any_encrypted() == reel_any && r->all_encrypted() == reel_all, "%s: reel %zu has any encrypted %d, all encrypted %d", how, i, r->any_encrypted(), r->all_encrypted());
		MC_CHECK(r->duration() == reel_duration, "%s: the duration of reel %zu is %lld instead of %lld", how, i, (long long) r->duration(), (long long) reel_duration);
		duration += reel_duration;
		any = any || reel_any;
		all = all && reel_all;
	}
	MC_CHECK(c.reel_file_assets().size() == files, "%s: there are %zu files instead of %zu", how, c.reel_file_assets().size(), files);
	MC_CHECK(c.any_encrypted() == any && c.all_encrypted() == all, "%s: any encrypted is %d, all encrypted %d", how, c.any_encrypted(), c.all_encrypted());
	MC_CHECK(c.duration() == duration, "%s: the duration is %lld instead of %lld", how, (long long) c.duration(), (long long) duration);
}

static string slurp(string const& p)
{
	std::ifstream f(p);
	std::stringstream s;
	s << f.rdbuf();
	return s.str();
}

static void put(string const& p, string const& text)
{
	std::ofstream f(p);
	f << text;
}

static void round_trip(CPLM m)
{
	auto const in = mc::scratch() + mc::format("/in%d.xml", mc::s().shard);
	auto const out = mc::scratch() + mc::format("/out%d.xml", mc::s().shard);
	put(in, write(m, false));
	auto const want = xmlref::canonical(write(m, true));
	mc::transition();
	/* Read and written again it should be the same */
	vector<dcp::VerificationNote> notes;
	dcp::CPL cpl(in, &notes);
	MC_CHECK(notes.empty(), "reading a good CPL gave %zu notes", notes.size());
	check("read", cpl, m);
	cpl.write_xml(out, {});
	MC_CHECK(cpl.file() && *cpl.file() == out, "the file of a CPL is not that which was written");
	auto const got = xmlref::canonical(slurp(out));
	MC_CHECK(got == want, "read and written again: %s", xmlref::difference(got, want).c_str());
	mc::state(want);
	for (auto& r: m.reels) {
		for (auto& a: r.assets) {
			if (a.annotation && a.annotation->empty()) {
				a.annotation = boost::none;
			}
			if (a.ratio_out) {
				a.ratio = *a.ratio_out;
			}
		}
	}
	dcp::CPL again(out);
	check("read, written and read", again, m);
	MC_CHECK(again.equals(std::make_shared<dcp::CPL>(out), dcp::EqualityOptions(), [](dcp::NoteType, string) {}), "a CPL is not equal to itself");

	/* Built by setting each thing */
	dcp::CPL built("?", dcp::ContentKind(m.kind, m.kind_scope), m.standard, m.meta ? (m.mca ? dcp::Profile::SMPTE_BV21 : dcp::Profile::SMPTE_BV20) : dcp::Profile::SMPTE_A);
	if (!m.annotation || m.territory_scope) {
		return;
	}
	built.set_annotation_text(*m.annotation);
	built.set_issue_date(m.issue_date);
	built.set_issuer(m.issuer);
	built.set_creator(m.creator);
	built.set_content_title_text(m.title);
	vector<dcp::ContentVersion> versions;
	for (auto const& i: m.versions) {
		versions.push_back(dcp::ContentVersion(i.first, i.second));
	}
	if (versions.size() == 1) {
		built.set_content_version(versions[0]);
	} else {
		built.set_content_versions(versions);
	}
	vector<dcp::Rating> ratings;
	for (auto const& i: m.ratings) {
		ratings.push_back(dcp::Rating(i.first, i.second));
	}
	built.set_ratings(ratings);
	for (auto const& r: cpl.reels()) {
		built.add(r);
	}
	if (m.meta) {
		if (m.full_title) {
			built.set_full_content_title_text(*m.full_title);
		}
		if (m.full_title_language) {
			built.set_full_content_title_text_language(dcp::LanguageTag(*m.full_title_language));
		}
		if (m.territory) {
			built.set_release_territory(*m.territory);
		}
		if (m.version) {
			built.set_version_number(*m.version);
		}
		if (m.status) {
			built.set_status(*m.status);
		}
		if (m.chain) {
			built.set_chain(*m.chain);
		}
		if (m.distributor) {
			built.set_distributor(*m.distributor);
		}
		if (m.facility) {
			built.set_facility(*m.facility);
		}
		if (m.luminance) {
			built.set_luminance(*m.luminance);
		}
		built.set_main_sound_configuration(dcp::MainSoundConfiguration(m.configuration));
		built.set_main_sound_sample_rate(m.sample_rate);
		built.set_main_picture_stored_area(m.stored);
		built.set_main_picture_active_area(m.active);
		vector<dcp::LanguageTag> l;
		for (auto const& i: m.languages) {
			l.push_back(dcp::LanguageTag(i));
		}
		built.set_additional_subtitle_languages(l);
		if (m.sign_language) {
			built.set_sign_language_video_language(dcp::LanguageTag(*m.sign_language));
		}
		if (m.edr) {
			built.set_dolby_edr_image_transfer_function(*m.edr);
		}
	}
	auto p = m.reels[0].find(MONO);
	if (!p) {
		p = m.reels[0].find(STEREO);
	}
	if (m.mca && m.reels[0].find(SOUND)) {
		/* The descriptors have to come from a sound asset */
		return;
	}
	if (!p && m.meta) {
		/* The metadata can't be written without knowing the edit rate of the picture */
		return;
	}
	m.id = built.id();
	m.meta_edit_rate = p ? p->edit_rate : "";
	m.meta_intrinsic = p ? p->intrinsic : 0;
	bool const mca = m.mca;
	built.write_xml(out, {});
	std::set<string> const hide = {
		"/CompositionPlaylist/ReelList/Reel/AssetList/CompositionMetadataAsset/Id",
	};
	auto text = write(m, true);
	if (mca) {
		/* There is no sound to take these from */
		auto const a = text.find("<c:MCASubDescriptors");
		auto const b = text.find("</c:MCASubDescriptors>");
		text = text.substr(0, a) + text.substr(b + 22);
	}
	auto const built_want = xmlref::canonical(text, hide);
	auto const built_got = xmlref::canonical(slurp(out), hide);
	MC_CHECK(built_got == built_want, "built: %s", xmlref::difference(built_got, built_want).c_str());
	mc::transition();
}

static void sort(ReelM& r)
{
	std::stable_sort(r.assets.begin(), r.assets.end(), [](AssetM const& a, AssetM const& b) { return a.kind < b.kind; });
}

static CPLM base(int n)
{
	CPLM m;
	bool const smpte = n != 0 && n != 5;
	m.standard = smpte ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
	ReelM r;
	r.id = uuid(10);
	AssetM p(MONO, 11);
	p.entry = 0;
	p.duration = 240;
	if (!smpte) {
		p.ratio = "1.85";
	}
	AssetM s(SOUND, 12);
	s.entry = 0;
	s.duration = 240;
	r.assets = { p, s };
	m.reels = { r };
	if (n >= 2 && smpte) {
		m.meta = true;
		m.full_title = string("full title");
		m.mca = n == 3;
	}
	if (n == 3) {
		ReelM q;
		q.id = uuid(20);
		AssetM p(MONO, 21);
		p.entry = 0;
		p.duration = 24;
		p.intrinsic = 24;
		q.assets = { p };
		m.reels.push_back(q);
	}
	if (n >= 4) {
		/* One of everything, except that there can't be a stereo picture */
		auto& r = m.reels[0];
		for (auto k: { MARKERS, SUBTITLE, CAPTION, CLOSED_SUBTITLE, CLOSED_CAPTION, ATMOS }) {
			if (!smpte && (k == CAPTION || k == CLOSED_SUBTITLE)) {
				continue;
			}
			AssetM a(k, 80 + k);
			if (k == MARKERS) {
				a.markers[dcp::Marker::FFTC] = 5;
			} else {
				a.entry = 0;
				a.duration = 240;
			}
			r.assets.push_back(a);
		}
		sort(r);
	}
	return m;
}

/** @return 1 or 0 if the CPLs should or should not be said to be equal, -1 if either will do */
static int equal(CPLM const& a, CPLM const& b, dcp::EqualityOptions const& opt)
{
	if ((a.annotation != b.annotation && !opt.cpl_annotation_texts_can_differ) || a.kind != b.kind || a.kind_scope != b.kind_scope || a.reels.size() != b.reels.size()) {
		return 0;
	}
	int result = 1;
	for (size_t i = 0; i < a.reels.size(); ++i) {
		/* Whether a stereo and a mono picture of which the files are not known are equal is not judged */
		auto mono = [](ReelM r) {
			for (auto& i: r.assets) {
				if (i.kind == STEREO) {
					i.kind = MONO;
				}
			}
			sort(r);
			return r.assets;
		};
		auto const p = mono(a.reels[i]);
		auto const q = mono(b.reels[i]);
		if (bool(ReelM(a.reels[i]).find(STEREO)) != bool(ReelM(b.reels[i]).find(STEREO))) {
			result = -1;
		}
		if (p.size() != q.size()) {
			return 0;
		}
		for (size_t j = 0; j < p.size(); ++j) {
			bool const picture = p[j].kind == MONO;
			if (
				p[j].kind != q[j].kind ||
				(p[j].annotation != q[j].annotation && !opt.reel_annotation_texts_can_differ) ||
				p[j].edit_rate != q[j].edit_rate || p[j].intrinsic != q[j].intrinsic || p[j].entry != q[j].entry || p[j].duration != q[j].duration ||
				(p[j].hash != q[j].hash && !opt.reel_hashes_can_differ) || p[j].markers != q[j].markers || (picture && p[j].frame_rate != q[j].frame_rate)) {
				return 0;
			}
			auto value = [](string r) {
				auto const s = r.find(' ');
				return s == string::npos ? atof(r.c_str()) : atof(r.c_str()) / atof(r.c_str() + s);
			};
			if (picture && fabs(value(p[j].ratio) - value(q[j].ratio)) > 1e-6) {
				return 0;
			}
			if (p[j].ratio != q[j].ratio || p[j].language != q[j].language) {
				result = -1;
			}
		}
	}
	return result;
}

typedef std::function<bool (CPLM&)> Change;

static std::set<int> alone;

/** Fills alone with those which are not to be tried with others */
static vector<Change> changes()
{
	vector<Change> c;
	auto add = [&](std::function<void (CPLM&)> f) { c.push_back([f](CPLM& m) { f(m); return true; }); };
	auto meta = [&](std::function<void (CPLM&)> f) { c.push_back([f](CPLM& m) { if (!m.meta) { return false; } f(m); return true; }); };
	vector<string> const texts = { "", "A & B <C> \"D\" 'E'", " sp  ace ", "日本語 é", "a]]>b" };
	add([](CPLM& m) { m.annotation = boost::none; });
	for (auto const& t: texts) {
		add([t](CPLM& m) { m.annotation = t; });
		add([t](CPLM& m) { m.issuer = t; });
		add([t](CPLM& m) { m.creator = t; });
		add([t](CPLM& m) { m.title = t; });
		add([t](CPLM& m) { m.versions[0].second = t; });
		meta([t](CPLM& m) { m.full_title = t; });
		meta([t](CPLM& m) { m.chain = t; });
		meta([t](CPLM& m) { m.distributor = t; });
		meta([t](CPLM& m) { m.facility = t; });
	}
	for (size_t i = 19; i < c.size(); ++i) {
		alone.insert(i);
	}
	add([](CPLM& m) { m.issue_date = "1999-12-31T23:59:59-08:00"; });
	add([](CPLM& m) { m.kind = "trailer"; });
	add([](CPLM& m) { m.kind = "episode"; m.kind_scope = string("http://www.smpte-ra.org/schemas/429-16/2014/CPL-Metadata#scope/content-kind"); });
	add([](CPLM& m) { m.kind = "my own"; m.kind_scope = string("x & y"); });
	add([](CPLM& m) { m.ratings = { { "http://www.mpaa.org/2003-ratings", "PG-13" } }; });
	add([](CPLM& m) { m.ratings = { { "a", "1" }, { "b & c", "2" }, { "a", "1" } }; });
	meta([](CPLM& m) { m.versions.push_back({ "urn:uuid:" + uuid(60), "second" }); });
	meta([](CPLM& m) { m.versions.push_back({ "urn:uri:x", "third <>" }); m.versions.push_back({ "urn:uuid:" + uuid(61), "fourth" }); });
	meta([](CPLM& m) { m.full_title_language = string("de-DE"); });
	meta([](CPLM& m) { m.territory = string("ES"); });
	meta([](CPLM& m) { m.territory = string("FR"); m.territory_scope = string("urn:x"); });
	for (auto s: { 0, 1, 2 }) {
		meta([s](CPLM& m) { m.version = s * 3; m.status = dcp::Status(s); });
	}
	meta([](CPLM& m) { m.version = 2147483647; });
	meta([](CPLM& m) { m.luminance = dcp::Luminance(4.5, dcp::Luminance::Unit::FOOT_LAMBERT); m.luminance_text = "4.5"; });
	meta([](CPLM& m) { m.luminance = dcp::Luminance(48, dcp::Luminance::Unit::CANDELA_PER_SQUARE_METRE); m.luminance_text = "48"; });
	meta([](CPLM& m) { m.configuration = "71/L,R,C,LFE,Lss,Rss,HI,VIN,-,-,Lrs,Rrs,DBOX,FSKSync,SLVS"; });
	meta([](CPLM& m) { m.sample_rate = 96000; });
	meta([](CPLM& m) { m.stored = dcp::Size(4096, 2160); });
	meta([](CPLM& m) { m.active = dcp::Size(1440, 858); });
	meta([](CPLM& m) { m.languages = { "fr-FR" }; });
	meta([](CPLM& m) { m.languages = { "de-DE", "en-GB", "pt-BR" }; });
	meta([](CPLM& m) { m.sign_language = string("bzs"); });
	meta([](CPLM& m) { m.edr = string("PQ10K"); });
	meta([](CPLM& m) { m.meta_edit_rate = "48 1"; m.meta_intrinsic = 99; });
	meta([](CPLM& m) { m.mca = !m.mca; });
	/* Each kind of asset coming, going and changing */
	for (int k = MARKERS; k <= ATMOS; ++k) {
		c.push_back([k](CPLM& m) {
			bool const smpte = m.standard == dcp::Standard::SMPTE;
			auto& r = m.reels[0];
			if ((!smpte && (k == CAPTION || k == CLOSED_SUBTITLE)) || (k == STEREO && !r.find(MONO)) || k == MONO) {
				return false;
			}
			if (k == SOUND) {
				r.assets.erase(std::remove_if(r.assets.begin(), r.assets.end(), [](AssetM const& a) { return a.kind == SOUND; }), r.assets.end());
				return true;
			}
			if (k == STEREO) {
				r.find(MONO)->kind = STEREO;
				sort(r);
				return true;
			}
			if (k != CLOSED_SUBTITLE && k != CLOSED_CAPTION && r.find(Kind(k))) {
				return false;
			}
			AssetM a(Kind(k), 30 + k);
			a.edit_rate = "24 1";
			if (k == MARKERS) {
				a.markers = { { dcp::Marker::FFOC, 1 }, { dcp::Marker::LFOC, 239 } };
			} else {
				a.entry = 0;
				a.duration = 240;
			}
			if (k == SUBTITLE || k == CLOSED_CAPTION) {
				a.language = string("en-GB");
			}
			r.assets.push_back(a);
			sort(r);
			return true;
		});
		/* A second one, in the last reel */
		c.push_back([k](CPLM& m) {
			bool const smpte = m.standard == dcp::Standard::SMPTE;
			auto& r = m.reels.back();
			if ((!smpte && (k == CAPTION || k == CLOSED_SUBTITLE)) || k == MONO || k == STEREO || (k != CLOSED_SUBTITLE && k != CLOSED_CAPTION && r.find(Kind(k)))) {
				return false;
			}
			AssetM a(Kind(k), 40 + k);
			if (k == MARKERS) {
				for (int i = 0; i < 12; ++i) {
					a.markers[dcp::Marker(i)] = i * 23;
				}
			}
			a.edit_rate = k == MARKERS ? "24 1" : "48 1";
			a.intrinsic = 480;
			if (k == CAPTION || k == SUBTITLE || k == CLOSED_SUBTITLE) {
				a.language = string("fr-FR");
			}
			r.assets.push_back(a);
			sort(r);
			return true;
		});
		auto change = [&](std::function<bool (AssetM&, CPLM&)> f) {
			c.push_back([f, k](CPLM& m) { auto a = m.reels[0].find(Kind(k)); return a && f(*a, m); });
		};
		change([k](AssetM& a, CPLM&) { if (k == MARKERS) { return false; } a.key = uuid(70 + k); return true; });
		change([k](AssetM& a, CPLM&) { if (k == MARKERS) { return false; } a.hash = string("8yzMBvfyPJSN4wC2Ewe3gM6Wn3g="); return true; });
		change([](AssetM& a, CPLM&) { a.annotation = string("asset & <annotation>"); return true; });
		change([](AssetM& a, CPLM&) { a.annotation = string(""); return true; });
		change([](AssetM& a, CPLM&) { a.entry = 24; a.duration = 100; return true; });
		change([](AssetM& a, CPLM&) { a.entry = 12; a.duration = boost::none; return true; });
		change([](AssetM& a, CPLM&) { a.entry = boost::none; a.duration = boost::none; return true; });
		change([](AssetM& a, CPLM&) { a.entry = boost::none; a.duration = 17; return true; });
		change([k](AssetM& a, CPLM&) { if (k == MARKERS) { return false; } a.intrinsic = 1LL << 40; a.entry = 1LL << 33; a.duration = 5000000000LL; return true; });
		change([k](AssetM& a, CPLM&) { if (k == MARKERS) { return false; } a.edit_rate = "25 1"; return true; });
		change([k](AssetM& a, CPLM&) { if (k == MARKERS) { return false; } a.edit_rate = "24000 1001"; return true; });
		if (k == MONO || k == STEREO) {
			change([](AssetM& a, CPLM&) { a.frame_rate = "48 1"; return true; });
			for (string r: { "1.33", "1.66", "1.77", "2.00", "2.39" }) {
				change([r](AssetM& a, CPLM& m) { if (m.standard == dcp::Standard::SMPTE) { return false; } a.ratio = r; a.ratio_out = boost::none; return true; });
			}
			for (auto r: vector<std::pair<string, string>>{ { "1998 1080", "1.85" }, { "2048 858", "2.39" }, { "16 9", "1.77" }, { "4 3", "1.33" }, { "5 3", "1.66" }, { "2 1", "2.00" }, { "1 1", "1.33" }, { "3 1", "2.39" } }) {
				change([r](AssetM& a, CPLM& m) { if (m.standard == dcp::Standard::SMPTE) { return false; } a.ratio = r.first; a.ratio_out = r.second; return true; });
			}
			change([](AssetM& a, CPLM& m) { if (m.standard == dcp::Standard::INTEROP) { return false; } a.ratio = "2048 858"; a.ratio_out = boost::none; return true; });
			change([](AssetM& a, CPLM& m) { if (m.standard == dcp::Standard::INTEROP) { return false; } a.ratio = "1.85"; a.ratio_out = string("1850 1000"); return true; });
		}
		if (k == SUBTITLE || k == CAPTION || k == CLOSED_SUBTITLE || k == CLOSED_CAPTION) {
			change([](AssetM& a, CPLM&) { a.language = string("pt-BR"); return true; });
			change([](AssetM& a, CPLM&) { a.language = boost::none; return true; });
		}
	}
	/* The second reel before the first, and only the markers of a reel */
	add([](CPLM& m) { std::reverse(m.reels.begin(), m.reels.end()); });
	add([](CPLM& m) { auto r = m.reels[0]; r.id = uuid(90); m.reels.push_back(r); });
	return c;
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	dcp::load_language_tag_lists("/repo/tags");
	auto const all = changes();
	int64_t unit = 0;
	for (int b = 0; b < 6; ++b) {
		auto run = [&](vector<int> const& v) {
			if (!mc::mine(unit++)) {
				return;
			}
			string key = mc::format("cpl:%d", b);
			for (auto i: v) {
				key += mc::format(":%d", i);
			}
			auto m = base(b);
			for (auto i: v) {
				if (!all[i](m)) {
					return;
				}
			}
			if (mc::at(key)) {
				round_trip(m);
			}
		};
		run({});
		for (size_t i = 0; i < all.size(); ++i) {
			run({ int(i) });
			/* What brings an asset comes before what changes it */
			for (size_t j = i + 1; j < all.size(); ++j) {
				if (mc::thorough() || (b < 4 && !alone.count(i) && !alone.count(j))) {
					run({ int(i), int(j) });
				}
			}
		}
	}
	/* Which are equal */
	for (int b = 4; b < 6; ++b) {
		vector<CPLM> models;
		vector<shared_ptr<dcp::CPL>> cpls;
		auto const in = mc::scratch() + mc::format("/eq%d.xml", mc::s().shard);
		for (size_t i = 0; i <= all.size(); ++i) {
			auto m = base(b);
			if (i == all.size() || all[i](m)) {
				models.push_back(m);
				put(in, write(m, false));
				cpls.push_back(std::make_shared<dcp::CPL>(in));
			}
		}
		for (int i = 0; i < int(models.size()); ++i) {
			if (!mc::mine(unit++)) {
				continue;
			}
			for (int j = 0; j < int(models.size()); ++j) {
				for (int k = 0; k < 8; ++k) {
					if (!mc::at("equal", { b, i, j, k })) {
						continue;
					}
					dcp::EqualityOptions opt;
					opt.cpl_annotation_texts_can_differ = k & 1;
					opt.reel_annotation_texts_can_differ = k & 2;
					opt.reel_hashes_can_differ = k & 4;
					bool const e = cpls[i]->equals(cpls[j], opt, [](dcp::NoteType, string) {});
					auto const w = equal(models[i], models[j], opt);
					MC_CHECK(w == -1 || e == bool(w), "CPLs %d and %d are %s", i, j, e ? "equal" : "not equal");
					mc::transition();
				}
			}
		}
	}
	/* What must be refused */
	if (mc::mine(unit++) && mc::at("refused")) {
		dcp::CPL c("x", dcp::ContentKind::FEATURE, dcp::Standard::SMPTE);
		auto refused = [](std::function<void ()> f) {
			try {
				f();
			} catch (dcp::BadSettingError&) {
				return true;
			} catch (dcp::DuplicateIdError&) {
				return true;
			} catch (dcp::NoReelsError&) {
				return true;
			}
			return false;
		};
		MC_CHECK(refused([&]() { c.set_version_number(-1); }), "a negative version number was accepted");
		MC_CHECK(refused([&]() { c.set_main_picture_active_area(dcp::Size(1997, 1080)); }), "an odd width was accepted");
		MC_CHECK(refused([&]() { c.set_main_picture_active_area(dcp::Size(1998, 1079)); }), "an odd height was accepted");
		MC_CHECK(refused([&]() { c.set_content_versions({ dcp::ContentVersion("a", "x"), dcp::ContentVersion("b", "x"), dcp::ContentVersion("a", "y") }); }), "repeated ids of content versions were accepted");
		MC_CHECK(refused([&]() { c.write_xml(mc::scratch() + "/none.xml", {}); }), "a CPL without reels was written");
		MC_CHECK(!c.version_number() && !c.main_picture_active_area() && c.content_versions().size() == 1, "something refused was kept");
		c.set_version_number(3);
		c.unset_version_number();
		MC_CHECK(!c.version_number(), "the version number was kept");
	}
	mc::finish();
}
