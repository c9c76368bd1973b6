/* C24: the files which say what is in a DCP.  Histories of building, writing, reading and changing a DCP; after each write the
 * asset map, packing list and playlists on the disk are read by the harness and compared with what there is.
 */

#include "assets.h"
#include "exceptions.h"
#include "pkl.h"
#include "util.h"
#include "mc.h"
#include "xmlref.h"

using std::make_shared;
using std::map;
using std::set;
using std::shared_ptr;
using std::string;
using std::vector;
using boost::optional;
namespace fs = boost::filesystem;

static string const group_id = "11111111-2222-4333-8444-555555555555";

static void make_pool(fs::path pool, dcp::Standard s)
{
	fs::create_directories(pool / "ov");
	assets::mono(pool / "p0.mxf", s, 2, dcp::Size(64, 32), 0);
	assets::mono(pool / "p1.mxf", s, 3, dcp::Size(64, 32), 100);
	assets::sound(pool / "s0.mxf", s, 2);
	assets::sound(pool / "s1.mxf", s, 2, 6, 0.5);
	assets::atmos(pool / "a0.mxf");
	assets::mono(pool / "ov" / "p2.mxf", s, 2, dcp::Size(64, 32), 200);
}

/** What is in an object or on the disk */
struct Contents
{
	struct CPL
	{
		string id;
		vector<string> refs;
		optional<string> filename;
		string title;
	};

	vector<CPL> cpls;
	optional<string> pkl_id;
	optional<string> pkl_filename;
	optional<string> map_id;
	optional<string> text;
	bool group = false;
};

struct World
{
	dcp::Standard standard;
	fs::path dir;
	fs::path ov;
	shared_ptr<dcp::DCP> dcp;
	Contents now;
	optional<Contents> disk;
	int texts = 0;

	struct File
	{
		fs::path path;
		string type;
		/** ids of the fonts and images of an Interop text */
		vector<string> with;
	};
	map<string, File> files;

	shared_ptr<dcp::MonoJ2KPictureAsset> p0, p1, p2;
	shared_ptr<dcp::SoundAsset> s0, s1;
	shared_ptr<dcp::AtmosAsset> a0;
	shared_ptr<dcp::TextAsset> t0, t2, t3, c0;

	World(fs::path root, fs::path pool, dcp::Standard s)
		: standard(s)
		, dir(root / "dcp")
		, ov(root / "ov")
	{
		bool const smpte = s == dcp::Standard::SMPTE;
		fs::remove_all(root);
		fs::create_directories(dir / "sub dir");
		fs::create_directories(ov);
		auto copy = [&](string from, fs::path to) {
			fs::copy_file(pool / from, to);
			return to;
		};
		string const picture = smpte ? "application/mxf" : "application/x-smpte-mxf;asdcpKind=Picture";
		string const sound = smpte ? "application/mxf" : "application/x-smpte-mxf;asdcpKind=Sound";
		auto know = [&](shared_ptr<dcp::Asset> a, string type) {
			files[a->id()] = { *a->file(), type, {} };
		};
		p0 = make_shared<dcp::MonoJ2KPictureAsset>(copy("p0.mxf", dir / "p0.mxf"));
		p1 = make_shared<dcp::MonoJ2KPictureAsset>(copy("p1.mxf", dir / "sub dir" / "p1.mxf"));
		p2 = make_shared<dcp::MonoJ2KPictureAsset>(copy("ov/p2.mxf", ov / "p2.mxf"));
		s0 = make_shared<dcp::SoundAsset>(copy("s0.mxf", dir / "s0.mxf"));
		s1 = make_shared<dcp::SoundAsset>(copy("s1.mxf", dir / "s1 & é.mxf"));
		a0 = make_shared<dcp::AtmosAsset>(copy("a0.mxf", dir / "a0.mxf"));
		know(p0, picture);
		know(p1, picture);
		know(p2, picture);
		know(s0, sound);
		know(s1, sound);
		know(a0, "application/mxf");
		if (smpte) {
			t0 = assets::smpte_text(dir / "t0.mxf");
			c0 = assets::smpte_text(dir / "c0.mxf", 48, boost::none, "Closed");
			t2 = assets::smpte_text(ov / "t2.mxf", 48, boost::none, "Elsewhere");
			know(t0, "application/mxf");
			know(t2, "application/mxf");
			know(c0, "application/mxf");
		} else {
			t0 = interop(dir / "t0", 2);
			c0 = interop(dir / "c0", 1);
			t2 = interop(ov / "t2", 1);
			/* One which has the same font as t0 */
			auto text = assets::slurp(dir / "t0" / "text.xml");
			auto const id = text.find("<SubtitleID>") + 12;
			text.replace(id, 36, "12345678-abcd-4abc-8def-0123456789ab");
			for (size_t i; (i = text.find("<Subtitle ")) != string::npos && text.find("<Image", i) != string::npos; ) {
				text.erase(i, text.find("</Subtitle>", i) + 11 - i);
			}
			assets::put(dir / "t0" / "other.xml", text);
			auto t = make_shared<dcp::InteropTextAsset>(dir / "t0" / "other.xml");
			auto const fonts = std::dynamic_pointer_cast<dcp::InteropTextAsset>(t0)->font_assets();
			t->resolve_fonts(fonts);
			know(t, "text/xml;asdcpKind=Subtitle");
			files[t->id()].with = { fonts[0]->id() };
			t3 = t;
		}
		dcp = make_shared<dcp::DCP>(dir);
	}

	shared_ptr<dcp::TextAsset> interop(fs::path where, int images)
	{
		fs::create_directories(where);
		auto t = make_shared<dcp::InteropTextAsset>();
		t->set_reel_number("1");
		t->set_language("English");
		t->set_movie_title("title");
		t->add(assets::text("Hello", dcp::Time(0, 0, 0, 0, 250), dcp::Time(0, 0, 1, 0, 250), 0.8, string("font")));
		vector<shared_ptr<dcp::TextImage>> im;
		for (int i = 0; i < images; ++i) {
			im.push_back(assets::image(assets::png(i), dcp::Time(0, 0, 2 + i, 0, 250), dcp::Time(0, 0, 3 + i, 0, 250)));
			t->add(im.back());
		}
		t->add_font("font", assets::png(77));
		t->write(where / "text.xml");
		files[t->id()] = { where / "text.xml", "text/xml;asdcpKind=Subtitle", {} };
		for (auto f: t->font_assets()) {
			files[t->id()].with.push_back(f->id());
			files[f->id()] = { where / "font_0.ttf", "application/ttf", {} };
		}
		for (auto i: im) {
			files[t->id()].with.push_back(i->id());
			files[i->id()] = { where / (i->id() + ".png"), "image/png", {} };
		}
		return t;
	}

	bool inside(string const& id) const {
		return files.at(id).path.string().substr(0, dir.string().length() + 1) == dir.string() + "/";
	}

	shared_ptr<dcp::Reel> reel(shared_ptr<dcp::MonoJ2KPictureAsset> p, shared_ptr<dcp::SoundAsset> s, shared_ptr<dcp::TextAsset> t, shared_ptr<dcp::TextAsset> c, shared_ptr<dcp::AtmosAsset> a, Contents::CPL& m)
	{
		auto r = make_shared<dcp::Reel>();
		if (p) {
			r->add(make_shared<dcp::ReelMonoPictureAsset>(p, 0));
			m.refs.push_back(p->id());
		}
		if (s) {
			r->add(make_shared<dcp::ReelSoundAsset>(s, 0));
			m.refs.push_back(s->id());
		}
		for (int i = 0; i < 2; ++i) {
			auto x = i ? c : t;
			auto const type = i ? dcp::TextType::CLOSED_CAPTION : dcp::TextType::OPEN_SUBTITLE;
			if (x) {
				if (auto smpte = std::dynamic_pointer_cast<dcp::SMPTETextAsset>(x)) {
					r->add(make_shared<dcp::ReelSMPTETextAsset>(type, smpte, dcp::Fraction(24, 1), 48, 0));
				} else {
					r->add(make_shared<dcp::ReelInteropTextAsset>(type, x, dcp::Fraction(24, 1), 48, 0));
				}
				m.refs.push_back(x->id());
			}
		}
		if (a) {
			r->add(make_shared<dcp::ReelAtmosAsset>(a, 0));
			m.refs.push_back(a->id());
		}
		return r;
	}

	void add(int which)
	{
		auto cpl = make_shared<dcp::CPL>("title", dcp::ContentKind::FEATURE, standard, dcp::Profile::SMPTE_A);
		Contents::CPL m;
		m.id = cpl->id();
		m.title = "title";
		switch (which) {
		case 0:
			cpl->add(reel(p0, s0, nullptr, nullptr, nullptr, m));
			break;
		case 1:
			cpl->add(reel(p0, s0, nullptr, nullptr, nullptr, m));
			cpl->add(reel(p1, nullptr, t0, t3, nullptr, m));
			cpl->add(reel(p0, s1, nullptr, nullptr, nullptr, m));
			break;
		case 2:
			cpl->add(reel(p2, s0, t2, nullptr, nullptr, m));
			break;
		case 3:
			cpl->add(reel(p0, s1, t0, c0, a0, m));
			break;
		}
		dcp->add(cpl);
		now.cpls.push_back(m);
	}

	shared_ptr<dcp::CPL> first() const {
		for (auto c: dcp->cpls()) {
			if (c->id() == now.cpls[0].id) {
				return c;
			}
		}
		MC_CHECK(false, "a CPL went missing");
	}

	void check_disk() const;
	void check_assets() const;
	void check_read(dcp::DCP& d) const;

	/** @return false if there's no more to do */
	bool step(int op)
	{
		mc::transition();
		switch (op) {
		case 0: case 1: case 2: case 3:
			add(op);
			break;
		case 4: case 5: case 6:
		{
			auto const format = op == 6 ? "x_%t" : "%t";
			if (op == 6) {
				dcp->write_xml({}, dcp::Filenames::NEW, dcp::NameFormat(format), group_id);
			} else {
				dcp->write_xml({}, op == 5 ? dcp::Filenames::ORIGINAL : dcp::Filenames::NEW);
			}
			auto name = [&](optional<string>& f, string type, string id) {
				if (op != 5 || !f) {
					f = (op == 6 ? "x_" : "") + type + "_" + id + ".xml";
				}
			};
			for (auto& c: now.cpls) {
				name(c.filename, "cpl", c.id);
			}
			MC_CHECK(dcp->pkls().size() == 1, "there are %zu packing lists", dcp->pkls().size());
			auto const id = dcp->pkls()[0]->id();
			MC_CHECK(!now.pkl_id || *now.pkl_id == id, "the id of the packing list changed");
			if (!now.pkl_id) {
				now.group = op == 6 && standard == dcp::Standard::SMPTE;
			}
			now.pkl_id = id;
			name(now.pkl_filename, "pkl", id);
			MC_CHECK(bool(dcp->asset_map()), "there is no asset map");
			auto const map_id = dcp->asset_map()->id();
			MC_CHECK(!now.map_id || *now.map_id == map_id, "the id of the asset map changed");
			now.map_id = map_id;
			MC_CHECK(dcp->standard() && *dcp->standard() == standard, "wrong standard");
			disk = now;
			check_disk();
			break;
		}
		case 7:
		{
			dcp = make_shared<dcp::DCP>(dir);
			if (!disk) {
				try {
					dcp->read();
				} catch (dcp::ReadError&) {
					return false;
				}
				MC_CHECK(false, "a DCP which was not written was read");
			}
			now = *disk;
			check_read(*dcp);
			break;
		}
		case 8:
			now.text = string("it's <new> & improved");
			dcp->set_issuer("I " + *now.text);
			dcp->set_creator("C " + *now.text);
			dcp->set_issue_date("2020-01-02T03:04:05+00:00");
			dcp->set_annotation_text("A " + *now.text);
			break;
		case 9:
			if (now.cpls.empty()) {
				return false;
			}
			first()->set_annotation_text("changed");
			now.cpls[0].title = "changed";
			break;
		case 10:
		{
			if (now.cpls.empty()) {
				return false;
			}
			auto r = first()->reels()[0];
			auto const old = r->main_sound()->asset_ref().id();
			r->add(make_shared<dcp::ReelSoundAsset>(s1, 0));
			*std::find(now.cpls[0].refs.begin(), now.cpls[0].refs.end(), old) = s1->id();
			break;
		}
		case 11:
			dcp->resolve_refs({ p2, t2 });
			break;
		case 12:
		{
			dcp::DCP other(std::move(*dcp));
			auto again = make_shared<dcp::DCP>(ov);
			*again = std::move(other);
			dcp = again;
			MC_CHECK(dcp->directory() == fs::canonical(dir), "a moved DCP has the wrong directory");
			break;
		}
		case 13:
		{
			/* Change a text asset of the DCP */
			shared_ptr<dcp::ReelTextAsset> found;
			vector<shared_ptr<dcp::ReelTextAsset>> all;
			for (auto c: dcp->cpls()) {
				for (auto r: c->reels()) {
					if (r->main_subtitle() && r->main_subtitle()->asset_ref().resolved() && inside(r->main_subtitle()->asset_ref().id())) {
						if (!found) {
							found = r->main_subtitle();
						}
						all.push_back(r->main_subtitle());
					}
				}
			}
			if (!found) {
				return false;
			}
			auto asset = found->asset();
			auto const before = asset->hash();
			asset->add(assets::text(mc::format("More %d", texts++), dcp::Time(0, 0, 10 + texts, 0, 24), dcp::Time(0, 0, 11 + texts, 0, 24)));
			asset->write(*asset->file());
			auto const after = asset->hash();
			MC_CHECK(after == assets::digest(assets::slurp(*asset->file())), "the hash of a text asset which has been changed and written is not that of its file");
			MC_CHECK(before != after, "the hash of a text asset did not change with its file");
			for (auto i: all) {
				i->set_hash(after);
				/* The same text may have been read for the other playlists */
				if (i->asset() != asset) {
					return false;
				}
			}
			t0 = asset;
			break;
		}
		}
		check_assets();
		return true;
	}
};

void World::check_disk() const
{
	bool const smpte = standard == dcp::Standard::SMPTE;
	auto file = [&](string name) {
		MC_CHECK(fs::is_regular_file(dir / name), "%s was not written", name.c_str());
		return assets::slurp(dir / name);
	};
	auto check_texts = [&](xmlref::Node const& n, char const* what) {
		if (now.text) {
			MC_CHECK(
				n.child("Issuer") == "I " + *now.text && n.child("Creator") == "C " + *now.text && n.child("IssueDate") == "2020-01-02T03:04:05+00:00" && n.child("AnnotationText") == "A " + *now.text,
				"the texts of the %s are not those which were set", what);
		} else {
			MC_CHECK(!n.child("Issuer").empty() && !n.child("Creator").empty() && n.child("IssueDate").length() == 25, "the %s does not have an issuer, creator and date", what);
		}
	};
	/* What there should be */
	map<string, World::File> want;
	for (auto const& c: now.cpls) {
		want[c.id] = { dir / *c.filename, smpte ? "text/xml" : "text/xml;asdcpKind=CPL", {} };
		for (auto const& r: c.refs) {
			if (inside(r)) {
				want[r] = files.at(r);
				for (auto const& w: files.at(r).with) {
					want[w] = files.at(w);
				}
			}
		}
	}
	auto relative = [&](fs::path p) {
		return p.string().substr(dir.string().length() + 1);
	};

	auto const pkl = xmlref::parse(file(*now.pkl_filename));
	MC_CHECK(pkl.name == "PackingList" && pkl.ns == (smpte ? "http://www.smpte-ra.org/schemas/429-8/2007/PKL" : "http://www.digicine.com/PROTO-ASDCP-PKL-20040311#"), "the packing list has the wrong root");
	MC_CHECK(pkl.child("Id") == "urn:uuid:" + *now.pkl_id, "the packing list has the wrong id");
	MC_CHECK(pkl.child("GroupId") == (now.group ? "urn:uuid:" + group_id : "(none)"), "the packing list has the group %s", pkl.child("GroupId").c_str());
	check_texts(pkl, "packing list");
	set<string> seen;
	for (auto const& a: pkl.one("AssetList").all("Asset")) {
		auto const id = a.child("Id").substr(9);
		MC_CHECK(want.count(id), "the packing list has an asset which is not in the DCP");
		MC_CHECK(seen.insert(id).second, "the packing list has asset %s twice", relative(want[id].path).c_str());
		auto const& w = want[id];
		auto const data = assets::slurp(w.path);
		MC_CHECK(a.child("Hash") == assets::digest(data), "the packing list has the wrong hash for %s", relative(w.path).c_str());
		MC_CHECK(a.child("Size") == mc::format("%zu", data.size()), "the packing list has the wrong size for %s", relative(w.path).c_str());
		MC_CHECK(a.child("Type") == w.type, "the packing list has the type %s for %s", a.child("Type").c_str(), relative(w.path).c_str());
		MC_CHECK(a.child("OriginalFileName") == w.path.filename().string(), "the packing list has the name %s for %s", a.child("OriginalFileName").c_str(), relative(w.path).c_str());
	}
	MC_CHECK(seen.size() == want.size(), "the packing list has %zu assets instead of %zu", seen.size(), want.size());

	auto const am = xmlref::parse(file(smpte ? "ASSETMAP.xml" : "ASSETMAP"));
	MC_CHECK(am.name == "AssetMap" && am.ns == (smpte ? "http://www.smpte-ra.org/schemas/429-9/2007/AM" : "http://www.digicine.com/PROTO-ASDCP-AM-20040311#"), "the asset map has the wrong root");
	MC_CHECK(am.child("Id") == "urn:uuid:" + *now.map_id && am.child("VolumeCount") == "1", "the asset map has the wrong id or volumes");
	check_texts(am, "asset map");
	want[*now.pkl_id] = { dir / *now.pkl_filename, "", {} };
	seen.clear();
	for (auto const& a: am.one("AssetList").all("Asset")) {
		auto const id = a.child("Id").substr(9);
		MC_CHECK(want.count(id), "the asset map has an asset which is not in the DCP");
		MC_CHECK(seen.insert(id).second, "the asset map has asset %s twice", relative(want[id].path).c_str());
		auto const& w = want[id];
		MC_CHECK(a.child("PackingList") == (id == *now.pkl_id ? "true" : "(none)"), "the asset map is wrong about %s being a packing list", relative(w.path).c_str());
		auto const chunks = a.one("ChunkList").all("Chunk");
		MC_CHECK(chunks.size() == 1, "%s has %zu chunks", relative(w.path).c_str(), chunks.size());
		MC_CHECK(chunks[0].child("Path") == relative(w.path), "the asset map has the path %s for %s", chunks[0].child("Path").c_str(), relative(w.path).c_str());
		MC_CHECK(chunks[0].child("Length") == mc::format("%zu", assets::slurp(w.path).size()), "the asset map has the wrong size for %s", relative(w.path).c_str());
		MC_CHECK(chunks[0].child("VolumeIndex") == "1" && chunks[0].child("Offset") == "0", "the asset map has the wrong volume or offset for %s", relative(w.path).c_str());
	}
	MC_CHECK(seen.size() == want.size(), "the asset map has %zu assets instead of %zu", seen.size(), want.size());

	auto const vi = xmlref::parse(file(smpte ? "VOLINDEX.xml" : "VOLINDEX"));
	MC_CHECK(vi.name == "VolumeIndex" && vi.child("Index") == "1" && vi.ns == (smpte ? "http://www.smpte-ra.org/schemas/429-9/2007/AM" : "http://www.digicine.com/PROTO-ASDCP-VL-20040311#"), "the volume index is wrong");

	string state;
	for (auto const& c: now.cpls) {
		auto const cpl = xmlref::parse(file(*c.filename));
		MC_CHECK(cpl.name == "CompositionPlaylist" && cpl.child("Id") == "urn:uuid:" + c.id && cpl.child("AnnotationText") == c.title, "a playlist is wrong");
		vector<string> refs;
		state += c.title;
		for (auto const& r: cpl.one("ReelList").all("Reel")) {
			for (auto const& a: r.one("AssetList").children) {
				refs.push_back(a.child("Id").substr(9));
				auto const f = files.find(refs.back());
				MC_CHECK(f != files.end(), "a playlist refers to something unknown");
				MC_CHECK(a.child("Hash") == assets::digest(assets::slurp(f->second.path)), "a playlist has the wrong hash for %s", f->second.path.string().c_str());
				state += " " + f->second.path.filename().string();
			}
		}
		auto w = c.refs;
		std::sort(w.begin(), w.end());
		std::sort(refs.begin(), refs.end());
		MC_CHECK(refs == w, "a playlist refers to the wrong assets");
		state += "/" + c.filename->substr(0, 4);
	}
	mc::state(state + mc::format("%d%d%s", smpte, now.group, now.text.get_value_or("").c_str()));

	/* It should be possible to read all this */
	dcp::DCP d(dir);
	check_read(d);
}

/** Each asset of the object once, with the fonts of Interop texts */
void World::check_assets() const
{
	set<string> want;
	for (auto const& c: now.cpls) {
		want.insert(c.id);
	}
	for (auto c: dcp->cpls()) {
		for (auto r: c->reel_file_assets()) {
			auto const& id = r->asset_ref().id();
			if (r->asset_ref().resolved()) {
				want.insert(id);
				if (!files.at(id).with.empty()) {
					want.insert(files.at(id).with[0]);
				}
			} else {
				MC_CHECK(!inside(id), "an asset which is in the DCP is not resolved");
			}
		}
	}
	vector<string> got;
	for (auto i: dcp->assets(true)) {
		got.push_back(i->id());
	}
	std::sort(got.begin(), got.end());
	MC_CHECK(got == vector<string>(want.begin(), want.end()), "the DCP has %zu assets instead of %zu", got.size(), want.size());
}

void World::check_read(dcp::DCP& d) const
{
	vector<dcp::VerificationNote> notes;
	d.read(&notes);
	set<string> external;
	for (auto const& n: notes) {
		MC_CHECK(n.code() == dcp::VerificationNote::Code::EXTERNAL_ASSET, "reading gave note %d", int(n.code()));
		external.insert(*n.asset_id());
	}
	set<string> want_external;
	auto const& m = *disk;
	MC_CHECK(d.cpls().size() == m.cpls.size(), "%zu playlists were read instead of %zu", d.cpls().size(), m.cpls.size());
	bool readable = true;
	for (auto const& c: m.cpls) {
		shared_ptr<dcp::CPL> cpl;
		for (auto i: d.cpls()) {
			if (i->id() == c.id) {
				MC_CHECK(!cpl, "a playlist was read twice");
				cpl = i;
			}
		}
		MC_CHECK(bool(cpl), "a playlist was not read");
		MC_CHECK(cpl->file() && cpl->file()->filename() == *c.filename, "a playlist was read from the wrong file");
		MC_CHECK(cpl->annotation_text() && *cpl->annotation_text() == c.title, "a playlist was read wrongly");
		MC_CHECK(cpl->hash() == assets::digest(assets::slurp(*cpl->file())), "a playlist has the wrong hash");
		vector<string> refs;
		for (auto const& r: cpl->reel_file_assets()) {
			auto const id = r->asset_ref().id();
			refs.push_back(id);
			MC_CHECK(r->asset_ref().resolved() == inside(id), "%s is %s", files.at(id).path.string().c_str(), r->asset_ref().resolved() ? "resolved" : "not resolved");
			if (inside(id)) {
				auto a = r->asset_ref().asset();
				MC_CHECK(a->id() == id && a->file() && fs::equivalent(*a->file(), files.at(id).path), "%s was read from the wrong file", files.at(id).path.string().c_str());
				MC_CHECK(a->hash() == assets::digest(assets::slurp(files.at(id).path)), "%s has the wrong hash", files.at(id).path.string().c_str());
				if (auto t = std::dynamic_pointer_cast<dcp::InteropTextAsset>(a)) {
					auto const fonts = t->font_assets();
					MC_CHECK(fonts.size() == 1 && fonts[0]->id() == files.at(id).with[0], "the font was not found");
					MC_CHECK(t->font_data().size() == 1 && t->font_data().begin()->second == assets::png(77), "the font has the wrong data");
					size_t n = 1;
					for (auto x: t->texts()) {
						if (auto im = std::dynamic_pointer_cast<const dcp::TextImage>(x)) {
							auto const want = assets::slurp(files.at(files.at(id).with[n]).path);
							MC_CHECK(im->id() == files.at(id).with[n] && string(reinterpret_cast<char const*>(im->png_image().data()), im->png_image().size()) == want, "image %zu is wrong", n);
							++n;
						}
					}
					MC_CHECK(n == files.at(id).with.size(), "there are %zu images", n - 1);
				}
			} else {
				want_external.insert(id);
				readable = false;
			}
		}
		auto w = c.refs;
		std::sort(w.begin(), w.end());
		std::sort(refs.begin(), refs.end());
		MC_CHECK(refs == w, "a playlist read from the disk refers to the wrong assets");
	}
	MC_CHECK(external == want_external, "%zu assets are reported to be external, instead of %zu", external.size(), want_external.size());
	MC_CHECK(d.can_be_read() == readable, "it %s be read", d.can_be_read() ? "can" : "can't");
	MC_CHECK(d.standard() && *d.standard() == standard, "wrong standard");
	MC_CHECK(d.pkls().size() == 1 && d.pkls()[0]->id() == *m.pkl_id, "the packing list was not read");
	auto const s = dcp::DCP(dir).cpl_summaries();
	MC_CHECK(s.size() == m.cpls.size(), "there are %zu summaries instead of %zu", s.size(), m.cpls.size());
	for (auto const& c: m.cpls) {
		bool found = false;
		for (auto const& i: s) {
			found = found || (i.cpl_id == c.id && i.cpl_annotation_text.get_value_or("") == c.title && i.cpl_file.filename() == *c.filename && !i.encrypted);
		}
		MC_CHECK(found, "a summary is wrong");
	}
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	dcp::init();
	fs::path const root = fs::canonical(mc::scratch()) / mc::format("s%d", mc::s().shard);
	int64_t unit = 0;
	for (auto s: { dcp::Standard::SMPTE, dcp::Standard::INTEROP }) {
		auto const pool = root / (s == dcp::Standard::SMPTE ? "smpte" : "interop");
		make_pool(pool, s);
		auto run = [&](vector<int> const& v) {
			if (!mc::mine(unit++)) {
				return;
			}
			string key = s == dcp::Standard::SMPTE ? "smpte" : "interop";
			for (auto i: v) {
				key += mc::format(":%d", i);
			}
			if (!mc::at(key)) {
				return;
			}
			World w(root / "w", pool, s);
			for (auto i: v) {
				if (!w.step(i)) {
					return;
				}
			}
		};
		for (int first = 0; first < 4; ++first) {
			for (int n = 0; n <= (mc::thorough() ? 3 : 2); ++n) {
				mc::sequences(14, n, [&](vector<int> const& middle) {
					for (int last = 4; last < 7; ++last) {
						vector<int> v = { first };
						v.insert(v.end(), middle.begin(), middle.end());
						v.push_back(last);
						run(v);
					}
				});
			}
		}
		if (mc::mine(unit++) && mc::at("refused", { int(s) })) {
			/* Nothing to write, and a mixture of standards */
			World w(root / "w", pool, s);
			auto refused = [](dcp::DCP& d) {
				try {
					d.write_xml();
				} catch (dcp::MiscError&) {
					return true;
				}
				return false;
			};
			MC_CHECK(refused(*w.dcp), "a DCP without playlists was written");
			w.add(0);
			auto other = make_shared<dcp::CPL>("x", dcp::ContentKind::FEATURE, s == dcp::Standard::SMPTE ? dcp::Standard::INTEROP : dcp::Standard::SMPTE, dcp::Profile::SMPTE_A);
			other->add(w.dcp->cpls()[0]->reels()[0]);
			w.dcp->add(other);
			MC_CHECK(refused(*w.dcp), "a DCP with a mixture of standards was written");
			MC_CHECK(!fs::exists(w.dir / "ASSETMAP") && !fs::exists(w.dir / "ASSETMAP.xml"), "an asset map was written for a DCP which was refused");
		}
	}
	mc::finish();
}
