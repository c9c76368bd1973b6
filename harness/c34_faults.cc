/* C34: failures of the disk.  Each thing which is written or read is done once with nothing wrong, and then again with every failure
 * of every system call; it must give the same result or say that it failed.
 */

#include "assets.h"
#include "certificate_chain.h"
#include "combine.h"
#include "decrypted_kdm.h"
#include "encrypted_kdm.h"
#include "exceptions.h"
#include "faults.h"
#include "font_asset.h"
#include "mono_j2k_picture_asset_reader.h"
#include "mono_j2k_picture_frame.h"
#include "mono_mpeg2_picture_asset.h"
#include "mpeg2_picture_asset_writer.h"
#include "pkl.h"
#include "search.h"
#include "sound_asset_reader.h"
#include "sound_frame.h"
#include "util.h"
#include "verify.h"
#include "mc.h"
#include <regex>

using std::function;
using std::make_shared;
using std::map;
using std::shared_ptr;
using std::string;
using std::vector;
using boost::optional;
namespace fs = boost::filesystem;

static dcp::Key const key("00112233445566778899aabbccddeeff");
static dcp::Standard const SMPTE = dcp::Standard::SMPTE;
static dcp::Standard const INTEROP = dcp::Standard::INTEROP;

static string const date = "2020-01-01T00:00:00+00:00";

struct Op
{
	string name;
	/** put things in a directory; done each time, with no failures */
	function<void (fs::path)> prepare;
	/** @return description of what was read, if anything */
	function<string (fs::path)> run;
};

static string contents(uint8_t const* data, int size)
{
	return assets::digest(string(reinterpret_cast<char const*>(data), size));
}

static shared_ptr<dcp::CertificateChain> signer()
{
	static auto chain = make_shared<dcp::CertificateChain>(fs::path("openssl"), 3650);
	return chain;
}

static string without_ids(string const& s)
{
	/* Names of files, and what is read, may have ids in them which are different each time */
	static std::regex const id("[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}");
	return std::regex_replace(s, id, "ID");
}

static map<string, string> snapshot(fs::path dir)
{
	map<string, string> out;
	for (fs::recursive_directory_iterator i(dir), end; i != end; ++i) {
		auto const name = without_ids(i->path().string().substr(dir.string().length()));
		/* Put together files whose names are only different in their IDs */
		out[name] += "(file)" + (fs::is_directory(i->path()) ? "" : assets::slurp(i->path()));
	}
	return out;
}

static shared_ptr<dcp::InteropTextAsset> interop_text()
{
	auto a = make_shared<dcp::InteropTextAsset>();
	a->set_reel_number("1");
	a->set_language("English");
	a->set_movie_title("title");
	a->add_font("font0", assets::png(1));
	a->add_font("font1", dcp::ArrayData(10000));
	a->add(assets::text("Hello", dcp::Time(0, 0, 1, 0, 250), dcp::Time(0, 0, 2, 0, 250), 0.8, string("font0")));
	a->add(assets::image(assets::png(2), dcp::Time(0, 0, 3, 0, 250), dcp::Time(0, 0, 4, 0, 250)));
	return a;
}

static shared_ptr<dcp::SMPTETextAsset> smpte_text(fs::path file, optional<dcp::Key> k = boost::none)
{
	auto asset = make_shared<dcp::SMPTETextAsset>();
	asset->set_language(dcp::LanguageTag("en-GB"));
	asset->set_content_title_text("title");
	asset->set_issue_date(dcp::LocalTime(date));
	asset->set_edit_rate(dcp::Fraction(24, 1));
	asset->set_time_code_rate(24);
	asset->set_intrinsic_duration(48);
	asset->add_font("font", assets::png(50));
	asset->add(assets::text("Hello", dcp::Time(0, 0, 0, 0, 24), dcp::Time(0, 0, 1, 0, 24), 0.8, string("font")));
	asset->add(assets::image(assets::png(2), dcp::Time(0, 0, 3, 0, 24), dcp::Time(0, 0, 4, 0, 24)));
	if (k) {
		asset->set_key(*k);
	}
	asset->write(file);
	return asset;
}

static void package(fs::path dir, dcp::Standard standard, optional<dcp::Key> k = boost::none, shared_ptr<dcp::CertificateChain> chain = {})
{
	fs::create_directories(dir);
	auto reel = make_shared<dcp::Reel>();
	reel->add(make_shared<dcp::ReelMonoPictureAsset>(assets::mono(dir / "pic.mxf", standard, 2, dcp::Size(64, 32), 0, k), 0));
	reel->add(make_shared<dcp::ReelSoundAsset>(assets::sound(dir / "snd.mxf", standard), 0));
	if (standard == INTEROP) {
		auto text = interop_text();
		fs::create_directories(dir / "text");
		text->write(dir / "text" / "sub.xml");
		reel->add(make_shared<dcp::ReelInteropTextAsset>(dcp::TextType::OPEN_SUBTITLE, text, dcp::Fraction(24, 1), 48, 0));
	} else {
		reel->add(make_shared<dcp::ReelSMPTETextAsset>(dcp::TextType::OPEN_SUBTITLE, smpte_text(dir / "sub.mxf"), dcp::Fraction(24, 1), 48, 0));
	}
	auto cpl = make_shared<dcp::CPL>("title", dcp::ContentKind::FEATURE, standard, dcp::Profile::SMPTE_A);
	cpl->set_issue_date(date);
	cpl->set_content_version(dcp::ContentVersion("id", "label"));
	cpl->add(reel);
	dcp::DCP d(dir);
	d.set_issue_date(date);
	d.add(cpl);
	d.write_xml(chain);
}

static string describe(dcp::DCP const& dcp)
{
	string s;
	for (auto cpl: dcp.cpls()) {
		s += "CPL " + cpl->content_title_text();
		for (auto a: cpl->reel_file_assets()) {
			s += " " + string(a->asset_ref().resolved() ? "resolved" : "missing") + " " + a->hash().get_value_or("none");
			if (a->asset_ref().resolved()) {
				if (auto t = std::dynamic_pointer_cast<dcp::TextAsset>(a->asset_ref().asset())) {
					for (auto const& f: t->font_data()) {
						s += " " + f.first + contents(f.second.data(), f.second.size());
					}
					for (auto i: t->texts()) {
						if (auto image = std::dynamic_pointer_cast<const dcp::TextImage>(i)) {
							s += " image " + contents(image->png_image().data(), image->png_image().size());
						} else {
							s += " text " + std::dynamic_pointer_cast<const dcp::TextString>(i)->text();
						}
					}
				}
			}
		}
	}
	return s;
}

static string mpeg2(int n)
{
	return string("\x00\x00\x01\xb3\x2d\x02\x40\x33\x00\x00\x00\x00", 12) + string(20 + n * 5, char(n + 1));
}

static vector<Op> ops()
{
	vector<Op> o;
	auto nothing = [](fs::path) {};
	auto add = [&](string name, function<void (fs::path)> prepare, function<string (fs::path)> run) {
		o.push_back({ name, prepare, run });
	};

	/* Documents */
	for (int standard = 0; standard < 2; ++standard) {
		auto const s = standard ? INTEROP : SMPTE;
		string const in = standard ? " in Interop" : "";
		for (int sign = 0; sign < 2; ++sign) {
			auto chain = sign ? signer() : shared_ptr<dcp::CertificateChain>();
			string const how = in + (sign ? ", signed" : "");
			auto cpl = make_shared<dcp::CPL>("title", dcp::ContentKind::FEATURE, s, dcp::Profile::SMPTE_A);
			cpl->set_issue_date(date);
			cpl->set_content_version(dcp::ContentVersion("id", "label"));
			auto reel = make_shared<dcp::Reel>();
			reel->add(make_shared<dcp::ReelMonoPictureAsset>(assets::mono(fs::path(mc::scratch()) / "p.mxf", s), 0));
			cpl->add(reel);
			add("writing a CPL" + how, nothing, [cpl, chain](fs::path p) { cpl->write_xml(p / "cpl.xml", chain); return string(); });
			/* A long one */
			auto longer = make_shared<dcp::CPL>("title", dcp::ContentKind::FEATURE, s, dcp::Profile::SMPTE_A);
			longer->set_issue_date(date);
			longer->set_content_version(dcp::ContentVersion("id", "label"));
			for (int i = 0; i < 20; ++i) {
				longer->add(reel);
			}
			add("writing a long CPL" + how, nothing, [longer, chain](fs::path p) { longer->write_xml(p / "cpl.xml", chain); return string(); });
			for (int n: { 1, 100 }) {
				auto pkl = make_shared<dcp::PKL>(s, string("annotation"), date, string("issuer"), string("creator"));
				for (int i = 0; i < n; ++i) {
					pkl->add_asset(dcp::make_uuid(), string("annotation"), "hash", 42, "type", "name");
				}
				add(mc::format("writing a PKL of %d assets", n) + how, nothing, [pkl, chain](fs::path p) { pkl->write_xml(p / "pkl.xml", chain); return string(); });
			}
		}
		for (int n: { 1, 40 }) {
			add(mc::format("writing an asset map of %d assets", n) + in, [](fs::path p) { assets::put(p / "file", "x"); }, [s, n](fs::path p) {
				dcp::AssetMap map(s, string("annotation"), date, string("issuer"), string("creator"));
				for (int i = 0; i < n; ++i) {
					map.add_asset(dcp::make_uuid(), p / "file", i == 0);
				}
				map.write_xml(p / "ASSETMAP.xml");
				return string();
			});
		}
		add("making a package" + in, nothing, [s](fs::path p) { package(p / "dcp", s); return string(); });
		add("reading a package" + in, [s](fs::path p) { package(p / "dcp", s); }, [s](fs::path p) {
			dcp::DCP d(p / "dcp");
			d.read();
			return describe(d);
		});
		add("combining packages" + in, [s](fs::path p) { package(p / "one", s); package(p / "two", s); }, [s](fs::path p) {
			dcp::combine({ p / "one", p / "two" }, p / "out", "issuer", "creator", date, "annotation");
			return string();
		});
		add("verifying a bad package" + in, [s](fs::path p) {
			package(p / "dcp", s);
			auto pic = assets::slurp(p / "dcp" / "pic.mxf");
			pic[16384 + 200] ^= 1;
			assets::put(p / "dcp" / "pic.mxf", pic);
		}, [s](fs::path p) {
			dcp::VerificationOptions options;
			options.check_picture_details = false;
			auto const result = dcp::verify({ p / "dcp" }, {}, [](string, optional<fs::path>) {}, [](float) {}, options, fs::path(getenv("LIBDCP_RESOURCES")) / "xsd");
			for (auto const& n: result.notes) {
				if (n.type() == dcp::VerificationNote::Type::ERROR || n.type() == dcp::VerificationNote::Type::BV21_ERROR) {
					return string("bad");
				}
			}
			return string("good");
		});
		add("finding playlists" + in, [s](fs::path p) { package(p / "dcp", s); }, [](fs::path p) {
			string r;
			for (auto c: dcp::find_and_resolve_cpls({ p / "dcp" }, false)) {
				r += c->content_title_text() + (c->reel_file_assets()[0]->asset_ref().resolved() ? " resolved" : " missing");
			}
			return r;
		});
	}

	/* Assets */
	for (int encrypted = 0; encrypted < 2; ++encrypted) {
		auto const k = encrypted ? optional<dcp::Key>(key) : boost::none;
		string const how = encrypted ? ", encrypted" : "";
		add("writing a picture" + how, nothing, [k](fs::path p) { assets::mono(p / "p.mxf", SMPTE, 2, dcp::Size(64, 32), 0, k); return string(); });
		add("writing a 3D picture" + how, nothing, [k](fs::path p) {
			auto a = make_shared<dcp::StereoJ2KPictureAsset>(dcp::Fraction(24, 1), SMPTE);
			if (k) {
				a->set_key(*k);
			}
			auto w = a->start_write(p / "p.mxf", dcp::Behaviour::MAKE_NEW);
			auto const d = assets::j2k(dcp::Size(64, 32), 0);
			for (int i = 0; i < 4; ++i) {
				w->write(d.data(), d.size());
			}
			w->finalize();
			return string();
		});
		add("writing an MPEG2 picture" + how, nothing, [k](fs::path p) {
			auto a = make_shared<dcp::MonoMPEG2PictureAsset>(dcp::Fraction(24, 1));
			if (k) {
				a->set_key(*k);
			}
			auto w = a->start_write(p / "p.mxf", dcp::Behaviour::MAKE_NEW);
			for (int i = 0; i < 3; ++i) {
				auto const f = mpeg2(i);
				w->write(reinterpret_cast<uint8_t const*>(f.data()), f.size());
			}
			w->finalize();
			return string();
		});
		add("writing a sound" + how, nothing, [k](fs::path p) { assets::sound(p / "s.mxf", SMPTE, 2, 2, 0.1, k); return string(); });
		add("writing an Atmos" + how, nothing, [k](fs::path p) { assets::atmos(p / "s.mxf", 2, 1, k); return string(); });
		add("writing a text" + how, nothing, [k](fs::path p) {
			smpte_text(p / "t.mxf", k);
			return string();
		});
		add("reading a picture" + how, [k](fs::path p) { assets::mono(p / "p.mxf", SMPTE, 2, dcp::Size(64, 32), 0, k); }, [k](fs::path p) {
			dcp::MonoJ2KPictureAsset a(p / "p.mxf");
			if (k) {
				a.set_key(*k);
			}
			string r = a.id();
			for (int i = 0; i < a.intrinsic_duration(); ++i) {
				auto f = a.start_read()->get_frame(i);
				r += " " + contents(f->data(), f->size());
			}
			return r + " " + a.hash();
		});
		add("reading a sound" + how, [k](fs::path p) { assets::sound(p / "s.mxf", SMPTE, 2, 2, 0.1, k); }, [k](fs::path p) {
			dcp::SoundAsset a(p / "s.mxf");
			if (k) {
				a.set_key(*k);
			}
			string r = a.id();
			for (int i = 0; i < a.intrinsic_duration(); ++i) {
				auto f = a.start_read()->get_frame(i);
				r += " " + contents(f->data(), f->size());
			}
			return r;
		});
		add("reading a text" + how, [k](fs::path p) { smpte_text(p / "t.mxf", k); }, [k](fs::path p) {
			dcp::SMPTETextAsset a(p / "t.mxf");
			if (k) {
				a.set_key(*k);
			}
			string r = a.id() + " " + a.xml_as_string();
			for (auto const& f: a.font_data()) {
				r += " " + f.first + contents(f.second.data(), f.second.size());
			}
			return r;
		});
	}
	add("writing an Interop text", nothing, [](fs::path p) { interop_text()->write(p / "sub.xml"); return string(); });
	auto text = interop_text();
	for (int i = 0; i < 100; ++i) {
		text->add(assets::text("Hello", dcp::Time(0, 0, 10 + i, 0, 250), dcp::Time(0, 0, 11 + i, 0, 250), 0.8, string("font0")));
	}
	add("writing a long Interop text", nothing, [text](fs::path p) { text->write(p / "sub.xml"); return string(); });
	add("reading an Interop text", [](fs::path p) { interop_text()->write(p / "sub.xml"); }, [](fs::path p) {
		dcp::InteropTextAsset a(p / "sub.xml");
		a.resolve_fonts({ make_shared<dcp::FontAsset>("font0", p / "font_0.ttf"), make_shared<dcp::FontAsset>("font1", p / "font_1.ttf") });
		string r = a.xml_as_string();
		for (auto const& f: a.font_data()) {
			r += " " + f.first + contents(f.second.data(), f.second.size());
		}
		for (auto i: a.texts()) {
			if (auto image = std::dynamic_pointer_cast<const dcp::TextImage>(i)) {
				r += " image " + contents(image->png_image().data(), image->png_image().size());
			}
		}
		return r;
	});
	for (int size: { 10, 4096, 10000 }) {
		add(mc::format("writing an image of %d bytes", size), nothing, [size](fs::path p) {
			assets::image(dcp::ArrayData(size), dcp::Time(), dcp::Time())->write_png_file(p / "image.png");
			return string();
		});
		add(mc::format("reading an image of %d bytes", size), [size](fs::path p) { assets::put(p / "image.png", string(size, 'x')); }, [size](fs::path p) {
			dcp::ArrayData png;
			auto image = assets::image(png, dcp::Time(), dcp::Time());
			image->read_png_file(p / "image.png");
			return contents(image->png_image().data(), image->png_image().size());
		});
		add(mc::format("writing a string of %d bytes", size), nothing, [size](fs::path p) { dcp::write_string_to_file(string(size, 'x'), p / "file"); return string(); });
	}
	for (int size: { 10, 65536, 200000 }) {
		add(mc::format("reading a string of %d bytes", size), [size](fs::path p) { assets::put(p / "file", string(size, 'x')); }, [](fs::path p) { return assets::digest(dcp::file_to_string(p / "file")); });
		add(mc::format("finding the digest of %d bytes", size), [size](fs::path p) { assets::put(p / "file", string(size, 'x')); }, [](fs::path p) { return dcp::make_digest(p / "file", [](int64_t, int64_t) {}); });
	}

	/* KDMs and certificates */
	dcp::LocalTime from, to;
	from.add_days(30);
	to.add_days(60);
	dcp::DecryptedKDM decrypted(from, to, "annotation", "title", date);
	decrypted.add_key(string("MDIK"), dcp::make_uuid(), key, dcp::make_uuid(), SMPTE);
	auto kdm = make_shared<dcp::EncryptedKDM>(decrypted.encrypt(signer(), signer()->leaf(), {}, dcp::Formulation::MODIFIED_TRANSITIONAL_1, true, 0));
	add("writing a KDM", nothing, [kdm](fs::path p) { kdm->as_xml(p / "kdm.xml"); return string(); });
	return o;
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	dcp::init();

	auto const root = fs::canonical(mc::scratch());
	auto const dir = root / "d";
	auto const result_file = root / "result";
	uint64_t unit = 0;

	for (auto const& op: ops()) {
		/* What reads need only be prepared once */
		bool const writes = op.name[0] == 'w' || op.name[0] == 'm' || op.name[0] == 'c';
		bool prepared = false;
		auto run = [&](vector<faults::Fault> const& f) {
			fs::remove(result_file);
			if (writes || !prepared) {
				fs::remove_all(dir);
				fs::create_directories(dir);
				/* In a child, so that it is the same each time */
				faults::run("/nowhere", [&]() { op.prepare(dir); return 0; }, {});
				prepared = true;
			}
			return faults::run(dir.string(), [&]() {
				try {
					assets::put(result_file, op.run(dir));
				} catch (std::exception& e) {
					assets::put(result_file, string("threw ") + e.what());
					return 51;
				}
				return 50;
			}, f);
		};

		/* Once with nothing wrong, and again to see what is always the same */
		auto const good = run({});
		if (good.code != 50) {
			printf("%s does not work (%d, signal %d): %s\n", op.name.c_str(), good.code, good.signal, assets::slurp(result_file).c_str());
			mc::at(op.name);
			mc::violation(op.name + " does not work: " + assets::slurp(result_file));
		}
		auto const files = snapshot(dir);
		auto const result = without_ids(assets::slurp(result_file));
		run({});
		auto const again = snapshot(dir);
		bool const same_result = result == without_ids(assets::slurp(result_file));

		for (int call = 0; call < int(good.calls.size()); ++call) {
			auto const& c = good.calls[call];
			if (!mc::thorough() && op.name[0] == 'c' && c.path.find("out/") == string::npos) {
				/* Failures to read are looked at in reading a package */
				continue;
			}
			vector<faults::Fault> all;
			all.push_back({ call, faults::Kind::ERROR, EIO });
			if (c.needs_room()) {
				all.push_back({ call, faults::Kind::ERROR, ENOSPC });
				all.push_back({ call, faults::Kind::FULL, 0 });
			}
			if (c.name == "open" || c.name == "openat") {
				all.push_back({ call, faults::Kind::ERROR, EMFILE });
			}
			if (c.name == "open" || c.name == "openat" || c.name == "mkdir" || c.name == "rename" || c.name == "link") {
				all.push_back({ call, faults::Kind::ERROR, EACCES });
			}
			if (c.transfer()) {
				std::set<int64_t> lengths = { 1, int64_t(c.length / 2), int64_t(c.length) - 1 };
				for (auto l: lengths) {
					if (l > 0 && l < int64_t(c.length)) {
						all.push_back({ call, faults::Kind::SHORT, l });
					}
				}
			}
			for (size_t f = 0; f < all.size(); ++f) {
				if (!mc::mine(unit++) || !mc::at(mc::format("%s: %d %d", op.name.c_str(), call, int(f)))) {
					continue;
				}
				auto const r = run({ all[f] });
				mc::transition();
				mc::trace();
				auto const said = assets::slurp(result_file);
				auto const what = op.name + " with " + faults::describe({ all[f] }, r);
				mc::state(mc::format("%s %s %d", op.name.c_str(), c.name.c_str(), r.code));
				mc::outcome(r.code == 51 ? "reported" : "no effect");
				if (r.signal || (r.code != 50 && r.code != 51)) {
					mc::violation(mc::format("%s ends with signal %d, code %d", what.c_str(), r.signal, r.code));
					continue;
				}
				if (r.code == 51) {
					continue;
				}
				if (same_result) {
					MC_CHECK(without_ids(said) == result, "%s gives something else", what.c_str());
				} else {
					MC_CHECK(said.size() == result.size(), "%s gives something else", what.c_str());
				}
				if (!writes) {
					continue;
				}
				auto const now = snapshot(dir);
				for (auto const& i: files) {
					if (!now.count(i.first)) {
						mc::violation(mc::format("%s: %s is not written, and nothing is said", what.c_str(), i.first.c_str()));
						continue;
					}
					bool const same = again.count(i.first) && again.at(i.first) == i.second;
					MC_CHECK(same ? now.at(i.first) == i.second : now.at(i.first).size() == i.second.size(), "%s: %s is not written right, and nothing is said", what.c_str(), i.first.c_str());
				}
			}
		}
	}
	mc::finish();
}
