/* C35: the command-line tools.  Each is run, in a process of its own, on every one of a set of packages and files with every
 * combination of its options; its exit status, what it says and the files that it leaves are compared with what is known of
 * what it was given.
 */

#include "assets.h"
#include "atmos_asset_reader.h"
#include "atmos_frame.h"
#include "certs.h"
#include "colour_conversion.h"
#include "decrypted_kdm.h"
#include "encrypted_kdm.h"
#include "exceptions.h"
#include "html_formatter.h"
#include "mono_j2k_picture_asset_reader.h"
#include "mono_j2k_picture_frame.h"
#include "pdf_formatter.h"
#include "rgb_xyz.h"
#include "sound_asset_reader.h"
#include "sound_frame.h"
#include "text_formatter.h"
#include "util.h"
#include "verify.h"
#include "verify_report.h"
#include "version.h"
#include "xmlref.h"
#include "mc.h"
#include <algorithm>
#include <dlfcn.h>
#include <fcntl.h>
#include <functional>
#include <set>
#include <sys/wait.h>
#include <unistd.h>

using std::function;
using std::make_shared;
using std::map;
using std::set;
using std::shared_ptr;
using std::string;
using std::to_string;
using std::vector;
using boost::optional;
namespace fs = boost::filesystem;

static dcp::Key const key("00112233445566778899aabbccddeeff");
static dcp::Key const other_key("ffeeddccbbaa99887766554433221100");
static dcp::Standard const SMPTE = dcp::Standard::SMPTE;
static dcp::Standard const INTEROP = dcp::Standard::INTEROP;
static string const date = "2020-01-01T00:00:00+00:00";

static vector<string> const tools = { "dcpdecryptmxf", "dcpdiff", "dcpdumpimage", "dcpdumpsub", "dcpinfo", "dcpkdm", "dcprecover", "dcpthumb", "dcpverify" };

static bool at(string name, vector<int> choices)
{
	for (auto i: choices) {
		name += " " + to_string(i);
	}
	return mc::at(name);
}

static int unit = 0;

static fs::path place(string name)
{
	return fs::path(mc::scratch()) / name;
}

static vector<string> lines(string const& s)
{
	vector<string> out;
	std::stringstream f(s);
	string line;
	while (std::getline(f, line)) {
		out.push_back(line);
	}
	return out;
}

struct Run
{
	/** exit status, or -1 if it did not exit */
	int status = -1;
	int signal = 0;
	string out;
	string err;

	string describe() const {
		return mc::format("status %d signal %d\nstdout: %s\nstderr: %s", status, signal, out.substr(0, 1500).c_str(), err.substr(0, 1500).c_str());
	}
};

typedef int (*Main)(int, char**);

static Main tool_main(string tool)
{
	static map<string, Main> mains;
	if (!mains.count(tool)) {
		auto const so = fs::read_symlink("/proc/self/exe").parent_path() / (tool + ".so");
		auto handle = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
		if (!handle) {
			fprintf(stderr, "%s\n", dlerror());
			exit(77);
		}
		mains[tool] = reinterpret_cast<Main>(dlsym(handle, "main"));
		if (!mains[tool]) {
			exit(77);
		}
	}
	return mains[tool];
}

/** Run a tool with some arguments in a directory */
static Run run(string tool, vector<string> arguments, fs::path cwd)
{
	auto const main = tool_main(tool);
	auto const out = place("stdout");
	auto const err = place("stderr");
	fs::create_directories(cwd);
	fflush(nullptr);
	auto const pid = fork();
	if (pid < 0) {
		exit(77);
	}
	if (pid == 0) {
		auto redirect = [](fs::path file, int to) {
			auto const fd = open(file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
			if (fd < 0 || dup2(fd, to) < 0) {
				_exit(77);
			}
			close(fd);
		};
		redirect(out, 1);
		redirect(err, 2);
		if (chdir(cwd.c_str()) < 0) {
			_exit(77);
		}
		alarm(50);
		arguments.insert(arguments.begin(), tool);
		vector<char*> argv;
		for (auto& i: arguments) {
			argv.push_back(&i[0]);
		}
		argv.push_back(nullptr);
		exit(main(arguments.size(), argv.data()));
	}
	int status;
	if (waitpid(pid, &status, 0) != pid) {
		exit(77);
	}
	Run r;
	if (WIFEXITED(status)) {
		r.status = WEXITSTATUS(status);
	} else {
		r.signal = WTERMSIG(status);
	}
	r.out = assets::slurp(out);
	/* dcp::init() has already been called here, and libxmlsec says so */
	for (auto const& i: lines(assets::slurp(err))) {
		if (i.find("func=xmlSec") != 0) {
			r.err += i + "\n";
		}
	}
	mc::transition();
	string state = tool + " " + to_string(r.status);
	for (auto i: arguments) {
		if (i.find(mc::scratch()) == 0) {
			i = i.substr(mc::scratch().length());
		}
		state += " " + i;
	}
	mc::state(state);
	/* Errors that the sanitizers find, and crashes */
	MC_CHECK(r.signal == 0 && (r.status < 97 || r.status > 99), "%s %s: crashed; %s", tool.c_str(), arguments.empty() ? "" : arguments.back().c_str(), r.describe().c_str());
	return r;
}

static void must_fail(string tool, vector<string> arguments, fs::path cwd)
{
	auto const r = run(tool, arguments, cwd);
	MC_CHECK(r.status > 0, "%s said that it succeeded; %s", tool.c_str(), r.describe().c_str());
	MC_CHECK(!r.err.empty() || !r.out.empty(), "%s failed and did not say why", tool.c_str());
}

static fs::path empty(string name)
{
	auto const p = place(name);
	fs::remove_all(p);
	fs::create_directories(p);
	return p;
}

static void copy_tree(fs::path from, fs::path to)
{
	fs::create_directories(to);
	for (fs::directory_iterator i(from), end; i != end; ++i) {
		if (fs::is_directory(i->path())) {
			copy_tree(i->path(), to / i->path().filename());
		} else {
			fs::copy_file(i->path(), to / i->path().filename());
		}
	}
}

static map<string, string> files(fs::path dir)
{
	map<string, string> out;
	for (fs::recursive_directory_iterator i(dir), end; i != end; ++i) {
		if (!fs::is_directory(i->path())) {
			out[i->path().string().substr(dir.string().length() + 1)] = assets::slurp(i->path());
		}
	}
	return out;
}

static bool has(string const& s, string const& what)
{
	return s.find(what) != string::npos;
}

/** An image with a different value in each half */
static dcp::ArrayData j2k(int left, int right)
{
	static map<std::pair<int, int>, dcp::ArrayData> made;
	auto const k = std::make_pair(left, right);
	if (!made.count(k)) {
		auto image = make_shared<dcp::OpenJPEGImage>(dcp::Size(64, 32));
		for (int c = 0; c < 3; ++c) {
			for (int y = 0; y < 32; ++y) {
				for (int x = 0; x < 64; ++x) {
					image->data(c)[y * 64 + x] = x < 32 ? left : right;
				}
			}
		}
		made[k] = dcp::compress_j2k(image, 100000000, 24, false, false);
	}
	return made[k];
}

static shared_ptr<dcp::MonoJ2KPictureAsset> mono(fs::path file, dcp::Standard standard, vector<dcp::ArrayData> frames, optional<dcp::Key> k = boost::none, int rate = 24)
{
	auto asset = make_shared<dcp::MonoJ2KPictureAsset>(dcp::Fraction(rate, 1), standard);
	if (k) {
		asset->set_key(*k);
	}
	auto writer = asset->start_write(file, dcp::Behaviour::MAKE_NEW);
	for (auto const& i: frames) {
		writer->write(i.data(), i.size());
	}
	writer->finalize();
	return asset;
}

static shared_ptr<dcp::CertificateChain> signer(int n = 0)
{
	static map<int, shared_ptr<dcp::CertificateChain>> made;
	if (!made.count(n)) {
		if (n == 0) {
			made[n] = certs::chain(certs::three(0, "signer"), 2);
		} else {
			made[n] = certs::chain({ certs::make({ 3, certs::Name("single", 3), 3, certs::Name("single", 3), 9 }) }, 3);
		}
	}
	return made[n];
}

static int const recipient_key = 5;

static dcp::Certificate recipient()
{
	static dcp::Certificate const c(certs::make({ 5, certs::Name("LE.SPB.recipient", 5), 6, certs::Name("issuer", 6), 77 }));
	return c;
}

static string private_key(int n)
{
	auto const p = place("key" + to_string(n) + ".pem");
	if (!fs::exists(p)) {
		assets::put(p, certs::pem[n]);
	}
	return p.string();
}

static dcp::DecryptedKDM kdm(string annotation, string title)
{
	return dcp::DecryptedKDM(dcp::LocalTime("2025-07-06T13:04:05+00:00"), dcp::LocalTime("2025-07-16T23:59:59+02:00"), annotation, title, date);
}

static string write(dcp::DecryptedKDM const& k, string name, int s = 0)
{
	auto const p = place(name);
	k.encrypt(signer(s), recipient(), {}, dcp::Formulation::MODIFIED_TRANSITIONAL_1, true, 0).as_xml(p);
	return p.string();
}

/* Usage */

static vector<string> rubbish(fs::path dir)
{
	assets::put(dir / "empty", "");
	assets::put(dir / "text", "This is not what you want\n");
	assets::put(dir / "bytes", string("\x06\x0e\x2b\x34\x02\x05\x01\x01\x00\xff", 10) + string(5000, '\xa5'));
	assets::put(dir / "other.xml", "<?xml version=\"1.0\"?>\n<Other xmlns=\"http://example.com/\"><Id>urn:uuid:1</Id></Other>\n");
	assets::put(dir / "bad.xml", "<?xml version=\"1.0\"?>\n<CompositionPlaylist><Id>");
	assets::put(dir / "cert.pem", "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n");
	fs::create_directories(dir / "nothing");
	fs::create_directories(dir / "assetmap");
	assets::put(dir / "assetmap" / "ASSETMAP.xml", "<AssetMap>");
	fs::create_directories(dir / "assetmap2");
	assets::put(dir / "assetmap2" / "ASSETMAP", "<?xml version=\"1.0\"?>\n<Other/>\n");
	vector<string> out;
	for (auto i: { "missing", "empty", "text", "bytes", "other.xml", "bad.xml", "cert.pem", "nothing", "assetmap", "assetmap2" }) {
		out.push_back((dir / i).string());
	}
	return out;
}

static void usage()
{
	auto const cwd = empty("usage");
	auto const bad = rubbish(cwd);

	map<string, vector<vector<string>>> const options = {
		{ "dcpdecryptmxf", {
			{}, { "-t", "picture" }, { "-o", "out" },
			{ "-t", "picture", "-o", "out", "-k", "KDM", "-p", "KEY" }, { "-t", "sound", "-o", "out", "-k", "KDM", "-p", "KEY" },
			{ "-t", "atmos", "-o", "out", "-k", "KDM", "-p", "KEY" }, { "-t", "other", "-o", "out", "-k", "KDM", "-p", "KEY" } }
		},
		{ "dcpdumpimage", { {}, { "-o", "out" } } },
		{ "dcpdumpsub", { {}, { "-n" }, { "-k", "KDM", "-p", "KEY" } } },
		{ "dcpinfo", { {}, { "-s", "-p", "-d" }, { "--ignore-missing-assets" } } },
		{ "dcpkdm", { {}, { "-p", "KEY" } } },
		{ "dcpthumb", { {} } },
		{ "dcpverify", { {}, { "-q" } } },
	};

	for (auto const& tool: tools) {
		for (auto o: { "-h", "--help" }) {
			if (mc::mine(unit++) && mc::at("help " + tool + o)) {
				auto const r = run(tool, { o }, cwd);
				MC_CHECK(r.status == 0 && (has(r.err, "Syntax") || has(r.out, "Syntax")), "%s %s: %s", tool.c_str(), o, r.describe().c_str());
				mc::outcome(r.err);
				mc::trace();
			}
		}
		if (mc::mine(unit++) && mc::at("nothing " + tool)) {
			must_fail(tool, {}, cwd);
			mc::trace();
		}
	}

	for (auto const& v: vector<std::pair<string, string>>{ { "dcpdiff", "-V" }, { "dcpdiff", "--version" }, { "dcpinfo", "-v" }, { "dcpinfo", "--version" }, { "dcpverify", "-V" }, { "dcpverify", "--version" }, { "dcpdecryptmxf", "--version" } }) {
		if (mc::mine(unit++) && mc::at("version " + v.first + v.second)) {
			auto const r = run(v.first, { v.second }, cwd);
			MC_CHECK(r.status == 0 && has(r.out, dcp::version), "%s %s: %s", v.first.c_str(), v.second.c_str(), r.describe().c_str());
			mc::trace();
		}
	}

	auto d = kdm("a", "t");
	d.add_key(string("MDIK"), dcp::make_uuid(), key, dcp::make_uuid(), SMPTE);
	auto const good = write(d, "usage-kdm.xml");
	for (auto const& i: options) {
		for (size_t o = 0; o < i.second.size(); ++o) {
			for (size_t f = 0; f < bad.size(); ++f) {
				/* Each thing which is read is bad in turn */
				for (int where = 0; where < 3; ++where) {
					if (!mc::mine(unit++) || !at("rubbish " + i.first, { int(o), int(f), where })) {
						continue;
					}
					auto args = i.second[o];
					bool used = false;
					for (auto& a: args) {
						if (a == "KDM") {
							a = where == 1 ? bad[f] : good;
							used = used || where == 1;
						} else if (a == "KEY") {
							a = where == 2 ? bad[f] : private_key(recipient_key);
							used = used || where == 2;
						}
					}
					if (where && !used) {
						continue;
					}
					if (i.first == "dcpdumpsub" && where) {
						/* These are not looked at unless the asset is encrypted */
						continue;
					}
					if (i.first == "dcpkdm" && where == 2) {
						args.push_back(good);
					} else {
						args.push_back(where == 0 ? bad[f] : cwd.string() + "/text");
					}
					must_fail(i.first, args, cwd);
					mc::trace();
				}
			}
		}
	}
	for (size_t f = 0; f < bad.size(); ++f) {
		for (size_t g = 0; g < bad.size(); ++g) {
			if (!mc::mine(unit++) || !at("rubbish dcpdiff", { int(f), int(g) })) {
				continue;
			}
			must_fail("dcpdiff", { bad[f], bad[g] }, cwd);
			mc::trace();
		}
	}
	/* There is nothing to recover from any of these, but it must get to the end or say why not */
	for (size_t f = 0; f < bad.size(); ++f) {
		for (int o = 0; o < 2; ++o) {
			if (!mc::mine(unit++) || !at("rubbish dcprecover", { int(f), o })) {
				continue;
			}
			auto const r = run("dcprecover", o ? vector<string>{ "-o", "recovered", bad[f] } : vector<string>{ bad[f] }, cwd);
			MC_CHECK(fs::is_directory(bad[f]) || r.status > 0, "dcprecover %s: %s", bad[f].c_str(), r.describe().c_str());
			mc::trace();
		}
	}
	fs::remove_all(cwd);
}

/* Thumbprints and KDMs */

static void thumbs()
{
	auto const cwd = empty("thumbs");
	auto const chain = certs::three(0, "thumb");
	vector<string> certificates(chain);
	for (int i = 3; i < 9; ++i) {
		certificates.push_back(certs::make({ i, certs::Name("n" + to_string(i), i), i, certs::Name("n" + to_string(i), i), i }));
	}
	for (size_t i = 0; i < certificates.size(); ++i) {
		if (!mc::mine(unit++) || !at("thumb", { int(i) })) {
			continue;
		}
		assets::put(cwd / "c.pem", certificates[i]);
		auto const r = run("dcpthumb", { "c.pem" }, cwd);
		MC_CHECK(r.status == 0 && r.out == dcp::Certificate(certificates[i]).thumbprint() + "\n", "dcpthumb: %s", r.describe().c_str());
		mc::outcome(r.out);
		mc::trace();
	}
	fs::remove_all(cwd);
}

static void kdms()
{
	auto const cwd = empty("kdms");
	vector<string> paths;
	vector<string> expected[2];
	for (int n = 0; n < 4; ++n) {
		auto d = kdm("annotation " + to_string(n), "title " + to_string(n));
		auto const cpl = dcp::make_uuid();
		string keys = "\nKeys:";
		for (int i = 0; i <= n; ++i) {
			auto const id = dcp::make_uuid();
			auto const k = i % 2 ? key : other_key;
			static char const* types[] = { "MDIK", "MDAK", "MDSK", "MDEK" };
			d.add_key(string(types[i]), id, k, cpl, SMPTE);
			keys += "\n\tID:       " + id + "\n\tStandard: SMPTE\n\tCPL ID:   " + cpl + "\n\tType:     " + types[i] + "\n\tKey:      " + k.hex() + "\n";
		}
		paths.push_back(write(d, "list-kdm" + to_string(n) + ".xml", n % 2));
		string text = "Annotation:       annotation " + to_string(n) + "\n"
			"Content title:    title " + to_string(n) + "\n"
			"CPL id:           " + cpl + "\n"
			"Recipient:        " + recipient().subject() + "\n"
			"Not valid before: 2025-07-06T13:04:05+00:00\n"
			"Not valid after:  2025-07-16T23:59:59+02:00\n"
			"Signer chain:\n";
		for (auto const& i: signer(n % 2)->root_to_leaf()) {
			text += "\tCertificate:\n"
				"\t\tSubject: " + i.subject() + "\n"
				"\t\tSubject common name: " + i.subject_common_name() + "\n"
				"\t\tSubject organization name: " + i.subject_organization_name() + "\n"
				"\t\tSubject organizational unit name: " + i.subject_organizational_unit_name() + "\n"
				"\t\tNot before: " + i.not_before().as_string() + "\n"
				"\t\tNot after:  " + i.not_after().as_string() + "\n";
			if (i.has_utf8_strings()) {
				text += "\t\tUSES INCORRECT (UTF8) STRING ENCODING\n";
			}
		}
		expected[0].push_back(text);
		expected[1].push_back(text + keys);
	}

	for (int length = 1; length <= (mc::thorough() ? 4 : 3); ++length) {
		mc::sequences(4, length, [&](vector<int> const& which) {
			for (int k = 0; k < 3; ++k) {
				if (!mc::mine(unit++)) {
					continue;
				}
				auto w = which;
				w.push_back(k);
				if (!at("dcpkdm", w)) {
					continue;
				}
				vector<string> args;
				if (k) {
					args = { k == 1 ? "-p" : "--private-key", private_key(k == 1 ? recipient_key : 6) };
				}
				string e;
				for (auto i: which) {
					args.push_back(paths[i]);
					e += expected[k == 1][i];
				}
				auto const r = run("dcpkdm", args, cwd);
				if (k == 2) {
					MC_CHECK(r.status > 0 && !r.err.empty(), "dcpkdm with the wrong key: %s", r.describe().c_str());
					MC_CHECK(!has(r.out, key.hex()) && !has(r.out, other_key.hex()), "dcpkdm with the wrong key: %s", r.describe().c_str());
				} else {
					MC_CHECK(r.status == 0, "dcpkdm: %s", r.describe().c_str());
					MC_CHECK(r.out == e, "dcpkdm says\n%s\nrather than\n%s", r.out.c_str(), e.c_str());
				}
				mc::outcome(mc::format("%d %d", r.status, int(lines(r.out).size())));
				mc::trace();
			}
		});
	}
	fs::remove_all(cwd);
}

/* Subtitles */

static void dump_subtitles()
{
	static vector<vector<string>> const fonts = {
		{}, { "font" }, { "one", "two" }, { "a b", "arial.bold" }, { "../escaped" }, { "ABSOLUTE/escaped" }, { "font", "sub/dir" },
	};
	auto const base = empty("dumpsub");
	for (size_t f = 0; f < fonts.size(); ++f) {
		for (int encrypted = 0; encrypted < 2; ++encrypted) {
			for (int no_fonts = 0; no_fonts < 2; ++no_fonts) {
				/* none; just a KDM; just a private key; both; a KDM with some other key; the wrong private key */
				for (int k = 0; k < 6; ++k) {
					if (!mc::mine(unit++) || !at("dcpdumpsub", { int(f), encrypted, no_fonts, k })) {
						continue;
					}
					fs::remove_all(base);
					auto const cwd = base / "cwd";
					fs::create_directories(cwd);
					dcp::SMPTETextAsset asset;
					asset.set_language(dcp::LanguageTag("en-GB"));
					asset.set_content_title_text("title");
					asset.set_issue_date(dcp::LocalTime(date));
					asset.set_start_time(dcp::Time());
					asset.set_edit_rate(dcp::Fraction(24, 1));
					asset.set_time_code_rate(24);
					asset.set_intrinsic_duration(48);
					vector<string> ids;
					for (auto i: fonts[f]) {
						if (i.substr(0, 8) == "ABSOLUTE") {
							i = base.string() + i.substr(8);
						}
						ids.push_back(i);
					}
					for (size_t i = 0; i < ids.size(); ++i) {
						asset.add_font(ids[i], assets::png(10 + i));
					}
					asset.add(assets::text("Hello & <world>", dcp::Time(0, 0, 0, 0, 24), dcp::Time(0, 0, 1, 0, 24), 0.8, ids.empty() ? optional<string>() : ids[0]));
					if (encrypted) {
						asset.set_key(key);
					}
					asset.write(base / "sub.mxf");
					auto d = kdm("a", "t");
					d.add_key(string("MDIK"), dcp::make_uuid(), other_key, dcp::make_uuid(), SMPTE);
					d.add_key(string("MDSK"), k == 4 || !encrypted ? dcp::make_uuid() : *asset.key_id(), key, dcp::make_uuid(), SMPTE);
					d.add_key(string("MDAK"), dcp::make_uuid(), other_key, dcp::make_uuid(), SMPTE);
					vector<string> args;
					if (no_fonts) {
						args.push_back("-n");
					}
					if (k == 1 || k >= 3) {
						args.push_back("-k");
						args.push_back(write(d, "dumpsub-kdm.xml"));
					}
					if (k >= 2) {
						args.push_back("-p");
						args.push_back(private_key(k == 5 ? 6 : recipient_key));
					}
					args.push_back((base / "sub.mxf").string());
					auto const before = files(base);
					auto const r = run("dcpdumpsub", args, cwd);
					auto after = files(base);
					if (encrypted && k != 3) {
						MC_CHECK(r.status > 0 && !r.err.empty(), "dcpdumpsub without the right key: %s", r.describe().c_str());
						MC_CHECK(before == after, "dcpdumpsub left files though it failed");
						continue;
					}
					MC_CHECK(r.status == 0, "dcpdumpsub: %s", r.describe().c_str());
					MC_CHECK(xmlref::canonical(r.out, {}) == xmlref::canonical(asset.xml_as_string(), {}), "dcpdumpsub says\n%s\nrather than\n%s", r.out.c_str(), asset.xml_as_string().c_str());
					/* The fonts are in the current directory and there is nothing else anywhere */
					{
						std::multiset<string> made, wanted;
						for (auto const& i: after) {
							if (!before.count(i.first)) {
								MC_CHECK(i.first.substr(0, 4) == "cwd/", "dcpdumpsub wrote %s, outside the current directory", i.first.c_str());
								made.insert(i.second);
								if (f < 4) {
									bool named = false;
									for (size_t j = 0; j < ids.size(); ++j) {
										auto const data = assets::png(10 + j);
										if (i.first == "cwd/" + ids[j] + ".ttf") {
											named = i.second == string(reinterpret_cast<char const*>(data.data()), data.size());
										}
									}
									MC_CHECK(named, "dcpdumpsub wrote a wrong font to %s", i.first.c_str());
								}
							} else {
								MC_CHECK(before.find(i.first)->second == i.second, "dcpdumpsub changed %s", i.first.c_str());
							}
						}
						for (size_t j = 0; !no_fonts && j < ids.size(); ++j) {
							auto const data = assets::png(10 + j);
							wanted.insert(string(reinterpret_cast<char const*>(data.data()), data.size()));
						}
						MC_CHECK(made == wanted, "dcpdumpsub wrote %d fonts rather than %d", int(made.size()), int(wanted.size()));
					}
					mc::outcome(mc::format("%d %d", r.status, int(after.size())));
					mc::trace();
				}
			}
		}
	}
	fs::remove_all(base);
}

/* Decryption */

static vector<string> frames(string type, fs::path file, optional<dcp::Key> k)
{
	vector<string> out;
	auto add = [&](uint8_t const* data, int size) {
		out.push_back(string(reinterpret_cast<char const*>(data), size));
	};
	if (type == "picture") {
		dcp::MonoJ2KPictureAsset a(file);
		MC_CHECK(bool(a.key_id()) == bool(k), "%s", "picture is encrypted or not, and should be the other");
		if (k) {
			a.set_key(*k);
		}
		auto r = a.start_read();
		for (int64_t i = 0; i < a.intrinsic_duration(); ++i) {
			auto f = r->get_frame(i);
			add(f->data(), f->size());
		}
		out.push_back(mc::format("%d %d %dx%d", a.edit_rate().numerator, a.edit_rate().denominator, a.size().width, a.size().height));
	} else if (type == "sound") {
		dcp::SoundAsset a(file);
		MC_CHECK(bool(a.key_id()) == bool(k), "%s", "sound is encrypted or not, and should be the other");
		if (k) {
			a.set_key(*k);
		}
		auto r = a.start_read();
		for (int64_t i = 0; i < a.intrinsic_duration(); ++i) {
			auto f = r->get_frame(i);
			add(f->data(), f->size());
		}
		out.push_back(mc::format("%d %d %d %d", a.edit_rate().numerator, a.edit_rate().denominator, a.channels(), a.sampling_rate()));
	} else {
		dcp::AtmosAsset a(file);
		MC_CHECK(bool(a.key_id()) == bool(k), "%s", "Atmos is encrypted or not, and should be the other");
		if (k) {
			a.set_key(*k);
		}
		auto r = a.start_read();
		for (int64_t i = 0; i < a.intrinsic_duration(); ++i) {
			auto f = r->get_frame(i);
			add(f->data(), f->size());
		}
		out.push_back(mc::format("%d %d %d %d %d %d", a.edit_rate().numerator, a.edit_rate().denominator, a.first_frame(), a.max_channel_count(), a.max_object_count(), a.atmos_version()));
	}
	return out;
}

static void decrypt()
{
	static vector<string> const types = { "picture", "sound", "atmos" };
	auto const base = empty("decrypt");
	for (size_t t = 0; t < types.size(); ++t) {
		for (int encrypted = 0; encrypted < 2; ++encrypted) {
			for (int length = 0; length < 3; ++length) {
				for (size_t said = 0; said < types.size(); ++said) {
					/* the right KDM; one without the key; the wrong private key; the right id with the wrong key; a byte of the file changed; the same, ignoring it */
					for (int k = 0; k < 6; ++k) {
						for (int verbose = 0; verbose < 2; ++verbose) {
							if (!mc::mine(unit++) || !at("dcpdecryptmxf", { int(t), encrypted, length, int(said), k, verbose })) {
								continue;
							}
							fs::remove_all(base);
							fs::create_directories(base);
							auto const in = base / "in.mxf";
							auto const out = base / "out.mxf";
							optional<dcp::Key> use;
							if (encrypted) {
								use = key;
							}
							optional<string> id;
							int const count = 1 + length;
							if (t == 0) {
								vector<dcp::ArrayData> f;
								for (int i = 0; i < count; ++i) {
									f.push_back(j2k(100 * i, 2000 + i));
								}
								auto a = mono(in, SMPTE, f, use, length == 2 ? 25 : 24);
								id = a->key_id();
							} else if (t == 1) {
								auto asset = make_shared<dcp::SoundAsset>(dcp::Fraction(length == 2 ? 25 : 24, 1), length == 1 ? 96000 : 48000, 2 + length * 2, dcp::LanguageTag("en-US"), SMPTE);
								if (use) {
									asset->set_key(*use);
								}
								auto writer = asset->start_write(in, {}, dcp::SoundAsset::AtmosSync::DISABLED, dcp::SoundAsset::MCASubDescriptors::ENABLED);
								int const n = asset->sampling_rate() / asset->edit_rate().numerator;
								for (int i = 0; i < count; ++i) {
									vector<vector<int32_t>> samples(asset->channels());
									vector<int32_t*> p;
									for (size_t c = 0; c < samples.size(); ++c) {
										for (int s = 0; s < n; ++s) {
											samples[c].push_back((i * 7919 + s * 977 + int(c) * 31) % (1 << 24) - (1 << 23));
										}
										p.push_back(samples[c].data());
									}
									writer->write(p.data(), samples.size(), n);
								}
								writer->finalize();
								id = asset->key_id();
							} else {
								auto asset = make_shared<dcp::AtmosAsset>(dcp::Fraction(24, 1), 3 * length, 10 + length, 118 - length, 1);
								if (use) {
									asset->set_key(*use);
								}
								auto writer = asset->start_write(in);
								for (int i = 0; i < count; ++i) {
									vector<uint8_t> const data(64 + i, i + 1);
									writer->write(data.data(), data.size());
								}
								writer->finalize();
								id = asset->key_id();
							}
							auto const expected = frames(types[t], in, use);
							auto d = kdm("a", "t");
							d.add_key(string("MDEK"), dcp::make_uuid(), other_key, dcp::make_uuid(), SMPTE);
							d.add_key(string("MDIK"), k == 1 || !id ? dcp::make_uuid() : *id, k == 3 ? other_key : key, dcp::make_uuid(), SMPTE);
							vector<string> args = {
								"-t", types[said], "-o", out.string(), "-k", write(d, "decrypt-kdm.xml"), "--private-key", private_key(k == 2 ? 6 : recipient_key)
							};
							if (verbose) {
								args.push_back("-v");
							}
							if (k == 5) {
								args.push_back("-i");
							}
							args.push_back(in.string());
							if (k >= 4) {
								if (!encrypted) {
									/* Nothing would notice */
									continue;
								}
								auto data = assets::slurp(in);
								data[data.length() / 2] ^= 1;
								assets::put(in, data);
							}
							auto const r = run("dcpdecryptmxf", args, base);
							if (k == 4) {
								/* It may not be in something which is looked at */
								if (r.status == 0 && said == t) {
									MC_CHECK(frames(types[t], out, boost::none) == expected, "%s", "dcpdecryptmxf did not notice a change to a frame");
								}
							} else if (k == 5) {
								/* Not much can be said */
							} else if (said != t || k == 2 || (encrypted && (k == 1 || k == 3))) {
								MC_CHECK(r.status > 0 && (!r.err.empty() || !r.out.empty()), "dcpdecryptmxf: %s", r.describe().c_str());
							} else {
								MC_CHECK(r.status == 0, "dcpdecryptmxf: %s", r.describe().c_str());
								MC_CHECK(frames(types[t], out, boost::none) == expected, "%s", "dcpdecryptmxf wrote something different");
							}
							mc::outcome(mc::format("%d %d", r.status, int(fs::exists(out))));
							mc::trace();
						}
					}
				}
			}
		}
	}
	fs::remove_all(base);
}

/* Information */

struct ReelSpec
{
	/** number of frames, or 0 for none */
	int picture = 0;
	int entry = 0;
	int sound = 0;
	/** number of texts, or -1 for none */
	int texts = -1;
	bool image_text = false;
	bool language = true;
	bool picture_missing = false;
	bool sound_missing = false;
	bool text_missing = false;
	bool stereo = false;
};

struct Package
{
	dcp::Standard standard = SMPTE;
	bool encrypted = false;
	int rate = 24;
	vector<ReelSpec> reels;
	optional<string> annotation = string("annotation");
};

struct Made
{
	shared_ptr<dcp::CPL> cpl;
	vector<shared_ptr<dcp::ReelPictureAsset>> pictures;
	vector<shared_ptr<dcp::ReelSoundAsset>> sounds;
	vector<shared_ptr<dcp::ReelTextAsset>> texts;
	vector<vector<int>> sizes;
};

static Made make(Package const& p, fs::path dir)
{
	fs::create_directories(dir);
	Made made;
	made.cpl = make_shared<dcp::CPL>("title", dcp::ContentKind::TRAILER, p.standard);
	if (p.annotation) {
		made.cpl->set_annotation_text(*p.annotation);
	}
	made.cpl->set_issue_date(date);
	optional<dcp::Key> k;
	if (p.encrypted) {
		k = key;
	}
	vector<fs::path> missing;
	int n = 0;
	for (auto const& spec: p.reels) {
		auto const tag = to_string(n);
		shared_ptr<dcp::ReelPictureAsset> picture;
		shared_ptr<dcp::ReelSoundAsset> sound;
		shared_ptr<dcp::ReelTextAsset> text;
		made.sizes.push_back({});
		if (spec.picture) {
			vector<dcp::ArrayData> f;
			for (int i = 0; i < spec.picture; ++i) {
				f.push_back(j2k(500 * n, 300 * i));
				made.sizes.back().push_back(f.back().size());
			}
			auto const file = dir / ("picture" + tag + ".mxf");
			if (spec.stereo) {
				auto asset = make_shared<dcp::StereoJ2KPictureAsset>(dcp::Fraction(p.rate, 1), p.standard);
				auto writer = asset->start_write(file, dcp::Behaviour::MAKE_NEW);
				for (auto const& i: f) {
					writer->write(i.data(), i.size());
					writer->write(i.data(), i.size());
				}
				writer->finalize();
				picture = make_shared<dcp::ReelStereoPictureAsset>(asset, spec.entry);
			} else {
				picture = make_shared<dcp::ReelMonoPictureAsset>(mono(file, p.standard, f, k, p.rate), spec.entry);
			}
			if (spec.entry) {
				picture->set_duration(spec.picture - spec.entry);
			}
			if (spec.picture_missing) {
				missing.push_back(file);
			}
		}
		if (spec.sound) {
			auto const file = dir / ("sound" + tag + ".mxf");
			sound = make_shared<dcp::ReelSoundAsset>(assets::sound(file, p.standard, spec.sound, 6, 0, k), 0);
			if (spec.sound_missing) {
				missing.push_back(file);
			}
		}
		if (spec.texts >= 0) {
			if (p.standard == SMPTE) {
				auto asset = make_shared<dcp::SMPTETextAsset>();
				if (spec.language) {
					asset->set_language(dcp::LanguageTag("en-GB"));
				}
				asset->set_issue_date(dcp::LocalTime(date));
				asset->set_edit_rate(dcp::Fraction(p.rate, 1));
				asset->set_time_code_rate(p.rate);
				asset->set_intrinsic_duration(100);
				for (int i = 0; i < spec.texts; ++i) {
					if (spec.image_text) {
						asset->add(assets::image(assets::png(i), dcp::Time(0, 0, i, 0, p.rate), dcp::Time(0, 0, i + 1, 0, p.rate)));
					} else {
						asset->add(assets::text("words" + to_string(i), dcp::Time(0, 0, i, 0, p.rate), dcp::Time(0, 0, i + 1, 0, p.rate)));
					}
				}
				if (k) {
					asset->set_key(*k);
				}
				auto const file = dir / ("text" + tag + ".mxf");
				asset->write(file);
				text = make_shared<dcp::ReelSMPTETextAsset>(dcp::TextType::OPEN_SUBTITLE, asset, dcp::Fraction(p.rate, 1), 100, 0);
				if (spec.text_missing) {
					missing.push_back(file);
				}
			} else {
				auto asset = make_shared<dcp::InteropTextAsset>();
				asset->set_language("French");
				asset->set_movie_title("title");
				asset->set_reel_number("1");
				for (int i = 0; i < spec.texts; ++i) {
					asset->add(assets::text("words" + to_string(i), dcp::Time(0, 0, i, 0, 250), dcp::Time(0, 0, i + 1, 0, 250)));
				}
				fs::create_directories(dir / ("text" + tag));
				auto const file = dir / ("text" + tag) / "sub.xml";
				asset->write(file);
				text = make_shared<dcp::ReelInteropTextAsset>(dcp::TextType::OPEN_SUBTITLE, asset, dcp::Fraction(p.rate, 1), 100, 0);
				if (spec.text_missing) {
					missing.push_back(file);
				}
			}
		}
		made.cpl->add(make_shared<dcp::Reel>(picture, sound, text));
		made.pictures.push_back(picture);
		made.sounds.push_back(sound);
		made.texts.push_back(text);
		++n;
	}
	dcp::DCP dcp(dir);
	dcp.add(made.cpl);
	dcp.set_issue_date(date);
	dcp.write_xml();
	for (auto i: missing) {
		fs::remove(i);
	}
	return made;
}

static string clock(int64_t frames, int rate)
{
	return mc::format("%02d:%02d:%02d:%02d", int(frames / rate / 3600), int(frames / rate / 60 % 60), int(frames / rate % 60), int(frames % rate));
}

static string information(Package const& p, Made const& m, fs::path dir, bool directory, set<string> const& only, bool texts, bool analyse, bool decompress)
{
	auto wants = [&only](string s) { return only.empty() || only.count(s); };
	string out;
	if (directory && wants("dcp-path")) {
		out += "DCP: " + dir.string() + "\n";
	}
	if (wants("cpl-name-id")) {
		out += "  CPL: " + /* the title is the annotation unless there is another */
			p.annotation.get_value_or("title") + " " + m.cpl->id() + "\n";
	}
	int64_t total = 0;
	for (size_t r = 0; r < p.reels.size(); ++r) {
		auto const& spec = p.reels[r];
		if (wants("picture") || wants("sound") || wants("subtitle")) {
			out += "    Reel " + to_string(r + 1) + "\n";
		}
		if (spec.picture) {
			/* A reel asset made from an asset always has a duration and entry point */
			auto const duration = spec.picture - spec.entry;
			total += duration;
			if (wants("picture")) {
				out += "      Picture ID:  " + m.pictures[r]->id() + " entry " + to_string(spec.entry)
					+ " duration " + to_string(duration) + " (" + clock(duration, p.rate) + ") intrinsic " + to_string(spec.picture);
				if (directory && !spec.picture_missing) {
					out += "\n      Picture:     64x32\n";
					if (analyse && !spec.stereo) {
						auto const& sizes = m.sizes[r];
						for (size_t i = 0; i < sizes.size(); ++i) {
							out += mc::format("Frame %d J2K size %7d", int(i), sizes[i]);
							if (decompress) {
								out += " decrypted OK";
							}
							out += "\n";
						}
						int const low = *std::min_element(sizes.begin(), sizes.end());
						int const high = *std::max_element(sizes.begin(), sizes.end());
						out += mc::format("J2K size ranges from %d (%.1f Mbit/s) to %d (%.1f Mbit/s)\n", low, low * 8.0 * p.rate / 1e6, high, high * 8.0 * p.rate / 1e6);
					}
				} else {
					out += " - not present in this DCP.\n";
				}
			}
		}
		if (spec.sound && wants("sound")) {
			out += "      Sound ID:    " + m.sounds[r]->id() + " entry 0 duration " + to_string(spec.sound) + " intrinsic " + to_string(spec.sound);
			if (directory && !spec.sound_missing) {
				out += "\n      Sound:       6 channels at 48000Hz\n";
			} else {
				out += " - not present in this DCP.\n";
			}
		}
		if (spec.texts >= 0 && wants("subtitle")) {
			out += "      Subtitle ID: " + m.texts[r]->id();
			if (directory && !spec.text_missing) {
				out += "\n      Subtitle:    " + to_string(spec.texts) + " subtitles";
				if (p.standard == INTEROP) {
					out += " in French";
				} else if (spec.language) {
					out += " in en-GB";
				}
				out += "\n";
				if (texts) {
					for (auto i: m.texts[r]->asset()->texts()) {
						std::stringstream s;
						if (auto t = std::dynamic_pointer_cast<const dcp::TextString>(i)) {
							s << *t;
						} else if (auto t = std::dynamic_pointer_cast<const dcp::TextImage>(i)) {
							s << *t;
						}
						out += s.str() + "\n";
					}
				}
			} else {
				out += " - not present in this DCP.\n";
			}
		}
	}
	if (wants("total-time")) {
		out += "Total: " + clock(total, p.rate) + "\n";
	}
	return out;
}

static vector<Package> packages()
{
	vector<Package> out;
	for (auto standard: { SMPTE, INTEROP }) {
		Package base;
		base.standard = standard;
		ReelSpec all;
		all.picture = 3;
		all.sound = 2;
		all.texts = 2;
		ReelSpec late = all;
		late.picture = 5;
		late.entry = 2;
		late.texts = 0;
		ReelSpec picture;
		picture.picture = 4;
		ReelSpec sound;
		sound.sound = 3;
		ReelSpec stereo;
		stereo.picture = 30;
		stereo.stereo = true;
		ReelSpec no_picture = all;
		no_picture.picture_missing = true;
		ReelSpec no_sound = all;
		no_sound.sound_missing = true;
		ReelSpec no_text = all;
		no_text.text_missing = true;
		ReelSpec images = all;
		images.image_text = true;
		images.language = false;
		ReelSpec no_language = all;
		no_language.language = false;
		for (auto const& reels: vector<vector<ReelSpec>>{ { all }, { picture }, { sound }, { all, late }, { late, picture, sound, all }, standard == SMPTE ? vector<ReelSpec>{ stereo, all } : vector<ReelSpec>{ late }, { no_picture }, { no_sound }, { no_text }, { all, no_picture, no_text, all } }) {
			auto p = base;
			p.reels = reels;
			out.push_back(p);
		}
		if (standard == SMPTE) {
			for (auto const& reels: vector<vector<ReelSpec>>{ { images }, { no_language }, { no_language, images } }) {
				auto p = base;
				p.reels = reels;
				out.push_back(p);
			}
		}
		auto p = base;
		p.reels = { all, late };
		p.encrypted = standard == SMPTE;
		out.push_back(p);
		p = base;
		p.annotation = standard == SMPTE ? optional<string>() : string("a different annotation");
		p.reels = { picture };
		out.push_back(p);
		ReelSpec longer;
		longer.picture = 60;
		p.reels = { longer, picture, longer };
		out.push_back(p);
		p.rate = 25;
		out.push_back(p);
	}
	return out;
}

static void information()
{
	static char const* names[] = { "dcp-path", "cpl-name-id", "picture", "sound", "subtitle", "total-time" };
	auto const base = empty("info");
	auto const all = packages();
	for (size_t n = 0; n < all.size(); ++n) {
		if (!mc::mine(unit++)) {
			continue;
		}
		auto const& p = all[n];
		auto const dir = base / ("info" + to_string(n));
		auto const made = make(p, dir);
		bool broken = false;
		for (auto const& i: p.reels) {
			broken = broken || i.picture_missing || i.sound_missing || i.text_missing;
		}
		string k;
		if (p.encrypted) {
			auto d = kdm("a", "t");
			for (size_t r = 0; r < p.reels.size(); ++r) {
				d.add_key(string("MDIK"), *made.pictures[r]->key_id(), key, made.cpl->id(), SMPTE);
				d.add_key(string("MDAK"), *made.sounds[r]->key_id(), key, made.cpl->id(), SMPTE);
				d.add_key(string("MDSK"), *made.texts[r]->key_id(), key, made.cpl->id(), SMPTE);
			}
			k = write(d, "info-kdm.xml");
		}
		for (int which = 0; which < 64; ++which) {
			/* list, analyse, decompress, ignore missing, look at just the CPL */
			for (int how = 0; how < 32; ++how) {
				/* Everything about the kinds of information, or about the rest */
				if (!mc::thorough() && which && how != 0 && how != 7) {
					continue;
				}
				bool const directory = !(how & 16);
				if (!at("dcpinfo", { int(n), which, how })) {
					continue;
				}
				set<string> only;
				string list;
				for (int i = 0; i < 6; ++i) {
					if (which & (1 << i)) {
						only.insert(names[i]);
						list = string(names[i]) + (list.empty() ? "" : ",") + list;
					}
				}
				vector<string> args;
				if (which) {
					args = { which % 2 ? "-o" : "--only", list };
				}
				if (how & 1) {
					args.push_back(how & 2 ? "-s" : "--subtitles");
				}
				if (how & 2) {
					args.push_back(how & 4 ? "-p" : "--picture");
				}
				if (how & 4) {
					args.push_back(how & 1 ? "-d" : "--decompress");
				}
				if (how & 8) {
					args.push_back("--ignore-missing-assets");
				}
				if (p.encrypted) {
					args.insert(args.end(), { "--kdm", k, "--private-key", private_key(recipient_key) });
				}
				args.push_back(directory ? dir.string() : made.cpl->file()->string());
				auto const r = run("dcpinfo", args, base);
				MC_CHECK(r.status == 0, "dcpinfo: %s", r.describe().c_str());
				auto const expected = information(p, made, dir, directory, only, how & 1, how & 2, how & 4);
				MC_CHECK(r.out == expected, "dcpinfo says\n%s\nrather than\n%s", r.out.c_str(), expected.c_str());
				if (directory && broken && !(how & 8)) {
					MC_CHECK(!r.err.empty(), "%s", "dcpinfo did not mention missing assets");
				} else {
					MC_CHECK(r.err.empty(), "dcpinfo complained: %s", r.err.c_str());
				}
				mc::outcome(mc::format("%d %d", int(lines(r.out).size()), int(r.err.size())));
				mc::trace();
			}
		}
		fs::remove_all(dir);
	}
	fs::remove_all(base);
}

/* Differences */

/** A package with some things different */
static void different(fs::path dir, set<int> const& changes, dcp::Standard standard)
{
	fs::create_directories(dir);
	auto changed = [&changes](int n) { return changes.count(n) > 0; };
	optional<dcp::Key> k;
	if (changed(100)) {
		k = key;
	}
	auto cpl = make_shared<dcp::CPL>(changed(17) ? "another title" : "title", changed(3) ? dcp::ContentKind::FEATURE : dcp::ContentKind::TRAILER, standard);
	cpl->set_annotation_text(changed(0) ? "another" : "annotation");
	cpl->set_issue_date(changed(16) ? "2021-02-03T00:00:00+00:00" : date);
	vector<dcp::ArrayData> frames = { j2k(1000, 1000), j2k(1500, 1500), j2k(100, 100) };
	if (changed(4)) {
		/* A constant difference of about 100 */
		frames[1] = j2k(1600, 1600);
	}
	if (changed(5)) {
		/* Differences of about 0 and 200 */
		frames[2] = j2k(100, 300);
	}
	if (changed(6)) {
		frames.push_back(frames[0]);
	}
	shared_ptr<dcp::ReelPictureAsset> picture = make_shared<dcp::ReelMonoPictureAsset>(mono(dir / "picture.mxf", standard, frames, k), 0);
	if (changed(1)) {
		picture->set_annotation_text("another");
	}
	if (changed(7)) {
		picture->set_entry_point(1);
		picture->set_duration(frames.size() - 1);
	}
	auto asset = make_shared<dcp::SoundAsset>(dcp::Fraction(24, 1), 48000, changed(8) ? 6 : 8, dcp::LanguageTag("en-US"), standard);
	if (k) {
		asset->set_key(*k);
	}
	auto writer = asset->start_write(dir / "sound.mxf", {}, dcp::SoundAsset::AtmosSync::DISABLED, dcp::SoundAsset::MCASubDescriptors::ENABLED);
	for (int i = 0; i < 2; ++i) {
		vector<vector<int32_t>> samples(asset->channels(), vector<int32_t>(2000, 50000 * i));
		if (i == 1) {
			samples[3][1999] += changed(9) ? 255 : 0;
			samples[4][7] -= changed(10) ? 256 : 0;
		}
		vector<int32_t*> p;
		for (auto& c: samples) {
			p.push_back(c.data());
		}
		writer->write(p.data(), samples.size(), 2000);
	}
	writer->finalize();
	auto sound = make_shared<dcp::ReelSoundAsset>(asset, 0);
	if (changed(2)) {
		sound->set_annotation_text("another");
	}
	shared_ptr<dcp::ReelTextAsset> text;
	if (standard == SMPTE) {
		auto t = make_shared<dcp::SMPTETextAsset>();
		t->set_language(dcp::LanguageTag(changed(11) ? "de-DE" : "en-GB"));
		t->set_issue_date(dcp::LocalTime(changed(12) ? "2021-02-03T00:00:00+00:00" : date));
		t->set_intrinsic_duration(100);
		t->set_edit_rate(dcp::Fraction(24, 1));
		t->set_time_code_rate(24);
		t->add(assets::text(changed(13) ? "Goodbye" : "Hello", dcp::Time(0, 0, 0, 0, 24), dcp::Time(0, 0, 1, 0, 24)));
		t->add(assets::image(assets::png(changed(14) ? 2 : 1), dcp::Time(0, 0, 2, 0, 24), dcp::Time(0, 0, 3, 0, 24)));
		if (k) {
			t->set_key(*k);
		}
		t->write(dir / "text.mxf");
		text = make_shared<dcp::ReelSMPTETextAsset>(dcp::TextType::OPEN_SUBTITLE, t, dcp::Fraction(24, 1), 100, 0);
	}
	cpl->add(make_shared<dcp::Reel>(picture, sound, text));
	if (changed(15)) {
		cpl->add(make_shared<dcp::Reel>(picture, sound, text));
	}
	dcp::DCP dcp(dir);
	dcp.add(cpl);
	dcp.write_xml();
}

static void differences()
{
	auto const base = empty("diff");
	int const changes = 18;
	/* What lets each pass: 1 -a, 2 --cpl-annotation-texts, 4 --reel-annotation-texts, 8 -d, 16 -m, 32 -s; -1 anything */
	auto allowed = [](int change, int options) {
		switch (change) {
		case 0:
			return bool(options & 3);
		case 1: case 2:
			return bool(options & 5);
		case 4:
			return bool(options & 16);
		case 5:
			return (options & 48) == 48;
		case 12:
			return bool(options & 8);
		case 9: case 16: case 17:
			return true;
		default:
			return false;
		}
	};

	for (auto standard: { SMPTE, INTEROP }) {
		for (int encrypted = 0; encrypted < (standard == SMPTE ? 2 : 1); ++encrypted) {
			set<int> plain;
			if (encrypted) {
				plain.insert(100);
			}
			auto const tag = mc::format("%d-%d", int(standard), encrypted);
			auto const a = base / ("a" + tag);
			bool made = false;
			for (int first = -1; first < changes; ++first) {
				for (int second = first; second < changes; ++second) {
					if (first == -1 && second != -1) {
						continue;
					}
					if (standard == INTEROP && ((first >= 11 && first <= 14) || (second >= 11 && second <= 14))) {
						continue;
					}
					if (!mc::mine(unit++)) {
						continue;
					}
					if (!made) {
						different(a, plain, standard);
						made = true;
					}
					auto const b = base / "b";
					fs::remove_all(b);
					auto c = plain;
					if (first >= 0) {
						c.insert(first);
						c.insert(second);
					}
					bool ready = false;
					for (int options = 0; options < 64; ++options) {
						for (int how = 0; how < 4; ++how) {
							/* All the options with single changes; each, and some together, with pairs */
							static set<int> const single = { 0, 1, 2, 4, 8, 16, 32, 63 };
							static set<int> const some = { 0, 1, 2, 4, 6, 8, 9, 16, 17, 48, 63 };
							if (!mc::thorough()) {
								if ((first != second || encrypted) && (how || !some.count(options))) {
									continue;
								}
								if (how && !single.count(options)) {
									continue;
								}
								if (options && first != second && !allowed(first, options) && !allowed(second, options)) {
									continue;
								}
							}
							if (!at("dcpdiff", { int(standard), encrypted, first, second, options, how })) {
								continue;
							}
							if (!ready) {
								different(b, c, standard);
								ready = true;
							}
							vector<string> args;
							if (options & 1) {
								args.push_back(how & 1 ? "-a" : "--annotation-texts");
							}
							if (options & 2) {
								args.push_back("--cpl-annotation-texts");
							}
							if (options & 4) {
								args.push_back("--reel-annotation-texts");
							}
							if (options & 8) {
								args.push_back(how & 1 ? "-d" : "--issue-dates");
							}
							if (options & 16) {
								args.push_back(how & 1 ? "-m" : "--mean-pixel");
								args.push_back("1000.5");
							}
							if (options & 32) {
								args.push_back(how & 1 ? "-s" : "--std-dev-pixel");
								args.push_back("900.25");
							}
							if (how & 2) {
								args.push_back(how & 1 ? "-v" : "--verbose");
							}
							if (encrypted) {
								args.push_back("--key");
								args.push_back(key.hex());
							}
							args.push_back(how & 1 ? b.string() : a.string());
							args.push_back(how & 1 ? a.string() : b.string());
							auto const cwd = empty("diff-cwd");
							auto const r = run("dcpdiff", args, cwd);
							bool const same = first < 0 || (allowed(first, options) && allowed(second, options));
							MC_CHECK(r.status == (same ? 0 : 1), "dcpdiff says that packages with differences %d and %d are %s; %s", first, second, same ? "different" : "the same", r.describe().c_str());
							MC_CHECK(same || !r.out.empty(), "dcpdiff does not say what is different; %s", r.describe().c_str());
							MC_CHECK(!same || (how & 2) || r.out.empty(), "dcpdiff complains about packages which are the same; %s", r.describe().c_str());
							MC_CHECK(r.err.empty(), "dcpdiff complains: %s", r.describe().c_str());
							MC_CHECK(files(cwd).empty(), "%s", "dcpdiff left files");
							mc::outcome(mc::format("%d %d", r.status, int(lines(r.out).size())));
							mc::trace();
						}
					}
					if (ready && encrypted && first == second && at("dcpdiff wrong key", { first })) {
						/* Nothing can be said without the right key, except that it should end well */
						must_fail("dcpdiff", { "--key", other_key.hex(), a.string(), b.string() }, base);
						mc::trace();
					}
					if (ready && first == 14 && second == 14 && !encrypted && at("dcpdiff export", {})) {
						auto const cwd = empty("diff-cwd");
						auto const r = run("dcpdiff", { "--export-differing-subtitles", a.string(), b.string() }, cwd);
						MC_CHECK(r.status == 1, "dcpdiff: %s", r.describe().c_str());
						auto bytes = [](int n) {
							auto const p = assets::png(n);
							return string(reinterpret_cast<char const*>(p.data()), p.size());
						};
						std::multiset<string> got;
						for (auto const& i: files(cwd)) {
							got.insert(i.second);
						}
						MC_CHECK(got == (std::multiset<string>{ bytes(1), bytes(2) }), "%s", "dcpdiff did not export differing subtitles");
						mc::trace();
					}
				}
			}
		}
	}

	/* Missing assets */
	for (auto file: { "picture.mxf", "sound.mxf", "text.mxf" }) {
		for (int ignore = 0; ignore < 2; ++ignore) {
			for (int which = 1; which < 4; ++which) {
				if (!mc::mine(unit++) || !mc::at(mc::format("dcpdiff missing %s %d %d", file, ignore, which))) {
					continue;
				}
				auto const p = empty("diff-missing");
				different(p / "a", {}, SMPTE);
				copy_tree(p / "a", p / "b");
				if (which & 1) {
					fs::remove(p / "a" / file);
				}
				if (which & 2) {
					fs::remove(p / "b" / file);
				}
				vector<string> args = { (p / "a").string(), (p / "b").string() };
				if (ignore) {
					args.insert(args.begin(), "--ignore-missing-assets");
				}
				auto const r = run("dcpdiff", args, p);
				MC_CHECK(r.err.empty() == bool(ignore), "dcpdiff with a missing asset: %s", r.describe().c_str());
				mc::outcome(mc::format("%d", r.status));
				mc::trace();
				fs::remove_all(p);
			}
		}
	}
	fs::remove_all(base);
	fs::remove_all(place("diff-cwd"));
}

/* Recovery */

static void recovery()
{
	auto const base = empty("recover");
	/* fine; missing; empty; cut off; something else */
	auto damage = [](fs::path file, int how) {
		auto const text = assets::slurp(file);
		switch (how) {
		case 1:
			fs::remove(file);
			break;
		case 2:
			assets::put(file, "");
			break;
		case 3:
			assets::put(file, text.substr(0, text.length() / 2));
			break;
		case 4:
			assets::put(file, "<?xml version=\"1.0\"?>\n<Other xmlns=\"http://example.com/\"/>\n");
			break;
		}
	};

	for (auto standard: { SMPTE, INTEROP }) {
		for (int map_damage = 0; map_damage < 5; ++map_damage) {
			for (int pkl_damage = 0; pkl_damage < 5; ++pkl_damage) {
				for (int cpl_damage = 0; cpl_damage < 5; ++cpl_damage) {
					/* the same directory, another which has the MXFs, another which does not, none */
					for (int output = 0; output < 4; ++output) {
						if (!mc::mine(unit++) || !at("dcprecover", { int(standard), map_damage, pkl_damage, cpl_damage, output })) {
							continue;
						}
						fs::remove_all(base);
						auto const dir = base / "in";
						Package p;
						p.standard = standard;
						ReelSpec reel;
						reel.picture = 3;
						reel.sound = 3;
						reel.texts = standard == SMPTE ? 1 : -1;
						p.reels = { reel, reel };
						auto const made = make(p, dir);
						auto const out = output == 0 ? dir : base / "out";
						if (output == 1) {
							fs::create_directories(out);
							for (fs::directory_iterator i(dir), end; i != end; ++i) {
								if (i->path().extension() == ".mxf") {
									fs::copy_file(i->path(), out / i->path().filename());
								}
							}
						} else if (output == 2) {
							fs::create_directories(out);
						}
						fs::path pkl;
						for (auto const& i: files(dir)) {
							if (has(i.second, "<PackingList")) {
								pkl = dir / i.first;
							}
						}
						auto const cpl = *made.cpl->file();
						auto const before = files(dir);
						damage(dir / (standard == SMPTE ? "ASSETMAP.xml" : "ASSETMAP"), map_damage);
						damage(pkl, pkl_damage);
						damage(cpl, cpl_damage);
						vector<string> args = { dir.string() };
						if (output < 3) {
							args.insert(args.begin(), { output == 1 ? "-o" : "--output", out.string() });
						}
						auto const r = run("dcprecover", args, base);
						for (auto const& i: files(dir)) {
							if (has(i.first, ".mxf")) {
								MC_CHECK(before.find(i.first)->second == i.second, "dcprecover changed %s", i.first.c_str());
							}
						}
						mc::outcome(mc::format("%d %d", output, r.status));
						mc::trace();
						if (cpl_damage) {
							continue;
						}
						if (output == 3) {
							MC_CHECK(r.status > 0 && !r.err.empty(), "dcprecover with nowhere to write to: %s", r.describe().c_str());
							continue;
						}
						if (output == 2 && r.status) {
							/* It cannot be done, and it says so */
							continue;
						}
						MC_CHECK(r.status == 0, "dcprecover: %s", r.describe().c_str());
						if (output == 2) {
							for (auto const& i: files(dir)) {
								if (has(i.first, ".mxf") && !fs::exists(out / i.first)) {
									fs::copy_file(dir / i.first, out / i.first);
								}
							}
						}
						dcp::DCP dcp(out);
						vector<dcp::VerificationNote> notes;
						try {
							dcp.read(&notes);
						} catch (std::exception& e) {
							mc::violation(mc::format("what dcprecover wrote cannot be read: %s", e.what()));
							continue;
						}
						for (auto const& i: notes) {
							MC_CHECK(i.type() != dcp::VerificationNote::Type::ERROR, "what dcprecover wrote is wrong: %s", dcp::note_to_string(i).c_str());
						}
						MC_CHECK(dcp.cpls().size() == 1, "dcprecover wrote %d CPLs", int(dcp.cpls().size()));
						MC_CHECK(dcp.cpls()[0]->id() == made.cpl->id(), "%s", "dcprecover wrote a CPL with another id");
						MC_CHECK(dcp.cpls()[0]->reels().size() == 2, "%s", "dcprecover lost a reel");
						for (auto const& reel: dcp.cpls()[0]->reels()) {
							for (auto const& f: reel->file_assets()) {
								MC_CHECK(f->asset_ref().resolved(), "%s", "dcprecover lost an asset");
							}
						}
						MC_CHECK(dcp.pkls().size() == 1, "dcprecover wrote %d PKLs", int(dcp.pkls().size()));
						for (auto const& a: dcp.assets()) {
							auto const hash = dcp.pkls()[0]->hash(a->id());
							MC_CHECK(hash && *hash == assets::digest(assets::slurp(*a->file())), "dcprecover wrote a wrong hash for %s", a->file()->string().c_str());
						}
					}
				}
			}
		}
	}
	fs::remove_all(base);
}

/* Verification */

static void verification()
{
	static char const* reports[] = { "", "report.txt", "report.htm", "report.html", "report.pdf", "report" };
	auto const base = empty("verify");
	for (int n = 0; n < 9; ++n) {
		bool made = false;
		auto const dir = base / ("dcp" + to_string(n));
		for (int options = 0; options < 64; ++options) {
			for (int report = 0; report < 6; ++report) {
				if (!mc::thorough() && report && options % 13) {
					continue;
				}
				if (!mc::mine(unit++) || !at("dcpverify", { n, options, report })) {
					continue;
				}
				if (!made) {
					Package p;
					ReelSpec reel;
					reel.picture = 24;
					reel.sound = 24;
					p.reels = { reel };
					switch (n) {
					case 1:
						p.standard = INTEROP;
						break;
					case 2:
						p.reels[0].picture_missing = true;
						break;
					case 3:
						p.reels[0].sound_missing = true;
						p.standard = INTEROP;
						break;
					case 5:
						p.reels.push_back(reel);
						p.reels[0].texts = 3;
						break;
					case 6:
						p.reels[0].picture = 3;
						break;
					}
					auto const m = make(p, dir);
					if (n == 4) {
						/* A wrong hash */
						std::ofstream f((dir / "picture0.mxf").string(), std::ios::app | std::ios::binary);
						f << "x";
					} else if (n == 7) {
						assets::put(dir / "ASSETMAP.xml", "<AssetMap");
					} else if (n == 8) {
						fs::remove(*m.cpl->file());
					}
					made = true;
				}
				vector<string> args;
				dcp::VerificationOptions o;
				if (options & 1) {
					args.push_back("--ignore-missing-assets");
				}
				if (options & 2) {
					args.push_back("--ignore-bv21-smpte");
				}
				if (options & 4) {
					args.push_back("--no-asset-hash-check");
					o.check_asset_hashes = false;
				}
				if (options & 8) {
					args.push_back("--no-picture-details-check");
					o.check_picture_details = false;
				}
				if (options & 16) {
					args.push_back("--asset-hash-check-maximum-size");
					args.push_back(options & 8 ? "1" : "0");
					o.maximum_asset_size_for_hash_check = options & 8 ? 1000000 : 0;
				}
				bool const quiet = options & 32;
				if (quiet) {
					args.push_back(options & 1 ? "-q" : "--quiet");
				}
				if (report) {
					args.push_back("-o");
					args.push_back(reports[report]);
				}
				args.push_back(dir.string());
				auto const cwd = empty("verify-cwd");
				auto const r = run("dcpverify", args, cwd);

				auto result = dcp::verify({ dir }, {}, [](string, optional<fs::path>) {}, [](float) {}, o);
				vector<dcp::VerificationNote> kept;
				bool errors = false, bv21 = false, warnings = false;
				vector<string> text;
				for (auto const& i: result.notes) {
					auto const c = i.code();
					if ((options & 1) && (c == dcp::VerificationNote::Code::MISSING_ASSET || c == dcp::VerificationNote::Code::EXTERNAL_ASSET || c == dcp::VerificationNote::Code::MISSING_FONT)) {
						continue;
					}
					if ((options & 2) && c == dcp::VerificationNote::Code::INVALID_STANDARD) {
						continue;
					}
					kept.push_back(i);
					switch (i.type()) {
					case dcp::VerificationNote::Type::OK:
						break;
					case dcp::VerificationNote::Type::ERROR:
						errors = true;
						text.push_back("Error: " + dcp::note_to_string(i) + "\n");
						break;
					case dcp::VerificationNote::Type::BV21_ERROR:
						bv21 = true;
						text.push_back("Bv2.1 error: " + dcp::note_to_string(i) + "\n");
						break;
					case dcp::VerificationNote::Type::WARNING:
						warnings = true;
						text.push_back("Warning: " + dcp::note_to_string(i) + "\n");
						break;
					}
				}
				MC_CHECK(r.status == (errors ? 1 : 0), "dcpverify says %s; %s", errors ? "that a package with errors is fine" : "that a package without errors is not", r.describe().c_str());
				/* Each is said, in order, and nothing else is */
				size_t position = 0;
				int count = 0;
				for (auto const& i: text) {
					position = r.out.find(i, position);
					MC_CHECK(position != string::npos, "dcpverify does not say\n%s\n; %s", i.c_str(), r.describe().c_str());
					if (position == string::npos) {
						break;
					}
					position += i.length();
				}
				bool ok = false;
				for (auto i: lines(r.out)) {
					/* Progress may be before something else */
					auto const cr = i.rfind('\r');
					if (cr != string::npos) {
						MC_CHECK(!quiet, "dcpverify reports progress though it was asked not to; %s", r.describe().c_str());
						i = i.substr(cr + 1);
					}
					if (i.find("Error: ") == 0 || i.find("Bv2.1 error: ") == 0 || i.find("Warning: ") == 0) {
						++count;
					}
					if (i.find("DCP verified OK") == 0) {
						ok = true;
						MC_CHECK(has(i, "Bv2.1") == bv21 && has(i, "warnings") == warnings, "dcpverify says `%s'; %s", i.c_str(), r.describe().c_str());
					}
				}
				MC_CHECK(count == int(text.size()), "dcpverify says %d things rather than %d; %s", count, int(text.size()), r.describe().c_str());
				MC_CHECK(ok == (!errors && !quiet), "dcpverify: %s", r.describe().c_str());
				result.notes = kept;
				auto const written = files(cwd);
				if (!report) {
					MC_CHECK(written.empty(), "%s", "dcpverify left files");
				} else {
					MC_CHECK(written.size() == 1 && written.count(reports[report]), "dcpverify did not write %s", reports[report]);
					auto const other = place("report-expected");
					if (report == 2 || report == 3) {
						dcp::HTMLFormatter f(other);
						dcp::verify_report({ result }, f);
					} else if (report == 4) {
						dcp::PDFFormatter f(other);
						dcp::verify_report({ result }, f);
					} else {
						dcp::TextFormatter f(other);
						dcp::verify_report({ result }, f);
					}
					auto const e = assets::slurp(other);
					auto const w = written.begin()->second;
					if (report == 4) {
						MC_CHECK(w.substr(0, 5) == "%PDF-" && w.length() == e.length(), "%s", "dcpverify wrote a wrong PDF");
					} else {
						MC_CHECK(w == e, "dcpverify wrote the report\n%s\nrather than\n%s", w.c_str(), e.c_str());
					}
				}
				mc::outcome(mc::format("%d %d %d", errors, bv21, count));
				mc::trace();
			}
		}
		fs::remove_all(dir);
	}
	fs::remove_all(base);
	fs::remove_all(place("verify-cwd"));
}

/* Pictures */

static void dump_images()
{
	auto const base = empty("image");
	vector<vector<ReelSpec>> shapes;
	ReelSpec a;
	a.picture = 3;
	a.sound = 2;
	ReelSpec b;
	b.picture = 4;
	b.entry = 2;
	ReelSpec c;
	c.picture = 1;
	ReelSpec none;
	none.sound = 2;
	ReelSpec stereo;
	stereo.picture = 2;
	stereo.stereo = true;
	ReelSpec missing = a;
	missing.picture_missing = true;
	shapes = { { a }, { b }, { a, b }, { b, a }, { a, b, c, a }, { c, c, b }, { none, a }, { a, none }, { stereo }, { a, stereo }, { missing }, { a, missing }, { none } };
	for (auto standard: { SMPTE, INTEROP }) {
		for (size_t s = 0; s < shapes.size(); ++s) {
			if (!mc::mine(unit++)) {
				continue;
			}
			if (standard == INTEROP && std::any_of(shapes[s].begin(), shapes[s].end(), [](ReelSpec const& r) { return r.stereo; })) {
				/* These cannot be told from 2D */
				continue;
			}
			Package p;
			p.standard = standard;
			p.reels = shapes[s];
			auto const dir = base / "dcp";
			fs::remove_all(dir);
			make(p, dir);
			/* What each frame is */
			vector<optional<std::pair<int, int>>> expected;
			int n = 0;
			for (auto const& reel: shapes[s]) {
				for (int i = reel.entry; i < reel.picture; ++i) {
					if (reel.stereo || reel.picture_missing) {
						expected.push_back(boost::none);
					} else {
						expected.push_back(std::make_pair(500 * n, 300 * i));
					}
				}
				++n;
			}
			for (int frame = 0; frame < int(expected.size()) + 2; ++frame) {
				for (int drawn = 0; drawn < 3; ++drawn) {
					for (int how = 0; how < 3; ++how) {
						if (!at("dcpdumpimage", { int(standard), int(s), frame, drawn, how })) {
							continue;
						}
						auto const cwd = empty("image-cwd");
						vector<string> args = { how == 1 ? "-f" : "--frame-index", to_string(frame) };
						if (how < 2) {
							args.insert(args.end(), { how == 1 ? "-o" : "--output", "image.png" });
						}
						string drawing;
						for (int i = 0; i < drawn; ++i) {
							args.insert(args.end(), { "--horizontal-line", to_string(5 + i) });
							drawing += mc::format("line 0 %d 64 %d\n", 5 + i, 5 + i);
						}
						args.push_back(dir.string());
						auto const r = run("dcpdumpimage", args, cwd);
						bool const fine = how < 2 && frame < int(expected.size()) && expected[frame];
						mc::outcome(mc::format("%d", r.status));
						mc::trace();
						if (!fine) {
							MC_CHECK(r.status > 0 && !r.err.empty(), "dcpdumpimage: %s", r.describe().c_str());
							MC_CHECK(files(cwd).empty(), "%s", "dcpdumpimage failed but left a file");
							continue;
						}
						MC_CHECK(r.status == 0, "dcpdumpimage: %s", r.describe().c_str());
						auto const f = files(cwd);
						MC_CHECK(f.size() == 1 && f.count("image.png"), "%s", "dcpdumpimage did not write a file");
						auto const data = j2k(expected[frame]->first, expected[frame]->second);
						auto const xyz = dcp::decompress_j2k(data.data(), data.size(), 0);
						string pixels(64 * 32 * 4, '\0');
						dcp::xyz_to_rgba(xyz, dcp::ColourConversion::srgb_to_xyz(), reinterpret_cast<uint8_t*>(&pixels[0]), 64 * 4);
						MC_CHECK(f.begin()->second == "64 32 BGRA\n" + pixels + drawing, "dcpdumpimage wrote the wrong image for frame %d", frame);
					}
				}
			}
		}
	}
	if (mc::mine(unit++) && mc::at("dcpdumpimage two CPLs")) {
		auto const dir = empty("image-two");
		Package p;
		p.reels = { a };
		make(p, dir);
		dcp::DCP dcp(dir);
		dcp.read();
		dcp.add(make(p, dir / "second").cpl);
		dcp.write_xml();
		must_fail("dcpdumpimage", { "-o", "x.png", dir.string() }, base);
		mc::trace();
		fs::remove_all(dir);
	}
	fs::remove_all(base);
	fs::remove_all(place("image-cwd"));
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	dcp::init();
	usage();
	thumbs();
	kdms();
	dump_subtitles();
	decrypt();
	information();
	differences();
	recovery();
	verification();
	dump_images();
	mc::finish();
}
