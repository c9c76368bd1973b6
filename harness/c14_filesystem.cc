/* C14: the filesystem wrappers do what the underlying system calls do: histories of operations on a small tree, next to
 * the same done by system calls on a twin of it.
 */

#include "filesystem.h"
#include "mc.h"
#include <algorithm>
#include <dirent.h>
#include <errno.h>
#include <fstream>
#include <limits.h>
#include <set>
#include <sstream>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/un.h>

using std::map;
using std::pair;
using std::set;
using std::string;
using std::vector;
namespace fs = dcp::filesystem;

static vector<string> const paths = { "a", "b", "a/c", "b/c.x.y", "a/c/d" };

static void put(string const& p, string const& c)
{
	std::ofstream f(p, std::ios::binary | std::ios::trunc);
	f << c;
}

static string contents(string const& p)
{
	std::ifstream f(p, std::ios::binary);
	std::stringstream s;
	s << f.rdbuf();
	return s.str();
}

static bool get_stat(string const& p, struct stat& s) { return stat(p.c_str(), &s) == 0; }

static vector<string> list(string const& dir)
{
	vector<string> out;
	if (DIR* d = opendir(dir.c_str())) {
		while (auto e = readdir(d)) {
			string const n = e->d_name;
			if (n != "." && n != "..") {
				out.push_back(n);
			}
		}
		closedir(d);
	}
	std::sort(out.begin(), out.end());
	return out;
}

/** A description of everything below root */
static void snapshot(string const& root, string const& rel, map<ino_t, int>& inodes, string& out)
{
	for (auto const& n: list(root + rel)) {
		auto const p = rel + "/" + n;
		struct stat s;
		lstat((root + p).c_str(), &s);
		if (S_ISLNK(s.st_mode)) {
			char b[PATH_MAX];
			auto const k = readlink((root + p).c_str(), b, sizeof(b));
			out += p + "->" + string(b, k) + ";";
		} else if (S_ISDIR(s.st_mode)) {
			out += p + "/;";
			snapshot(root, p, inodes, out);
		} else {
			if (!inodes.count(s.st_ino)) {
				int const n = inodes.size();
				inodes[s.st_ino] = n;
			}
			out += p + mc::format("#%d=", inodes[s.st_ino]) + contents(root + p) + ";";
		}
	}
}

static string snapshot(string const& root)
{
	map<ino_t, int> inodes;
	string out;
	snapshot(root, "", inodes, out);
	return out;
}

static int64_t wipe(string const& p)
{
	struct stat s;
	if (lstat(p.c_str(), &s) < 0) {
		return 0;
	}
	int64_t n = 1;
	if (S_ISDIR(s.st_mode)) {
		for (auto const& i: list(p)) {
			n += wipe(p + "/" + i);
		}
		rmdir(p.c_str());
	} else {
		unlink(p.c_str());
	}
	return n;
}

enum Kind { MKFILE, MKDIR, MKDIRS, REMOVE, REMOVE_ALL, RENAME, COPY_FILE, COPY_OVERWRITE, COPY_NONE, COPY, HARD_LINK, SYMLINK };
static char const* names[] = {
	"write a file", "create_directory", "create_directories", "remove", "remove_all", "rename", "copy_file", "copy_file (overwrite)", "copy_file (none)", "copy",
	"create_hard_link", "create_symlink"
};

struct Op
{
	Kind kind;
	int p, q;
	/** use the version that gives an error code, if there is one */
	bool code;
};

static string describe(Op const& o)
{
	string s = string(names[o.kind]) + (o.code ? "(code) " : " ") + paths[o.p];
	if (o.kind >= RENAME) {
		s += " " + paths[o.q];
	}
	return s;
}

struct Result
{
	bool ok = false;
	int64_t value = 0;
	/** the operation is one whose result we do not judge; the tree is still compared unless loose is set */
	bool unjudged = false;
};

static bool same_file(string const& p, string const& q)
{
	struct stat s, t;
	return get_stat(p, s) && get_stat(q, t) && s.st_ino == t.st_ino;
}

static Result reference(Op const& o, string const& root)
{
	Result r;
	auto const p = root + "/" + paths[o.p];
	auto const q = root + "/" + paths[o.q];
	struct stat s, t;
	switch (o.kind) {
	case MKFILE:
		put(p, "file " + paths[o.p]);
		r.ok = true;
		break;
	case MKDIR:
		if (mkdir(p.c_str(), 0777) == 0) {
			r.ok = true;
			r.value = 1;
		} else {
			r.ok = get_stat(p, s) && S_ISDIR(s.st_mode);
		}
		break;
	case MKDIRS:
		r.ok = true;
		for (size_t i = root.length() + 1; i <= p.length(); ++i) {
			if (i == p.length() || p[i] == '/') {
				auto const d = p.substr(0, i);
				if (get_stat(d, s) && S_ISDIR(s.st_mode)) {
					continue;
				}
				if (mkdir(d.c_str(), 0777) < 0) {
					r.ok = false;
					break;
				}
				r.value = 1;
			}
		}
		break;
	case REMOVE:
		if (lstat(p.c_str(), &s) < 0) {
			r.ok = errno == ENOENT || errno == ENOTDIR;
		} else {
			r.ok = (S_ISDIR(s.st_mode) ? rmdir(p.c_str()) : unlink(p.c_str())) == 0;
			r.value = r.ok;
		}
		break;
	case REMOVE_ALL:
		r.ok = lstat(p.c_str(), &s) == 0 || errno == ENOENT || errno == ENOTDIR;
		r.value = wipe(p);
		break;
	case RENAME:
		r.ok = ::rename(p.c_str(), q.c_str()) == 0;
		break;
	case COPY_FILE:
	case COPY_OVERWRITE:
	case COPY_NONE:
	case COPY:
	{
		bool const from = get_stat(p, s);
		bool const to = get_stat(q, t);
		auto target = q;
		if (o.kind == COPY) {
			struct stat l;
			if (!from || !S_ISREG(s.st_mode) || (lstat(p.c_str(), &l) == 0 && S_ISLNK(l.st_mode))) {
				/* Only the copying of plain files is judged */
				r.unjudged = true;
				return r;
			}
			if (to && S_ISDIR(t.st_mode)) {
				target = q + p.substr(p.rfind('/'));
			}
		}
		if (same_file(p, target)) {
			/* What happens when a file is copied over itself is up to boost */
			r.unjudged = true;
			return r;
		}
		struct stat u;
		bool const exists = get_stat(target, u);
		if (!exists && lstat(target.c_str(), &u) == 0) {
			/* so is copying to where a dangling link points */
			r.unjudged = true;
			return r;
		}
		if (!from || !S_ISREG(s.st_mode) || (exists && (o.kind != COPY_OVERWRITE || !S_ISREG(u.st_mode)))) {
			break;
		}
		{
			std::ofstream f(target, std::ios::binary | std::ios::trunc);
			r.ok = bool(f);
			f << contents(p);
		}
		break;
	}
	case HARD_LINK:
		if (lstat(p.c_str(), &s) == 0 && S_ISLNK(s.st_mode)) {
			r.unjudged = true;
			return r;
		}
		r.ok = link(p.c_str(), q.c_str()) == 0;
		break;
	case SYMLINK:
		/* relative to the link's directory; given as it is */
		r.ok = symlink(paths[o.p].c_str(), q.c_str()) == 0;
		break;
	}
	return r;
}

static Result actual(Op const& o, string const& root)
{
	Result r;
	auto const p = root + "/" + paths[o.p];
	auto const q = root + "/" + paths[o.q];
	boost::system::error_code ec;
	r.ok = true;
	try {
		switch (o.kind) {
		case MKFILE:
			put(p, "file " + paths[o.p]);
			break;
		case MKDIR:
			r.value = o.code ? fs::create_directory(p, ec) : fs::create_directory(p);
			break;
		case MKDIRS:
			r.value = o.code ? fs::create_directories(p, ec) : fs::create_directories(p);
			break;
		case REMOVE:
			r.value = o.code ? fs::remove(p, ec) : fs::remove(p);
			break;
		case REMOVE_ALL:
			r.value = o.code ? fs::remove_all(p, ec) : fs::remove_all(p);
			break;
		case RENAME:
			o.code ? fs::rename(p, q, ec) : fs::rename(p, q);
			break;
		case COPY_FILE:
			o.code ? fs::copy_file(p, q, ec) : fs::copy_file(p, q);
			break;
		case COPY_OVERWRITE:
			fs::copy_file(p, q, fs::CopyOptions::OVERWRITE_EXISTING);
			break;
		case COPY_NONE:
			fs::copy_file(p, q, fs::CopyOptions::NONE);
			break;
		case COPY:
			fs::copy(p, q);
			break;
		case HARD_LINK:
			o.code ? fs::create_hard_link(p, q, ec) : fs::create_hard_link(p, q);
			break;
		case SYMLINK:
			fs::create_symlink(paths[o.p], q, ec);
			break;
		}
		if (ec) {
			r.ok = false;
			r.value = 0;
		}
	} catch (boost::filesystem::filesystem_error&) {
		r.ok = false;
	}
	return r;
}

template <class T>
static string attempt(T f)
{
	mc::transition();
	try {
		return f();
	} catch (boost::filesystem::filesystem_error&) {
		return "error";
	}
}

/** Compare what the wrappers say about the tree with what the system does; "" if they agree */
static string queries(string const& root)
{
	string bad;
	auto compare = [&](string const& what, string const& got, string const& want) {
		if (got != want && bad.empty()) {
			bad = what + " gives '" + got + "' rather than '" + want + "'";
		}
	};
	auto num = [](int64_t n) { return mc::format("%lld", (long long) n); };
	for (auto const& rel: paths) {
		auto const p = root + "/" + rel;
		struct stat s;
		bool const there = get_stat(p, s);
		if (!there && errno == ELOOP) {
			/* links going round in circles are reported as an error by some calls and not others */
			continue;
		}
		/* the parent of the path may be a file */
		bool const is_dir = there && S_ISDIR(s.st_mode);
		bool const is_file = there && S_ISREG(s.st_mode);
		boost::system::error_code ec;
		compare("exists " + rel, attempt([&] { return num(fs::exists(p)); }), num(there));
		compare("exists (code) " + rel, attempt([&] { return num(fs::exists(p, ec)); }), num(there));
		compare("is_directory " + rel, attempt([&] { return num(fs::is_directory(p)); }), num(is_dir));
		compare("is_regular_file " + rel, attempt([&] { return num(fs::is_regular_file(p)); }), num(is_file));
		compare("file_size " + rel, attempt([&] { return num(fs::file_size(p)); }), is_file ? num(s.st_size) : "error");
		ec.clear();
		auto const size = fs::file_size(p, ec);
		compare("file_size (code) " + rel, ec ? (size == uintmax_t(-1) ? "error" : "error and " + num(size)) : num(size), is_file ? num(s.st_size) : "error");
		if (there) {
			compare("is_empty " + rel, attempt([&] { return num(fs::is_empty(p)); }), num(is_dir ? list(p).empty() : s.st_size == 0));
			if (is_file) {
				compare("hard_link_count " + rel, attempt([&] { return num(fs::hard_link_count(p)); }), num(s.st_nlink));
			}
			char b[PATH_MAX];
			realpath(p.c_str(), b);
			compare("canonical " + rel, attempt([&] { return fs::canonical(p).string(); }), b);
			compare("space " + rel, attempt([&] { auto const x = fs::space(p); return num(x.capacity > 0 && x.free <= x.capacity); }), "1");
		} else {
			compare("canonical " + rel, attempt([&] { return fs::canonical(p).string(); }), "error");
		}
		compare("last_write_time " + rel, attempt([&] { return num(fs::last_write_time(p)); }), there ? num(s.st_mtime) : "error");
		ec.clear();
		auto const time = fs::last_write_time(p, ec);
		compare("last_write_time (code) " + rel, ec ? "error" : num(time), there ? num(s.st_mtime) : "error");
		compare("absolute " + rel, attempt([&] { return fs::absolute(p).string(); }), p);

		/* Listings */
		auto collect = [&](int how) {
			vector<string> v;
			switch (how) {
			case 0:
				for (auto i: fs::directory_iterator(p)) {
					v.push_back(i.path().string());
				}
				break;
			case 1:
				for (fs::directory_iterator i(p); i != fs::directory_iterator(); ++i) {
					v.push_back(i->path().string());
				}
				break;
			case 2:
			{
				boost::system::error_code ec;
				fs::directory_iterator i(p, ec);
				if (ec) {
					return string("error");
				}
				for (; i != fs::directory_iterator(); ++i) {
					boost::filesystem::path const x = *i;
					v.push_back(x.string());
				}
				break;
			}
			case 3:
				for (auto i: fs::recursive_directory_iterator(p)) {
					v.push_back(i.path().string());
				}
				break;
			case 4:
				for (fs::recursive_directory_iterator i(p); i != fs::recursive_directory_iterator(); ++i) {
					v.push_back(i->path().string());
				}
				break;
			}
			std::sort(v.begin(), v.end());
			string o;
			for (auto const& i: v) {
				o += i + ";";
			}
			return o;
		};
		vector<string> flat, deep;
		if (is_dir) {
			std::function<void (string)> walk = [&](string d) {
				for (auto const& n: list(d)) {
					deep.push_back(d + "/" + n);
					struct stat l;
					if (lstat((d + "/" + n).c_str(), &l) == 0 && S_ISDIR(l.st_mode)) {
						walk(d + "/" + n);
					}
				}
			};
			for (auto const& n: list(p)) {
				flat.push_back(p + "/" + n);
			}
			walk(p);
			std::sort(deep.begin(), deep.end());
		}
		string f, d;
		for (auto const& i: flat) {
			f += i + ";";
		}
		for (auto const& i: deep) {
			d += i + ";";
		}
		char const* hows[] = { "range", "iterator", "iterator with code", "recursive range", "recursive iterator" };
		for (int how = 0; how < 5; ++how) {
			compare(string("listing (") + hows[how] + ") of " + rel, attempt([&] { return collect(how); }), is_dir ? (how >= 3 ? d : f) : "error");
		}
	}
	return bad;
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	mc::drop_privileges();
	/* Well below the scratch directory, so that something done to a parent by mistake is still inside it */
	char real[PATH_MAX];
	realpath(mc::scratch().c_str(), real);
	string top = real;
	for (char const* i: { "/p", "/q", "/r" }) {
		top += i;
		mkdir(top.c_str(), 0755);
	}
	string const A = top + "/A";
	string const B = top + "/B";

	vector<Op> ops;
	for (int p = 0; p < int(paths.size()); ++p) {
		ops.push_back({ MKFILE, p, 0, false });
		for (auto k: { MKDIR, MKDIRS, REMOVE, REMOVE_ALL }) {
			ops.push_back({ k, p, 0, false });
			ops.push_back({ k, p, 0, true });
		}
		for (int q = 0; q < int(paths.size()); ++q) {
			for (auto k: { RENAME, COPY_FILE, HARD_LINK }) {
				ops.push_back({ k, p, q, false });
				ops.push_back({ k, p, q, true });
			}
			for (auto k: { COPY_OVERWRITE, COPY_NONE, COPY, SYMLINK }) {
				ops.push_back({ k, p, q, false });
			}
		}
	}
	/* Trees to start from, as operations done by the reference on both */
	vector<vector<Op>> const starts = {
		{},
		{ { MKFILE, 0, 0, false } },
		{ { MKDIR, 0, 0, false }, { MKFILE, 1, 0, false } },
		{ { MKFILE, 0, 0, false }, { MKFILE, 1, 0, false } },
		{ { MKDIR, 0, 0, false }, { MKDIR, 1, 0, false } },
		{ { MKDIR, 0, 0, false }, { MKFILE, 2, 0, false }, { MKDIR, 1, 0, false } },
		{ { MKDIRS, 2, 0, false }, { MKFILE, 4, 0, false }, { MKDIR, 1, 0, false }, { MKFILE, 3, 0, false } },
		{ { MKDIRS, 2, 0, false }, { SYMLINK, 0, 1, false } },
		{ { SYMLINK, 1, 0, false } },
		{ { MKFILE, 0, 0, false }, { HARD_LINK, 0, 1, false } },
	};
	int64_t unit = 0;
	int const depth = mc::thorough() ? 3 : 2;

	auto rebuild = [&](int start, vector<int> const& history) {
		wipe(A);
		wipe(B);
		mkdir(A.c_str(), 0755);
		mkdir(B.c_str(), 0755);
		for (auto const& o: starts[start]) {
			reference(o, A);
			reference(o, B);
		}
		for (auto i: history) {
			auto const r = reference(ops[i], B);
			if (r.unjudged) {
				continue;
			}
			actual(ops[i], A);
		}
	};

	for (int s = 0; s < int(starts.size()); ++s) {
		/* Breadth first, with trees that are the same merged.  Each process does the first level, and its share of what follows */
		vector<vector<int>> level = { {} };
		set<string> seen;
		for (int d = 0; d < depth; ++d) {
			vector<vector<int>> next;
			for (auto const& history: level) {
				bool const shared = d == 0;
				if (!shared && !mc::mine(unit++)) {
					continue;
				}
				for (int o = 0; o < int(ops.size()); ++o) {
					string key = mc::format("history:%d", s);
					for (auto i: history) {
						key += mc::format(":%d", i);
					}
					key += mc::format(":%d", o);
					bool const wanted = mc::at(key);
					if (!wanted && mc::s().only.compare(0, key.length() + 1, key + ":") != 0) {
						continue;
					}
					rebuild(s, history);
					auto const before = snapshot(B);
					auto const want = reference(ops[o], B);
					if (want.unjudged) {
						continue;
					}
					auto const got = actual(ops[o], A);
					mc::transition();
					auto const a = snapshot(A);
					auto const b = snapshot(B);
					auto const how = [&] {
						string h = "with " + before + ", " + describe(ops[o]);
						return h;
					};
					MC_CHECK(got.ok == want.ok, "%s: %s", how().c_str(), got.ok ? "succeeded when it should have failed" : "failed when it should have succeeded");
					MC_CHECK(!want.ok || got.value == want.value, "%s: gave %lld rather than %lld", how().c_str(), (long long) got.value, (long long) want.value);
					MC_CHECK(a == b, "%s: left %s rather than %s", how().c_str(), a.c_str(), b.c_str());
					MC_CHECK(list(top).size() == 2 && list(real) == vector<string>({ "p" }), "%s: changed something elsewhere", how().c_str());
					mc::trace();
					mc::outcome(describe(ops[o]) + (want.ok ? "+" : "-") + b);
					if (seen.insert(b).second) {
						mc::state(b);
						auto const bad = queries(A);
						MC_CHECK(bad.empty(), "with %s: %s", a.c_str(), bad.c_str());
						auto h = history;
						h.push_back(o);
						next.push_back(h);
						if (mc::want_sample("tree")) {
							mc::sample("tree", how() + " leaves " + b);
						}
					}
				}
			}
			level = next;
		}
	}

	/* Odd names, and kinds, sizes and times of file */
	{
		string const here = top + "/odd";
		vector<string> const odd = { " ", "a b", "a\\b", "caf\xc3\xa9", "\xff\xfe", "a:b", "~", "-", "....", ".x", "x.", "..x", "x..", string(255, 'n'), "a\nb", "%s", "*", "a.b.c", "AA", "aa" };
		for (size_t a = 0; a < odd.size(); ++a) {
			if (!mc::mine(unit++) || !mc::at("odd", { int64_t(a) })) {
				continue;
			}
			wipe(here);
			mkdir(here.c_str(), 0755);
			auto fail = [&](char const* what) { mc::violation(string(what) + " fails with the name '" + odd[a] + "'"); };
			auto const p = here + "/" + odd[a];
			struct stat s;
			try {
				MC_CHECK(fs::create_directory(p) && get_stat(p, s) && S_ISDIR(s.st_mode), "cannot make a directory called '%s'", odd[a].c_str());
				put(p + "/f", "contents");
				for (size_t b = 0; b < odd.size(); ++b) {
					auto const q = p + "/" + odd[b];
					fs::copy_file(p + "/f", q);
					if (contents(q) != "contents" || fs::file_size(q) != 8 || !fs::is_regular_file(q) || !fs::exists(q)) {
						fail("copying");
					}
					mc::transition(4);
				}
				auto const want = list(p);
				vector<string> got;
				for (auto i: fs::directory_iterator(p)) {
					got.push_back(i.path().filename().string());
				}
				std::sort(got.begin(), got.end());
				if (got != want) {
					fail("listing");
				}
				MC_CHECK(fs::canonical(p).string() == p, "the canonical form of %s is given as %s", p.c_str(), fs::canonical(p).string().c_str());
				for (size_t b = 0; b < odd.size(); ++b) {
					auto const q = p + "/" + odd[b];
					auto const r = here + "/moved";
					fs::rename(q, r);
					if (contents(r) != "contents" || get_stat(q, s)) {
						fail("renaming");
					}
					fs::create_hard_link(r, q);
					if (!same_file(r, q) || fs::hard_link_count(q) != 2 || !fs::remove(r) || get_stat(r, s)) {
						fail("linking");
					}
					mc::transition(4);
				}
				MC_CHECK(fs::remove_all(p) == odd.size() + 2 && !get_stat(p, s), "the wrong number of files are removed");
				mc::trace();
			} catch (boost::filesystem::filesystem_error& e) {
				fail(e.what());
			}
			wipe(here);
		}

		for (int n: { 0, 1, 2, 10, 100, 1000 }) {
			if (!mc::mine(unit++) || !mc::at("many", { n })) {
				continue;
			}
			wipe(here);
			mkdir(here.c_str(), 0755);
			/* Many files, and deep directories */
			vector<string> flat, deep;
			for (int i = 0; i < n; ++i) {
				auto const p = here + mc::format("/file%d", i);
				put(p, "x");
				flat.push_back(p);
				deep.push_back(p);
			}
			auto p = here;
			for (int i = 0; i < std::min(n, 100); ++i) {
				p += mc::format("/d%d", i);
				deep.push_back(p);
				if (i == 0) {
					flat.push_back(p);
				}
			}
			try {
				if (p != here) {
					MC_CHECK(fs::create_directories(p) && !fs::create_directories(p), "cannot make deep directories");
				}
				vector<string> got_flat, got_deep;
				for (auto i: fs::directory_iterator(here)) {
					got_flat.push_back(i.path().string());
				}
				for (auto i: fs::recursive_directory_iterator(here)) {
					got_deep.push_back(i.path().string());
				}
				for (auto v: { &flat, &deep, &got_flat, &got_deep }) {
					std::sort(v->begin(), v->end());
				}
				MC_CHECK(flat == got_flat, "a listing of %d has %d", int(flat.size()), int(got_flat.size()));
				MC_CHECK(deep == got_deep, "a recursive listing of %d has %d", int(deep.size()), int(got_deep.size()));
				MC_CHECK(fs::is_empty(here) == (n == 0), "a directory with %d files %s empty", n, n ? "is" : "is not");
				auto const removed = fs::remove_all(here);
				struct stat s;
				MC_CHECK(removed == deep.size() + 1 && !get_stat(here, s), "removing %d things gives %d", int(deep.size()) + 1, int(removed));
			} catch (boost::filesystem::filesystem_error& e) {
				mc::violation(e.what());
			}
			mc::trace();
			mc::transition(4);
		}

		for (int64_t size: { int64_t(0), int64_t(1), int64_t(4096), int64_t(65536), int64_t(3000001), (int64_t(1) << 31) - 1, int64_t(1) << 31, (int64_t(1) << 32) - 1, int64_t(1) << 32, (int64_t(1) << 33) + 5 }) {
			if (!mc::mine(unit++) || !mc::at("size", { size })) {
				continue;
			}
			wipe(here);
			mkdir(here.c_str(), 0755);
			auto const p = here + "/big";
			put(p, "");
			if (truncate(p.c_str(), size) < 0) {
				printf("cannot make a file of %lld bytes\n", (long long) size);
				fflush(stdout);
				_exit(77);
			}
			try {
				boost::system::error_code ec;
				MC_CHECK(int64_t(fs::file_size(p)) == size && int64_t(fs::file_size(p, ec)) == size && !ec, "the size of a file of %lld is given as %lld", (long long) size, (long long) fs::file_size(p));
				MC_CHECK(fs::is_empty(p) == (size == 0), "a file of %lld is%s empty", (long long) size, size ? "" : " not");
				if (size < 10000000) {
					put(p, string(size, 'x'));
					put(here + "/there", string(size + 10, 'y'));
					fs::copy_file(p, here + "/new");
					fs::copy_file(p, here + "/there", fs::CopyOptions::OVERWRITE_EXISTING);
					fs::copy(p, here + "/again");
					for (auto n: { "/new", "/there", "/again" }) {
						MC_CHECK(contents(here + n) == contents(p), "a copy of a file of %lld is different", (long long) size);
					}
				}
			} catch (boost::filesystem::filesystem_error& e) {
				mc::violation(e.what());
			}
			wipe(here);
			mc::trace();
			mc::transition(3);
		}

		for (int64_t t: { int64_t(-86400), int64_t(-1), int64_t(0), int64_t(1), int64_t(951782399), int64_t(2147483647), int64_t(2147483648), int64_t(4294967296), int64_t(7258118400) }) {
			if (!mc::mine(unit++) || !mc::at("time", { t })) {
				continue;
			}
			wipe(here);
			mkdir(here.c_str(), 0755);
			struct timespec const times[2] = { { 12345, 0 }, { time_t(t), 999999999 } };
			utimensat(AT_FDCWD, here.c_str(), times, 0);
			struct stat s;
			get_stat(here, s);
			if (s.st_mtime == t) {
				boost::system::error_code ec;
				MC_CHECK(fs::last_write_time(here) == t && fs::last_write_time(here, ec) == t, "the time of a file changed at %lld is given as %lld", (long long) t, (long long) fs::last_write_time(here));
			}
			wipe(here);
			mc::trace();
		}

		/* Things which are neither files nor directories */
		for (int kind = 0; kind < 4; ++kind) {
			if (!mc::mine(unit++) || !mc::at("kind", { kind })) {
				continue;
			}
			wipe(here);
			mkdir(here.c_str(), 0755);
			auto const p = here + "/p";
			bool made = false;
			if (kind == 0 || kind == 1) {
				made = mkfifo(p.c_str(), 0644) == 0;
			} else {
				int const s = socket(AF_UNIX, SOCK_STREAM, 0);
				struct sockaddr_un a;
				memset(&a, 0, sizeof(a));
				a.sun_family = AF_UNIX;
				if (s >= 0 && p.length() < sizeof(a.sun_path)) {
					strcpy(a.sun_path, p.c_str());
					made = bind(s, reinterpret_cast<struct sockaddr*>(&a), sizeof(a)) == 0;
				}
				close(s);
			}
			if (made) {
				auto q = p;
				if (kind % 2) {
					q = here + "/l";
					symlink("p", q.c_str());
				}
				boost::system::error_code ec;
				MC_CHECK(fs::exists(q) && fs::exists(q, ec), "something which is neither a file nor a directory is not seen");
				MC_CHECK(!fs::is_regular_file(q), "something which is neither a file nor a directory is said to be a file");
				MC_CHECK(!fs::is_directory(q), "something which is neither a file nor a directory is said to be a directory");
				bool refused = false;
				try {
					fs::file_size(q);
				} catch (boost::filesystem::filesystem_error&) {
					refused = true;
				}
				fs::file_size(q, ec);
				MC_CHECK(refused && ec, "something which is neither a file nor a directory is given a size");
				MC_CHECK(fs::remove(q) && !fs::exists(q) && fs::exists(p) == bool(kind % 2), "something which is neither a file nor a directory is not removed");
				mc::transition(8);
			}
			wipe(here);
			mc::trace();
		}

		/* The space that there is */
		if (mc::mine(unit++) && mc::at("space")) {
			wipe(here);
			mkdir(here.c_str(), 0755);
			for (int attempt = 0; attempt < 100; ++attempt) {
				struct statvfs a, b;
				statvfs(here.c_str(), &a);
				auto const got = fs::space(here);
				statvfs(here.c_str(), &b);
				if (a.f_bavail != b.f_bavail || a.f_bfree != b.f_bfree) {
					/* Others are using the disk */
					continue;
				}
				MC_CHECK(
					got.capacity == uintmax_t(a.f_blocks) * a.f_frsize && got.free == uintmax_t(a.f_bfree) * a.f_frsize && got.available == uintmax_t(a.f_bavail) * a.f_frsize,
					"the space on a disk is given as %llu, %llu, %llu", (unsigned long long) got.capacity, (unsigned long long) got.free, (unsigned long long) got.available
					);
				mc::transition();
				break;
			}
			wipe(here);
			mc::trace();
		}

		/* What may not be done is reported */
		for (int mode: { 0, 0100, 0400, 0500, 0300 }) {
			if (!mc::mine(unit++) || !mc::at("mode", { mode })) {
				continue;
			}
			wipe(here);
			mkdir(here.c_str(), 0755);
			auto const d = here + "/d";
			auto const f = d + "/f";
			mkdir(d.c_str(), 0755);
			put(f, "contents");
			put(here + "/g", "other");
			chmod(d.c_str(), mode);
			bool const may_list = mode & 0400;
			bool const may_look = mode & 0100;
			bool const may_change = (mode & 0200) && may_look;
			auto tried = [&](string const& what, bool expected, std::function<void ()> one, std::function<void (boost::system::error_code&)> two) {
				bool worked = true;
				try {
					one();
				} catch (boost::filesystem::filesystem_error&) {
					worked = false;
				}
				MC_CHECK(worked == expected, "with mode %o, %s %s", mode, what.c_str(), worked ? "works" : "fails");
				if (two) {
					boost::system::error_code ec;
					two(ec);
					MC_CHECK(bool(ec) != expected && (!ec || ec.value() == EACCES), "with mode %o, %s gives error %d", mode, what.c_str(), ec.value());
				}
				mc::transition();
			};
			typedef boost::system::error_code EC;
			tried("listing", may_list, [&]() { for (auto i: fs::directory_iterator(d)) { i.path(); } }, [&](EC& ec) { fs::directory_iterator i(d, ec); });
			tried("existence", may_look, [&]() { fs::exists(f); }, [&](EC& ec) { fs::exists(f, ec); });
			tried("size", may_look, [&]() { fs::file_size(f); }, [&](EC& ec) { fs::file_size(f, ec); });
			tried("time", may_look, [&]() { fs::last_write_time(f); }, [&](EC& ec) { fs::last_write_time(f, ec); });
			tried("links", may_look, [&]() { fs::hard_link_count(f); }, nullptr);
			tried("kind", may_look, [&]() { fs::is_regular_file(f); }, nullptr);
			tried("canonical", may_look, [&]() { fs::canonical(f); }, nullptr);
			tried("making a directory", may_change, [&]() { fs::create_directory(d + "/1"); }, [&](EC& ec) { fs::create_directory(d + "/2", ec); });
			tried("making directories", may_change, [&]() { fs::create_directories(d + "/3/4"); }, [&](EC& ec) { fs::create_directories(d + "/5/6", ec); });
			tried("copying to it", may_change, [&]() { fs::copy_file(here + "/g", d + "/7"); }, [&](EC& ec) { fs::copy_file(here + "/g", d + "/8", ec); });
			tried("copying from it", may_look, [&]() { fs::copy_file(f, here + "/9"); }, [&](EC& ec) { fs::copy_file(f, here + "/10", ec); });
			tried("linking", may_change, [&]() { fs::create_hard_link(here + "/g", d + "/11"); }, [&](EC& ec) { fs::create_hard_link(here + "/g", d + "/12", ec); });
			tried("moving into it", may_change, [&]() { put(here + "/a", "a"); fs::rename(here + "/a", d + "/13"); }, [&](EC& ec) { put(here + "/a", "a"); fs::rename(here + "/a", d + "/14", ec); });
			if (!may_change) {
				tried("removing", false, [&]() { fs::remove(f); }, [&](EC& ec) { fs::remove(f, ec); });
				tried("removing all", false, [&]() { fs::remove_all(d); }, [&](EC& ec) { fs::remove_all(d, ec); });
			}
			chmod(d.c_str(), 0755);
			MC_CHECK(contents(f) == "contents", "with mode %o, a file is lost", mode);
			wipe(here);
			mc::trace();
		}
	}

	/* Names */
	if (mc::mine(unit++)) {
		vector<string> const bits = { "a", ".", "/", "x", ".." };
		mc::sequences(bits.size(), 5, [&](vector<int> const& v) {
			string p;
			for (auto i: v) {
				p += bits[i];
			}
			if (p.substr(0, 2) == "//" || !mc::at("name:" + p)) {
				return;
			}
			/* the last component, and what follows its last dot */
			auto const slash = p.rfind('/');
			auto const last = slash == string::npos ? p : p.substr(slash + 1);
			if (last == "." || last == ".." || last.empty()) {
				MC_CHECK(fs::extension(p).empty(), "extension of %s is given as %s", p.c_str(), fs::extension(p).c_str());
				return;
			}
			if (last[0] == '.') {
				/* Hidden files: left to boost */
				return;
			}
			auto const dot = last.rfind('.');
			string const want = dot == string::npos ? "" : last.substr(dot);
			mc::trace();
			mc::transition(2);
			auto const got = fs::extension(p);
			MC_CHECK(got == want, "extension of %s is given as %s", p.c_str(), got.c_str());
			auto const changed = fs::change_extension(p, ".new").string();
			MC_CHECK(changed == p.substr(0, p.length() - want.length()) + ".new", "%s with its extension changed is %s", p.c_str(), changed.c_str());
			MC_CHECK(fs::fix_long_path(p) == boost::filesystem::path(p) && fs::unfix_long_path(p) == boost::filesystem::path(p), "%s is changed by fix_long_path", p.c_str());
		});
		if (mc::at("current")) {
			mkdir((top + "/here").c_str(), 0755);
			fs::current_path(top + "/here");
			char b[PATH_MAX];
			getcwd(b, sizeof(b));
			MC_CHECK(string(b) == top + "/here", "current_path() led to %s", b);
			MC_CHECK(fs::current_path() == boost::filesystem::path(b), "current_path() is given as %s", fs::current_path().string().c_str());
			MC_CHECK(fs::absolute("x/y") == boost::filesystem::path(string(b) + "/x/y"), "absolute path of x/y is given as %s", fs::absolute("x/y").string().c_str());
			mc::trace(3);
		}
	}
	mc::finish();
}
