/* C13: cleaning up a path that need not exist */

#include "filesystem.h"
#include "mc.h"
#include <limits.h>
#include <sys/stat.h>

using std::string;
using std::vector;

static vector<string> parts(string const& p)
{
	vector<string> out;
	string c;
	for (char i: p + "/") {
		if (i == '/') {
			if (!c.empty()) {
				out.push_back(c);
			}
			c = "";
		} else {
			c += i;
		}
	}
	return out;
}

static string resolve(string const& p)
{
	char b[PATH_MAX];
	return realpath(p.c_str(), b) ? b : "";
}

static bool is_link(string const& p)
{
	struct stat s;
	return lstat(p.c_str(), &s) == 0 && S_ISLNK(s.st_mode);
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	mc::drop_privileges();
	int64_t unit = 0;

	/* root/d/e, root/f (a file), root/l -> d/e, root/d/m -> .., root/x (dangling), and we are in root/d */
	auto const root = resolve(mc::scratch()) + "/root";
	auto run = [](string const& what, int r) { if (r < 0) { printf("cannot make %s\n", what.c_str()); fflush(stdout); _exit(77); } };
	run("root", mkdir(root.c_str(), 0755));
	run("d", mkdir((root + "/d").c_str(), 0755));
	run("e", mkdir((root + "/d/e").c_str(), 0755));
	run("f", creat((root + "/f").c_str(), 0644));
	run("l", symlink("d/e", (root + "/l").c_str()));
	run("m", symlink("..", (root + "/d/m").c_str()));
	run("x", symlink("nowhere", (root + "/x").c_str()));
	run("cd", chdir((root + "/d").c_str()));

	auto judge = [&](string const& key, string const& p, string const& state, bool sampled) {
		if (!mc::at(key)) {
			return;
		}
		string const got = dcp::filesystem::weakly_canonical(p).string();
		mc::trace();
		mc::transition();
		mc::state(state);
		mc::outcome(got.compare(0, root.length(), root) == 0 ? "~" + got.substr(root.length()) : got);
		string const full = p[0] == '/' ? p : root + "/d/" + p;
		MC_CHECK(!got.empty() && got[0] == '/', "%s gives %s, which is not absolute", p.c_str(), got.c_str());
		/* what it should be if no links are involved */
		vector<string> want;
		bool links = false;
		for (auto const& c: parts(full)) {
			if (c == "..") {
				if (!want.empty()) {
					want.pop_back();
				}
			} else if (c != ".") {
				want.push_back(c);
				string sofar;
				for (auto const& w: want) {
					sofar += "/" + w;
				}
				links = links || is_link(sofar);
			}
		}
		if (!links) {
			MC_CHECK(parts(got) == want, "%s gives %s", p.c_str(), got.c_str());
		} else {
			/* .. only where a link has to be followed first, and no . */
			string sofar;
			bool through_link = false;
			for (auto const& c: parts(got)) {
				MC_CHECK(c != ".", "%s gives %s, with a . in it", p.c_str(), got.c_str());
				MC_CHECK(c != ".." || through_link, "%s gives %s, with a .. that should not be there", p.c_str(), got.c_str());
				sofar += "/" + c;
				if (c != "..") {
					through_link = is_link(sofar);
				}
			}
			mc::extra("paths_through_symbolic_links");
		}
		auto const there = resolve(p);
		if (!there.empty()) {
			mc::extra("paths_that_exist");
			MC_CHECK(resolve(got) == there, "%s gives %s, which is not the same thing", p.c_str(), got.c_str());
		}
		auto const again = dcp::filesystem::weakly_canonical(got).string();
		MC_CHECK(again == got, "%s gives %s, which itself gives %s", p.c_str(), got.c_str(), again.c_str());
		if (sampled && mc::want_sample("path")) {
			mc::sample("path", p + " -> " + got);
		}
	};

	vector<string> const components = { ".", "..", "d", "e", "f", "l", "m", "n", "..." };
	vector<string> const bases = { root, "/", "", "/nowhere/at/all" };
	int const depth = mc::thorough() ? 6 : 5;
	for (size_t b = 0; b < bases.size(); ++b) {
		for (int length = 0; length <= depth; ++length) {
			mc::sequences(components.size(), length, [&](vector<int> const& v) {
				if (!mc::mine(unit++)) {
					return;
				}
				for (int slash = 0; slash < 2; ++slash) {
					string p = bases[b];
					for (auto i: v) {
						if (!p.empty() && p.back() != '/') {
							p += '/';
						}
						p += components[i];
					}
					if (p.empty() || (slash && p.back() == '/')) {
						continue;
					}
					if (slash) {
						p += '/';
					}
					judge("path:" + mc::format("%d:%d", int(b), slash) + ":" + p.substr(bases[b].length()), p, mc::format("%d:", int(b)) + p.substr(bases[b].length()), length == depth);
				}
			});
		}
	}

	/* Long paths, odd names and chains of links */
	string const deep(200, 'n');
	vector<string> const odd = { " ", "a b", "a\\b", "caf\xc3\xa9", "\xff", "a:b", "~", "-", "....", ".x", "x.", "..x", "x..", deep, "a\nb" };
	run("odd", mkdir((root + "/odd").c_str(), 0755));
	for (auto const& o: odd) {
		run(o, mkdir((root + "/odd/" + o).c_str(), 0755));
	}
	run("1", symlink("d/e", (root + "/1").c_str()));
	run("2", symlink("1", (root + "/2").c_str()));
	run("3", symlink((root + "/2").c_str(), (root + "/3").c_str()));
	run("4", symlink("../f", (root + "/d/4").c_str()));
	run("5", symlink("d/../odd/./..", (root + "/5").c_str()));
	for (int n = 0; n <= 120; ++n) {
		if (!mc::mine(unit++)) {
			continue;
		}
		auto repeat = [](string const& s, int n) {
			string o;
			for (int i = 0; i < n; ++i) {
				o += s;
			}
			return o;
		};
		vector<string> const all = {
			root + repeat("/n", n), root + repeat("/n/..", n), root + repeat("/./n", n) + repeat("/..", n), root + repeat("/..", n), root + repeat("/..", n) + "/n", repeat("../", n) + "n",
			repeat("./", n) + "n", repeat("n/", n) + "..", root + repeat("/d/m", n) + "/f", root + repeat("/d/..", n) + "/d/e/.", "/" + repeat("/", n) + "n//..", root + repeat("//", n) + "/d"
		};
		for (size_t i = 0; i < all.size(); ++i) {
			if ((n > 35 && i == 8) || i == 10) {
				/* More links than the system will follow; and two slashes at the start are special */
				continue;
			}
			judge(mc::format("long:%d:%d", n, int(i)), all[i], mc::format("long:%d:%d", n, int(i)), false);
		}
	}
	vector<string> more = odd;
	for (auto const& i: { "1", "2", "3", "4", "5", "..", "e", "f" }) {
		more.push_back(i);
	}
	for (size_t a = 0; a < more.size(); ++a) {
		if (!mc::mine(unit++)) {
			continue;
		}
		for (size_t b = 0; b < more.size(); ++b) {
			for (size_t c = 0; c < more.size(); ++c) {
				int n = 0;
				for (auto const& base: { root + "/", root + "/odd/", string() }) {
					auto const p = base + more[a] + "/" + more[b] + "/" + more[c];
					judge(mc::format("odd:%d:%d:%d:%d", int(a), int(b), int(c), n), p, mc::format("odd:%d:%d:%d:%d", int(a), int(b), int(c), n), false);
					++n;
				}
			}
		}
	}
	mc::finish();
}
