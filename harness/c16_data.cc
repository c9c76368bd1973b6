/* C16: writing data to a file, with every failure of a system call and a crash at every point */

#include "array_data.h"
#include "data.h"
#include "faults.h"
#include <algorithm>
#include <fstream>
#include <limits.h>
#include <sstream>
#include <sys/stat.h>
#include <dirent.h>

using std::string;
using std::vector;
using faults::Fault;
using faults::Kind;

class Buffer : public dcp::Data
{
public:
	explicit Buffer(string s)
		: _data(s.begin(), s.end())
		, _size(s.length())
	{
		_data.push_back(0xee);
	}

	uint8_t const * data() const override { return _data.data(); }
	uint8_t * data() override { return _data.data(); }
	int size() const override { return _size; }

private:
	vector<uint8_t> _data;
	int _size;
};

static string pattern(int size)
{
	string s;
	for (int i = 0; i < size; ++i) {
		s += char(i * 7 + i / 251 + 1);
	}
	return s;
}

static string const none = "(none)";

static string contents(string const& p)
{
	struct stat st;
	if (stat(p.c_str(), &st) < 0) {
		return none;
	}
	std::ifstream f(p, std::ios::binary);
	std::stringstream s;
	s << f.rdbuf();
	return s.str();
}

static void put(string const& p, string const& c)
{
	unlink(p.c_str());
	if (c != none) {
		std::ofstream f(p, std::ios::binary | std::ios::trunc);
		f << c;
	}
}

static string show(string const& s)
{
	return s == none ? "no file" : mc::format("%d bytes", int(s.length()));
}

static int names(string const& d)
{
	int n = 0;
	if (DIR* dir = opendir(d.c_str())) {
		while (readdir(dir)) {
			++n;
		}
		closedir(dir);
	}
	return n - 2;
}

enum { RETURNED = 0, THREW = 10, THREW_SOMETHING = 11 };

enum class How { WRITE, VIA_TEMP, VIA_TEMP_ELSEWHERE, READ };

struct Set
{
	How how;
	int size;
	/** -1 for none */
	int old_final;
	int old_temp;
};

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	int64_t unit = 0;
	char real[PATH_MAX];
	if (!realpath(mc::scratch().c_str(), real)) {
		return 77;
	}
	string const dir = string(real) + "/d";
	mkdir(dir.c_str(), 0755);
	mkdir((dir + "/other").c_str(), 0755);
	string const final = dir + "/final";
	string const bystander = dir + "/bystander";
	put(bystander, "leave me alone");

	vector<Set> sets;
	for (int size: { 0, 1, 4095, 4096, 4097, 8192, 10000, 70000 }) {
		for (int old: { -1, 0, 100, 90000 }) {
			sets.push_back({ How::WRITE, size, old, -1 });
			sets.push_back({ How::VIA_TEMP, size, old, -1 });
		}
		sets.push_back({ How::VIA_TEMP, size, 100, 90000 });
		sets.push_back({ How::VIA_TEMP_ELSEWHERE, size, 100, -1 });
		sets.push_back({ How::READ, size, size, -1 });
	}

	for (int s = 0; s < int(sets.size()); ++s) {
		auto const set = sets[s];
		string const temp = set.how == How::VIA_TEMP_ELSEWHERE ? dir + "/other/temp" : dir + "/temp";
		auto const data = pattern(set.size);
		string const old_final = set.old_final < 0 ? none : set.how == How::READ ? data : string(set.old_final, 'o');
		string const old_temp = set.old_temp < 0 ? none : string(set.old_temp, 't');
		char const* names_of[] = { "writing", "writing via a temporary file", "writing via a temporary file elsewhere", "reading" };
		auto const what = mc::format("%s %d bytes where there was %s", names_of[int(set.how)], set.size, show(old_final).c_str());

		auto const go = [&](vector<Fault> const& f, string const& key) -> faults::Result {
			put(final, old_final);
			unlink((dir + "/temp").c_str());
			unlink((dir + "/other/temp").c_str());
			put(temp, old_temp);
			auto const r = faults::run(dir, [&]() -> int {
				try {
					switch (set.how) {
					case How::WRITE:
						Buffer(data).write(final);
						break;
					case How::VIA_TEMP:
					case How::VIA_TEMP_ELSEWHERE:
						Buffer(data).write_via_temp(temp, final);
						break;
					case How::READ:
					{
						dcp::ArrayData const d(final);
						return string(reinterpret_cast<char const*>(d.data()), d.size()) == data ? RETURNED : 1;
					}
					}
				} catch (std::exception&) {
					return THREW;
				} catch (...) {
					return THREW_SOMETHING;
				}
				return RETURNED;
			}, f);
			auto const how = [&]() { return what + (f.empty() ? "" : ", with ") + faults::describe(f, r); };
			mc::trace();
			mc::transition(r.calls.size());
			MC_CHECK(r.killed || r.signal == 0, "%s: ended by signal %d", how().c_str(), r.signal);
			MC_CHECK(r.killed || r.code == RETURNED || r.code == THREW || set.how == How::READ, "%s: something other than a standard exception was thrown (%d)", how().c_str(), r.code);
			auto const now = contents(final);
			auto const now_temp = contents(temp);
			bool const returned = !r.killed && r.code == RETURNED;
			switch (set.how) {
			case How::WRITE:
				if (returned) {
					MC_CHECK(now == data, "%s: it succeeded, but the file has %s%s", how().c_str(), show(now).c_str(), now.length() == data.length() ? " which are not right" : "");
				}
				break;
			case How::VIA_TEMP:
			case How::VIA_TEMP_ELSEWHERE:
				if (returned) {
					MC_CHECK(now == data, "%s: it succeeded, but the file has %s%s", how().c_str(), show(now).c_str(), now.length() == data.length() ? " which are not right" : "");
					MC_CHECK(now_temp == none, "%s: it succeeded, but the temporary file is still there", how().c_str());
				} else {
					MC_CHECK(now == old_final || now == data, "%s: the file has %s, neither what it had nor what was to be written", how().c_str(), show(now).c_str());
				}
				break;
			case How::READ:
				MC_CHECK(now == old_final, "%s: the file was changed", how().c_str());
				MC_CHECK(r.killed || r.code == RETURNED || r.code == THREW, "%s: it succeeded with the wrong data", how().c_str());
				break;
			}
			if (f.empty()) {
				MC_CHECK(returned, "%s: it failed", what.c_str());
			}
			MC_CHECK(contents(bystander) == "leave me alone", "%s: another file was changed", how().c_str());
			MC_CHECK(names(dir) == 2 + (now != none) + (now_temp != none && set.how != How::VIA_TEMP_ELSEWHERE) &&
				 names(dir + "/other") == (now_temp != none && set.how == How::VIA_TEMP_ELSEWHERE), "%s: a file that was not asked for has appeared", how().c_str());
			mc::state(mc::format("%d:", s) + show(now) + (now == data ? "=" : "") + show(now_temp) + (r.killed ? "k" : mc::format("%d", r.code)));
			mc::outcome(mc::format("%d:", s) + faults::describe(f, r) + (r.killed ? "k" : mc::format("%d", r.code)));
			if (!f.empty() && mc::want_sample("fault")) {
				mc::sample("fault", how() + (r.killed ? ": " : returned ? ": returned; " : ": threw; ") + "file has " + show(now));
			}
			return r;
		};

		/* The calls that it makes when nothing goes wrong */
		mc::at(mc::format("plain:%d", s));
		auto const plain = go({}, "");
		mc::extra("system_calls_observed", mc::s().shard == 0 ? plain.calls.size() : 0);

		/* The faults to inject into a call */
		auto const choices = [](faults::Call const& c, int index, bool crashes) {
			vector<Fault> f;
			for (int e: { EIO, ENOSPC, EACCES, EINTR }) {
				f.push_back({ index, Kind::ERROR, e });
			}
			if (c.transfer()) {
				std::set<int64_t> lengths = { 0, 1, int64_t(c.length / 2), int64_t(c.length) - 1 };
				for (auto n: lengths) {
					/* a read of nothing means the end of the file; a write of nothing is not something that happens */
					if (n >= 0 && n < int64_t(c.length) && (n > 0 || !c.writes())) {
						f.push_back({ index, Kind::SHORT, n });
						if (crashes) {
							f.push_back({ index, Kind::SHORT_KILL, n });
						}
					}
				}
			}
			if (crashes) {
				f.push_back({ index, Kind::KILL, 0 });
				f.push_back({ index, Kind::KILL_AFTER, 0 });
			}
			return f;
		};

		for (int i = 0; i < int(plain.calls.size()); ++i) {
			bool const mine = mc::mine(unit++);
			if (!mine && mc::s().only.empty()) {
				continue;
			}
			auto const first = choices(plain.calls[i], i, true);
			for (int j = 0; j < int(first.size()); ++j) {
				auto const key = mc::format("fault:%d:%d:%d", s, i, j);
				bool const deeper = mc::s().only.compare(0, key.length() + 1, key + ":") == 0;
				if (!mc::at(key) && !deeper) {
					continue;
				}
				auto const one = go({ first[j] }, key);
				if (one.killed || (!mc::thorough() && set.old_final > 100)) {
					continue;
				}
				/* And then another, in what follows the first */
				for (int k = i + 1; k < int(one.calls.size()); ++k) {
					auto const second = choices(one.calls[k], k, true);
					for (int l = 0; l < int(second.size()); ++l) {
						auto const key2 = key + mc::format(":%d:%d", k, l);
						if (mc::at(key2)) {
							go({ first[j], second[l] }, key2);
						}
					}
				}
			}
		}
	}

	/* Through a temporary file which is the file itself */
	for (int size = 0; size < 20; ++size) {
		if (!mc::mine(unit++) || !mc::at("same", { size })) {
			continue;
		}
		put(final, pattern(100));
		auto const d = pattern(size);
		Buffer(d).write_via_temp(final, final);
		MC_CHECK(contents(final) == d, "%d bytes written through the file itself are not there", size);
		put(final, none);
		mc::trace();
		mc::transition();
	}

	/* Larger amounts */
	for (int size: { 65535, 65536, 65537, 1 << 20, (1 << 20) + 1, 16777216, 40000001 }) {
		if (!mc::mine(unit++) || !mc::at("large", { size })) {
			continue;
		}
		auto const d = pattern(size);
		put(final, none);
		for (int k = 0; k < 3; ++k) {
			if (k == 0) {
				Buffer(d).write(final);
			} else if (k == 1) {
				Buffer(d).write_via_temp(dir + "/temp", final);
			} else {
				dcp::ArrayData(final).write(final);
			}
			MC_CHECK(contents(final) == d, "%d bytes were not written whole", size);
			MC_CHECK(contents(dir + "/temp") == none, "a temporary file was left");
			dcp::ArrayData const back(final);
			MC_CHECK(back.size() == size && memcmp(back.data(), d.data(), size) == 0, "%d bytes were not read whole", size);
			auto other = d;
			MC_CHECK(back == Buffer(other) && !(back != Buffer(other)), "%d bytes are not equal to themselves", size);
			for (int at: { 0, size / 2, 65535 % size, size - 1 }) {
				other[at] ^= 1;
				MC_CHECK(!(back == Buffer(other)) && back != Buffer(other), "%d bytes are equal to others which differ at %d", size, at);
				other[at] ^= 1;
			}
			mc::trace();
			mc::transition(4);
		}
		put(final, none);
	}

	/* Comparison */
	if (mc::mine(unit++)) {
		vector<string> all;
		string const letters("\0\1\377", 3);
		for (int n = 0; n <= 4; ++n) {
			mc::sequences(3, n, [&](vector<int> const& v) {
				string s;
				for (auto i: v) {
					s += letters[i];
				}
				all.push_back(s);
			});
		}
		for (size_t i = 0; i < all.size(); ++i) {
			for (size_t j = 0; j < all.size(); ++j) {
				if (!mc::at("equal", { int64_t(i), int64_t(j) })) {
					continue;
				}
				Buffer const a(all[i]);
				Buffer const b(all[j]);
				mc::trace();
				mc::transition(2);
				MC_CHECK((a == b) == (i == j) && (a != b) == (i != j), "blocks of %d and %d bytes are compared wrongly", int(all[i].length()), int(all[j].length()));
			}
		}
	}
	mc::finish();
}
