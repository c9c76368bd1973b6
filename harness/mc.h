/* Support for the exhaustive harnesses: case keys (for replay), counts (for evidence), and the
 * reporting of violations.  A harness enumerates cases; each is named by a key made from a family
 * and some integers or a string, and given the same key again it does the same thing.
 */

#ifndef MC_H
#define MC_H


#include <fcntl.h>
#include <grp.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>


namespace mc {


struct State
{
	bool thorough = false;
	int seed = 1;
	int shard = 0;
	int shards = 1;
	std::string only;
	std::string out;
	std::string scratch;
	char* page = nullptr;

	int64_t states = 0;
	int64_t transitions = 0;
	int64_t traces = 0;
	int64_t evaluations = 0;
	std::unordered_set<uint64_t> outcomes;
	std::unordered_set<uint64_t> seen;
	std::vector<std::string> samples;
	std::map<std::string, int64_t> extra;
	std::map<std::string, int> sample_count;
	std::vector<std::pair<std::string, std::string>> known;
	std::set<std::string> known_seen;
	std::string bounds;
	int fds[3] = { -1, -1, -1 };
};


inline State& s()
{
	static State* state = new State;
	return *state;
}


inline bool thorough() { return s().thorough; }
inline std::string scratch() { return s().scratch; }


inline std::string json(std::string const& v)
{
	std::string o = "\"";
	for (unsigned char c: v) {
		char b[8];
		if (c == '"' || c == '\\') {
			o += '\\';
			o += c;
		} else if (c < 0x20 || c >= 0x7f) {
			snprintf(b, sizeof(b), "\\u%04x", c);
			o += b;
		} else {
			o += c;
		}
	}
	return o + "\"";
}


/** Open the report (0), hashes of outcomes (1) or of states (2) */
inline FILE* open_output(int which)
{
	if (s().fds[which] >= 0) {
		return fdopen(s().fds[which], "wb");
	}
	char const* suffix[] = { "", ".outcomes", ".states" };
	return fopen((s().out + suffix[which]).c_str(), "wb");
}


/** Become an unprivileged user, who has only the scratch directory to write to.  For code which could do harm if it were wrong. */
inline void drop_privileges()
{
	char const* suffix[] = { "", ".outcomes", ".states" };
	for (int i = 0; i < 3; ++i) {
		s().fds[i] = open((s().out + suffix[i]).c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
	}
	if (setgroups(0, nullptr) < 0 || setgid(65534) < 0 || setuid(65534) < 0 || geteuid() != 65534) {
		printf("could not become an unprivileged user\n");
		fflush(stdout);
		_exit(77);
	}
}


inline void write_report(std::string const& violation_key, std::string const& message)
{
	FILE* f = open_output(0);
	if (!f) {
		return;
	}
	fprintf(f, "{\"states\": %lld, \"transitions\": %lld, \"traces\": %lld, \"evaluations\": %lld, \"outcomes\": %lld,\n",
		(long long) s().states, (long long) s().transitions, (long long) s().traces, (long long) s().evaluations, (long long) s().outcomes.size());
	fprintf(f, "\"bounds\": %s,\n\"samples\": [", json(s().bounds).c_str());
	for (size_t i = 0; i < s().samples.size(); ++i) {
		fprintf(f, "%s%s", i ? ", " : "", json(s().samples[i]).c_str());
	}
	fprintf(f, "],\n\"extra\": {");
	bool first = true;
	for (auto const& i: s().extra) {
		fprintf(f, "%s%s: %lld", first ? "" : ", ", json(i.first).c_str(), (long long) i.second);
		first = false;
	}
	fprintf(f, "},\n\"known\": [");
	first = true;
	for (auto const& i: s().known_seen) {
		fprintf(f, "%s%s", first ? "" : ", ", json(i).c_str());
		first = false;
	}
	fprintf(f, "]");
	if (!violation_key.empty()) {
		fprintf(f, ",\n\"violation\": {\"key\": %s, \"message\": %s}", json(violation_key).c_str(), json(message).c_str());
	}
	fprintf(f, "}\n");
	fclose(f);
	/* Hashes of what was seen, so that the shards' counts can be of distinct things */
	for (int i = 0; i < 2; ++i) {
		auto const& set = i ? s().seen : s().outcomes;
		if (set.size() <= 300000) {
			if (FILE* h = open_output(i + 1)) {
				for (auto v: set) {
					fwrite(&v, sizeof(v), 1, h);
				}
				fclose(h);
			}
		}
	}
}


inline std::string format(char const* f, ...)
{
	char buffer[4096];
	va_list ap;
	va_start(ap, f);
	vsnprintf(buffer, sizeof(buffer), f, ap);
	va_end(ap);
	return buffer;
}


inline std::string current_key()
{
	return s().page ? std::string(s().page) : std::string();
}


/** Start the case with this key.
 *  @return false if the case is not wanted in this run (because we are replaying another).
 */
inline bool at(std::string const& key)
{
	State& st = s();
	if (!st.only.empty() && st.only != key) {
		return false;
	}
	strncpy(st.page, key.c_str(), 4000);
	if (++st.evaluations <= 2) {
		st.samples.push_back("case " + key);
	}
	return true;
}


inline bool at(char const* family, std::initializer_list<int64_t> v)
{
	/* Fast path: this is called a lot */
	State& st = s();
	char b[512];
	char* p = b;
	for (char const* f = family; *f; ++f) {
		*p++ = *f;
	}
	for (auto i: v) {
		*p++ = ':';
		uint64_t u = i < 0 ? -static_cast<uint64_t>(i) : i;
		if (i < 0) {
			*p++ = '-';
		}
		char d[24];
		int n = 0;
		do {
			d[n++] = '0' + (u % 10);
			u /= 10;
		} while (u);
		while (n) {
			*p++ = d[--n];
		}
	}
	*p = 0;
	if (!st.only.empty() && st.only != b) {
		return false;
	}
	memcpy(st.page, b, p - b + 1);
	if (++st.evaluations <= 2) {
		st.samples.push_back(std::string("case ") + b);
	}
	return true;
}


/** @return true if a unit of work with number n belongs to this process */
inline bool mine(int64_t n)
{
	return (n % s().shards) == s().shard;
}


inline uint64_t hash(void const* data, size_t n, uint64_t h = 1469598103934665603ULL)
{
	auto p = static_cast<unsigned char const*>(data);
	for (size_t i = 0; i < n; ++i) {
		h ^= p[i];
		h *= 1099511628211ULL;
	}
	h ^= h >> 29;
	return h;
}


inline uint64_t hash(std::string const& v) { return hash(v.data(), v.size()); }


/** Record something that was observed, to count how many distinct things were */
inline void outcome(std::string const& o) { if (s().outcomes.size() < 4000000) s().outcomes.insert(hash(o)); }
inline void outcome(uint64_t o) { if (s().outcomes.size() < 4000000) s().outcomes.insert(hash(&o, sizeof(o))); }


/** Note that a (canonical) state has been reached @return true if it is new */
inline bool state(std::string const& c)
{
	bool const fresh = s().seen.insert(hash(c)).second;
	if (fresh) {
		++s().states;
	}
	return fresh;
}


inline void transition(int64_t n = 1) { s().transitions += n; }
inline void trace(int64_t n = 1) { s().traces += n; }
inline void extra(std::string const& name, int64_t n = 1) { s().extra[name] += n; }


/** Give an example of a case for the evidence (the first few of each kind are kept) */
inline void sample(std::string const& kind, std::string const& text)
{
	if (s().sample_count[kind]++ < 2) {
		s().samples.push_back(kind + ": " + text);
	}
}


inline bool want_sample(std::string const& kind)
{
	return s().sample_count[kind] < 2;
}


[[noreturn]] inline void finish()
{
	write_report("", "");
	fflush(stdout);
	_exit(0);
}


/** The property does not hold for the current case */
inline void violation(std::string const& message)
{
	auto const key = current_key();
	for (auto const& k: s().known) {
		if (k.first == key) {
			s().known_seen.insert(k.second);
			return;
		}
	}
	write_report(key, message);
	printf("case %s: %s\n", key.c_str(), message.c_str());
	fflush(stdout);
	_exit(1);
}


#define MC_CHECK(x, ...) do { if (!(x)) mc::violation(mc::format(__VA_ARGS__)); } while (0)


inline void init(int argc, char** argv)
{
	auto& st = s();
	std::string current;
	for (int i = 1; i + 1 < argc; i += 2) {
		std::string const k = argv[i];
		std::string const v = argv[i + 1];
		if (k == "--tier") {
			st.thorough = v == "thorough";
		} else if (k == "--seed") {
			st.seed = atoi(v.c_str());
		} else if (k == "--only") {
			st.only = v;
		} else if (k == "--out") {
			st.out = v;
		} else if (k == "--current") {
			current = v;
		} else if (k == "--scratch") {
			st.scratch = v;
		} else if (k == "--known") {
			auto const tab = v.find('\t');
			st.known.push_back({v.substr(0, tab), v.substr(tab + 1)});
		} else if (k == "--shard") {
			st.shard = atoi(v.c_str());
			st.shards = atoi(v.substr(v.find('/') + 1).c_str());
		}
	}
	if (current.empty()) {
		st.page = static_cast<char*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	} else {
		int fd = open(current.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
		if (fd < 0 || ftruncate(fd, 4096) < 0) {
			abort();
		}
		st.page = static_cast<char*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
		close(fd);
	}
	if (st.page == MAP_FAILED) {
		abort();
	}
	st.page[0] = 0;
}


/** Call f with every sequence of length n over 0..k-1 */
inline void sequences(int k, int n, std::function<void (std::vector<int> const&)> f)
{
	std::vector<int> v(n, 0);
	while (true) {
		f(v);
		int i = n - 1;
		while (i >= 0 && ++v[i] == k) {
			v[i--] = 0;
		}
		if (i < 0) {
			return;
		}
	}
}

/** Call f with every sequence of length up to n over 0..k-1, shortest first */
inline void sequences_to(int k, int n, std::function<void (std::vector<int> const&)> f)
{
	for (int i = 0; i <= n; ++i) {
		sequences(k, i, f);
	}
}


}


#endif
