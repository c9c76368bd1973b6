/* C15: a File does to its file what stdio does, owns it exactly once through moves and take(), and reports short reads and writes */

#include "exceptions.h"
#include "file.h"
#include "mc.h"
#include <dirent.h>
#include <errno.h>
#include <fstream>
#include <memory>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <type_traits>

using dcp::File;
using std::string;
using std::unique_ptr;
using std::vector;

static string contents(string const& p)
{
	std::ifstream f(p, std::ios::binary);
	if (!f) {
		return "<absent>";
	}
	std::stringstream s;
	s << f.rdbuf();
	return s.str();
}

static void put(string const& p, string const& c)
{
	std::ofstream f(p, std::ios::binary | std::ios::trunc);
	f << c;
}

static int open_files()
{
	int n = 0;
	DIR* d = opendir("/proc/self/fd");
	while (readdir(d)) {
		++n;
	}
	closedir(d);
	return n;
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	int64_t unit = 0;
	if (mc::at("copy")) {
		MC_CHECK(!std::is_copy_constructible<File>::value && !std::is_copy_assignable<File>::value, "a File can be copied, so that it would be closed twice");
	}
	string const A = mc::scratch() + "/a";
	string const B = mc::scratch() + "/b";

	/* Histories of operations on one file, next to the same with stdio on another */
	vector<string> const modes = { "rb", "wb", "ab", "r+b", "w+b", "a+b", "r", "w" };
	vector<string> const starts = { "", "hello\nworld", "0123456789" };
	enum { WRITE, READ, EOF_, GETS, PUTS, SEEK_SET3, SEEK_BACK, SEEK_END_, TELL, ERROR_, CHECKED_WRITE, CHECKED_READ, SEEK_HERE, OPS };
	char const* names[] = { "write", "read", "eof", "gets", "puts", "seek set 3", "seek current -1", "seek end 2", "tell", "error", "checked_write", "checked_read", "seek current 0" };
	int const depth = mc::thorough() ? 4 : 3;
	for (size_t m = 0; m < modes.size(); ++m) {
		for (size_t s = 0; s <= starts.size(); ++s) {
			for (int first = 0; first < OPS; ++first) {
				if (!mc::mine(unit++)) {
					continue;
				}
				mc::sequences(OPS, depth - 1, [&](vector<int> const& rest) {
					string key = mc::format("history:%d:%d:%d", int(m), int(s), first);
					for (auto i: rest) {
						key += mc::format(":%d", i);
					}
					if (!mc::at(key)) {
						return;
					}
					for (auto const& p: { A, B }) {
						if (s < starts.size()) {
							put(p, starts[s]);
						} else {
							unlink(p.c_str());
						}
					}
					string how = "opened with " + modes[m];
					{
						File f(A, modes[m]);
						FILE* g = fopen(B.c_str(), modes[m].c_str());
						int const e = g ? 0 : errno;
						mc::transition();
						MC_CHECK(bool(f) == bool(g), "%s: open %s", how.c_str(), f ? "worked" : "failed");
						MC_CHECK(f.path() == A, "%s: path is %s", how.c_str(), f.path().string().c_str());
						MC_CHECK(f.open_error() == e, "%s: error %d rather than %d", how.c_str(), f.open_error(), e);
						MC_CHECK(bool(f.get()) == bool(g), "%s: get()", how.c_str());
						mc::trace();
						if (g) {
							vector<int> sequence = rest;
							sequence.insert(sequence.begin(), first);
							for (auto o: sequence) {
								how += string(", ") + names[o];
								mc::transition();
								char x[16] = {}, y[16] = {};
								int64_t p = 0, q = 0;
								switch (o) {
								case WRITE:
									p = f.write("abcdef", 2, 3);
									q = fwrite("abcdef", 2, 3, g);
									break;
								case READ:
									p = f.read(x, 3, 2);
									q = fread(y, 3, 2, g);
									break;
								case EOF_:
									p = f.eof() != 0;
									q = feof(g) != 0;
									break;
								case GETS:
									p = f.gets(x, 8) != nullptr;
									q = fgets(y, 8, g) != nullptr;
									break;
								case PUTS:
									p = f.puts("pq\n") >= 0;
									q = fputs("pq\n", g) >= 0;
									break;
								case SEEK_SET3:
									p = f.seek(3, SEEK_SET);
									q = fseek(g, 3, SEEK_SET);
									break;
								case SEEK_BACK:
									p = f.seek(-1, SEEK_CUR);
									q = fseek(g, -1, SEEK_CUR);
									break;
								case SEEK_END_:
									p = f.seek(2, SEEK_END);
									q = fseek(g, 2, SEEK_END);
									break;
								case SEEK_HERE:
									p = f.seek(0, SEEK_CUR);
									q = fseek(g, 0, SEEK_CUR);
									break;
								case TELL:
									p = f.tell();
									q = ftell(g);
									break;
								case ERROR_:
									p = f.error() != 0;
									q = ferror(g) != 0;
									break;
								case CHECKED_WRITE:
									try {
										f.checked_write("xyz", 3);
										p = 1;
									} catch (dcp::FileError&) {}
									q = fwrite("xyz", 1, 3, g) == 3;
									break;
								case CHECKED_READ:
									try {
										f.checked_read(x, 4);
										p = 1;
									} catch (dcp::FileError&) {
										memset(x, 0, sizeof(x));
									}
									q = fread(y, 1, 4, g) == 4;
									if (!q) {
										memset(y, 0, sizeof(y));
									}
									break;
								}
								MC_CHECK(p == q, "%s: gave %lld rather than %lld", how.c_str(), (long long) p, (long long) q);
								MC_CHECK(memcmp(x, y, sizeof(x)) == 0, "%s: read the wrong data", how.c_str());
								mc::outcome(mc::format("%d:%lld:", o, (long long) p) + string(x, 16));
							}
							fclose(g);
						}
					}
					auto const a = contents(A);
					auto const b = contents(B);
					mc::state(how + a);
					MC_CHECK(a == b, "%s: the file contains '%s' rather than '%s'", how.c_str(), a.c_str(), b.c_str());
					if (mc::want_sample("history")) {
						mc::sample("history", how + " -> '" + a + "'");
					}
				});
			}
		}
	}

	/* More than fits into 31 or 32 bits in one go, where it costs nothing */
	for (int64_t size: { int64_t(0x7fffffff), int64_t(0x80000000), int64_t(0xffffffff), int64_t(0x100000005) }) {
		if (!mc::mine(unit++)) {
			continue;
		}
		for (int k = 0; k < 3; ++k) {
			if (!mc::at("huge", { size, k })) {
				continue;
			}
			File f("/dev/null", "wb");
			void* p = mmap(nullptr, size, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			MC_CHECK(f, "/dev/null could not be opened");
			if (p == MAP_FAILED) {
				perror("mmap");
				exit(2);
			}
			if (k == 0) {
				MC_CHECK(int64_t(f.write(p, 1, size)) == size, "a write of %lld bytes was cut short", (long long) size);
			} else if (k == 1) {
				MC_CHECK(f.write(p, size, 1) == 1, "a write of %lld bytes failed", (long long) size);
			} else {
				f.checked_write(p, size);
			}
			munmap(p, size);
			mc::trace();
			mc::transition();
		}
	}

	/* Every short content made of bytes that some code treats specially, written and read back in every way */
	{
		string const bytes("a\n\r\0\x1a\xff\xef", 7);
		int const longest = mc::thorough() ? 6 : 5;
		for (int length = 1; length <= longest; ++length) {
			mc::sequences(bytes.length(), length, [&](vector<int> const& v) {
				if (!mc::mine(unit++)) {
					return;
				}
				string d;
				string name = "bytes";
				for (auto i: v) {
					d += bytes[i];
					name += mc::format(":%d", i);
				}
				for (int way = 0; way < 4; ++way) {
					auto const key = name + mc::format(":%d", way);
					bool const text = way & 1;
					bool const line = way & 2;
					if ((line && d.find('\0') != string::npos) || !mc::at(key)) {
						continue;
					}
					unlink(A.c_str());
					{
						File f(A, text ? "w" : "wb");
						if (line) {
							MC_CHECK(f.puts(d.c_str()) >= 0, "puts failed");
						} else {
							f.checked_write(d.data(), d.length());
						}
					}
					MC_CHECK(contents(A) == d, "%d bytes written are not what is in the file", length);
					put(B, d);
					File f(A, text ? "r" : "rb");
					FILE* g = fopen(B.c_str(), "rb");
					MC_CHECK(f && g, "a file just written could not be opened");
					for (int size = 2; size <= length + 2; ++size) {
						f.seek(0, SEEK_SET);
						fseeko(g, 0, SEEK_SET);
						bool more = true;
						while (more) {
							char x[16], y[16];
							memset(x, 'x', sizeof(x));
							memset(y, 'x', sizeof(y));
							bool const a = f.gets(x, size) != nullptr;
							more = fgets(y, size, g) != nullptr;
							mc::transition();
							MC_CHECK(a == more && memcmp(x, y, sizeof(x)) == 0, "a line read (in at most %d bytes) is not what is in the file", size);
							MC_CHECK(f.tell() == ftello(g) && bool(f.eof()) == bool(feof(g)), "after reading a line, tell gives %lld", (long long) f.tell());
						}
					}
					f.seek(0, SEEK_SET);
					string got(length, 'x');
					f.checked_read(&got[0], length);
					MC_CHECK(got == d, "%d bytes read are not what was in the file", length);
					f.seek(0, SEEK_SET);
					got = string(length + 1, 'x');
					MC_CHECK(f.read(&got[0], 1, length + 1) == size_t(length) && got == d + "x", "%d bytes read are not what was in the file", length);
					fclose(g);
					mc::trace();
					mc::state(key);
				}
			});
		}
	}

	/* Larger amounts, around the sizes of buffers */
	for (int size: { 1, 2, 511, 512, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 131072, 1000003 }) {
		for (int each: { 1, 3, 512, 4096, 65536, 2000000 }) {
			if (size / each > 70000 || !mc::mine(unit++) || !mc::at("large", { size, each })) {
				continue;
			}
			string d;
			for (int i = 0; i < size; ++i) {
				d += i % 61 == 60 ? '\n' : char('0' + (i * 7 + i / 4096) % 75);
			}
			for (int checked = 0; checked < 3; ++checked) {
				unlink(A.c_str());
				{
					File f(A, "wb");
					for (int i = 0; i < size; i += each) {
						int const n = std::min(each, size - i);
						if (checked == 2) {
							MC_CHECK(f.puts(d.substr(i, n).c_str()) >= 0, "puts failed");
						} else if (checked) {
							f.checked_write(d.data() + i, n);
						} else {
							MC_CHECK(f.write(d.data() + i, n, 1) == 1, "write of %d did not give 1", n);
						}
						MC_CHECK(f.tell() == i + n, "after writing %d, tell gives %lld", i + n, (long long) f.tell());
						mc::transition();
					}
				}
				MC_CHECK(contents(A) == d, "%d bytes written in pieces of %d are not what is in the file", size, each);
				File f(A, "rb");
				string got(size + 10, 0);
				int n = 0;
				if (checked == 2) {
					/* Lines, or parts of them */
					vector<char> line(each + 1);
					while (f.gets(line.data(), line.size())) {
						auto const s = string(line.data());
						MC_CHECK(!s.empty() && int(s.length()) <= each && n + int(s.length()) <= size && (s.find(char(10)) == string::npos || s.find(char(10)) == s.length() - 1), "a line read is wrong");
						memcpy(&got[n], s.data(), s.length());
						n += s.length();
						mc::transition();
					}
				} else if (checked) {
					for (n = 0; n + each <= size; n += each) {
						f.checked_read(&got[n], each);
						mc::transition();
					}
					bool refused = false;
					try {
						f.checked_read(&got[n], size - n + 1);
					} catch (dcp::FileError&) {
						refused = true;
					}
					MC_CHECK(refused, "reading one byte more than there is was not refused");
					n = size;
				} else {
					while (true) {
						auto const r = f.read(&got[n], 1, std::min(each, size + 10 - n));
						n += r;
						mc::transition();
						if (r == 0) {
							break;
						}
					}
					MC_CHECK(f.eof(), "not at the end after reading everything");
				}
				got.resize(size);
				MC_CHECK(n == size && got == d, "%d bytes read in pieces of %d are not what was in the file", size, each);
				mc::trace();
				mc::state(mc::format("large:%d:%d:%d", size, each, checked));
			}
		}
	}

	/* Ownership: open, move, assign, take and close over three Files, and what ends up in which file */
	{
		int const slots = 3;
		/* 0 open i, 1 close i, 2 destroy i, 3 move-construct j from i, 4 move-assign j from i, 5 take i, 6 write to i */
		struct Op { int kind, i, j; };
		vector<Op> ops;
		for (int i = 0; i < slots; ++i) {
			for (int k: { 0, 1, 2, 5, 6 }) {
				ops.push_back({ k, i, 0 });
			}
			for (int j = 0; j < slots; ++j) {
				if (j != i) {
					ops.push_back({ 3, i, j });
				}
				ops.push_back({ 4, i, j });
			}
		}
		int const base = open_files();
		int const depth = mc::thorough() ? 5 : 4;
		for (size_t second = 0; second < ops.size(); ++second) {
			if (!mc::mine(unit++)) {
				continue;
			}
			for (int length = 0; length <= depth - 2; ++length) {
				mc::sequences(ops.size(), length, [&](vector<int> const& rest) {
					/* start with an open file in slot 0 and another in slot 1 */
					vector<int> sequence = { int(second) };
					sequence.insert(sequence.end(), rest.begin(), rest.end());
					bool there[slots] = { true, true, false };
					for (auto k: sequence) {
						auto const& o = ops[k];
						if (o.kind == 0 || o.kind == 3) {
							int const into = o.kind == 0 ? o.i : o.j;
							if (there[into] || (o.kind == 3 && !there[o.i])) {
								return;
							}
							there[into] = true;
						} else if (!there[o.i] || (o.kind == 4 && !there[o.j])) {
							return;
						} else if (o.kind == 2) {
							there[o.i] = false;
						}
					}
					string key = "own";
					for (auto k: sequence) {
						key += mc::format(":%d", k);
					}
					if (!mc::at(key)) {
						return;
					}
					/* the model: which file each slot has (-1 none), what each file should contain, and whether it is open */
					unique_ptr<File> files[slots];
					int held[slots] = { -1, -1, -1 };
					string path[slots];
					vector<string> want;
					int opened = 0;
					vector<FILE*> taken;
					auto name = [&](int n) { return mc::scratch() + mc::format("/own%d", n); };
					auto open = [&](int i) {
						int const n = want.size();
						want.push_back("");
						held[i] = n;
						path[i] = name(n);
						files[i].reset(new File(name(n), "wb"));
						++opened;
					};
					auto release = [&](int i) {
						if (held[i] >= 0) {
							--opened;
						}
						held[i] = -1;
					};
					auto compare = [&](char const* after) {
						for (int i = 0; i < slots; ++i) {
							if (files[i]) {
								MC_CHECK(bool(*files[i]) == (held[i] >= 0), "after %s, a File says that it is %s", after, *files[i] ? "open" : "not open");
								MC_CHECK(held[i] < 0 || files[i]->path() == path[i], "after %s, a File has path %s", after, files[i]->path().string().c_str());
							}
						}
						MC_CHECK(open_files() - base == opened, "after %s, %d files are open rather than %d", after, open_files() - base, opened);
					};
					char const* names[] = { "opening", "closing", "destroying", "move construction", "move assignment", "taking", "writing" };
					open(0);
					open(1);
					for (auto k: sequence) {
						auto const& o = ops[k];
						mc::transition();
						switch (o.kind) {
						case 0:
							open(o.i);
							break;
						case 1:
							release(o.i);
							files[o.i]->close();
							break;
						case 2:
							release(o.i);
							files[o.i].reset();
							break;
						case 3:
							held[o.j] = held[o.i];
							path[o.j] = path[o.i];
							held[o.i] = -1;
							files[o.j].reset(new File(std::move(*files[o.i])));
							break;
						case 4:
							if (o.i != o.j) {
								release(o.j);
								held[o.j] = held[o.i];
								path[o.j] = path[o.i];
								held[o.i] = -1;
							}
							*files[o.j] = std::move(*files[o.i]);
							break;
						case 5:
						{
							auto f = files[o.i]->take();
							MC_CHECK(bool(f) == (held[o.i] >= 0), "taking from a File gave %s", f ? "a FILE" : "nothing");
							if (f) {
								fputs("t", f);
								want[held[o.i]] += "t";
								taken.push_back(f);
								held[o.i] = -1;
							}
							break;
						}
						case 6:
							if (held[o.i] >= 0) {
								string const c(1, 'a' + o.i);
								MC_CHECK(files[o.i]->write(c.data(), 1, 1) == 1, "writing failed");
								want[held[o.i]] += c;
							} else {
								bool refused = false;
								try {
									files[o.i]->write("x", 1, 1);
								} catch (std::exception&) {
									refused = true;
								}
								MC_CHECK(refused, "writing to a File that is not open was not refused");
							}
							break;
						}
						compare(names[o.kind]);
					}
					string st;
					for (int i = 0; i < slots; ++i) {
						st += mc::format("%d,", held[i]);
					}
					for (int i = 0; i < slots; ++i) {
						release(i);
						files[i].reset();
						compare("destroying");
					}
					for (auto f: taken) {
						MC_CHECK(fputs("u", f) >= 0 && fflush(f) == 0, "a FILE that was taken is not usable any more");
						fclose(f);
						--opened;
					}
					compare("closing those taken");
					string all;
					for (size_t i = 0; i < want.size(); ++i) {
						auto got = contents(name(i));
						/* the u that was added at the end */
						if (!got.empty() && got.back() == 'u') {
							got.resize(got.length() - 1);
						}
						MC_CHECK(got == want[i], "file %d contains '%s' rather than '%s'", int(i), got.c_str(), want[i].c_str());
						unlink(name(i).c_str());
						all += want[i] + "|";
					}
					mc::trace();
					mc::state("own" + st + all);
					mc::outcome(all);
					if (mc::want_sample("ownership")) {
						mc::sample("ownership", key + " -> " + all);
					}
				});
			}
		}
	}

	/* Operations on a File that has been closed are refused */
	if (mc::mine(unit++)) {
		for (int o = 0; o < OPS; ++o) {
			if (!mc::at("closed", { o })) {
				continue;
			}
			put(A, "0123456789");
			File f(A, "r+b");
			f.close();
			char x[16];
			bool refused = false;
			try {
				switch (o) {
				case WRITE: f.write("a", 1, 1); break;
				case READ: f.read(x, 1, 1); break;
				case EOF_: f.eof(); break;
				case SEEK_HERE: f.seek(0, SEEK_CUR); break;
				case GETS: f.gets(x, 4); break;
				case PUTS: f.puts("a"); break;
				case SEEK_SET3: case SEEK_BACK: case SEEK_END_: f.seek(0, SEEK_SET); break;
				case TELL: f.tell(); break;
				case ERROR_: f.error(); break;
				case CHECKED_WRITE: f.checked_write("a", 1); break;
				case CHECKED_READ: f.checked_read(x, 1); break;
				}
			} catch (std::exception&) {
				refused = true;
			}
			mc::trace();
			MC_CHECK(refused, "%s on a closed File was not refused", names[o]);
			MC_CHECK(contents(A) == "0123456789", "%s on a closed File changed it", names[o]);
		}
		/* Large offsets */
		for (int64_t offset: { (int64_t(1) << 31) - 1, int64_t(1) << 31, (int64_t(1) << 32) + 5, int64_t(1) << 33 }) {
			if (!mc::at("offset", { offset })) {
				continue;
			}
			{
				File f(A, "w+b");
				MC_CHECK(f.seek(offset, SEEK_SET) == 0 && f.tell() == offset, "seek to %lld leads to %lld", (long long) offset, (long long) f.tell());
				f.checked_write("z", 1);
				MC_CHECK(f.tell() == offset + 1, "after seek and write, at %lld", (long long) f.tell());
				MC_CHECK(f.seek(-1, SEEK_END) == 0 && f.tell() == offset, "seek from end leads to %lld", (long long) f.tell());
				char c = 0;
				f.checked_read(&c, 1);
				MC_CHECK(c == 'z', "read from %lld gives something else", (long long) offset);
			}
			struct stat s;
			stat(A.c_str(), &s);
			MC_CHECK(s.st_size == offset + 1, "the file has length %lld", (long long) s.st_size);
			mc::trace();
			unlink(A.c_str());
		}
		/* A full disk is reported */
		for (size_t n: { 1, 100, 4096, 8192, 100000 }) {
			if (!mc::at("full", { int64_t(n) })) {
				continue;
			}
			string const d(n, 'x');
			bool refused = false;
			{
				File f("/dev/full", "wb");
				if (f) {
					setvbuf(f.get(), nullptr, _IONBF, 0);
					try {
						f.checked_write(d.data(), n);
					} catch (dcp::FileError&) {
						refused = true;
					}
					MC_CHECK(refused, "a write of %d bytes to a full disk was not reported", int(n));
				}
			}
			mc::trace();
		}
	}
	mc::finish();
}
