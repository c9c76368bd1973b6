/* C32: what is said of codestreams and texts by themselves, and of the notes themselves: their order, their words and reports of them. */

#include "mc.h"
#include "assets.h"
#include "cpl.h"
#include "dcp.h"
#include "html_formatter.h"
#include "pdf_formatter.h"
#include "smpte_text_asset.h"
#include "text_formatter.h"
#include "text_string.h"
#include "verify.h"
#include "verify_internal.h"
#include "verify_j2k.h"
#include "verify_report.h"
#include <libxml++/libxml++.h>
#include <algorithm>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <sstream>

using std::function;
using std::make_shared;
using std::map;
using std::pair;
using std::set;
using std::shared_ptr;
using std::string;
using std::vector;
using boost::optional;
namespace fs = boost::filesystem;

typedef dcp::VerificationNote Note;
typedef dcp::VerificationNote::Code Code;
typedef dcp::VerificationNote::Type Type;

static uint64_t unit = 0;

/** @return true if this case, of a family with this name, should be looked at */
static bool at(string family, vector<int> const& numbers)
{
	for (auto i: numbers) {
		family += mc::format(" %d", i);
	}
	return mc::at(family);
}

/*
 * Codestreams
 */

struct Field
{
	string name;
	int width;
	int64_t value;
};

struct Segment
{
	string name;
	vector<Field> fields;
	/** what comes after the fields */
	string rest;
};

typedef vector<Segment> Codestream;

static int marker(string const& name)
{
	static map<string, int> const markers = {
		{ "SOC", 0x4f }, { "SIZ", 0x51 }, { "COD", 0x52 }, { "COC", 0x53 }, { "TLM", 0x55 }, { "QCD", 0x5c }, { "QCC", 0x5d },
		{ "POC", 0x5f }, { "COM", 0x64 }, { "SOT", 0x90 }, { "SOD", 0x93 }, { "EOC", 0xd9 },
	};
	auto i = markers.find(name);
	return i == markers.end() ? int(strtol(name.c_str(), nullptr, 16)) : i->second;
}

static Segment segment(string const& name, bool fourk, int index = 0)
{
	Segment s;
	s.name = name;
	auto& f = s.fields;
	int const levels = fourk ? 6 : 5;
	if (name == "SIZ") {
		f = {
			{ "length", 2, 47 }, { "rsiz", 2, fourk ? 4 : 3 }, { "width", 4, fourk ? 3996 : 1998 }, { "height", 4, fourk ? 2160 : 1080 }, { "x", 4, 0 }, { "y", 4, 0 },
			{ "tile width", 4, fourk ? 3996 : 1998 }, { "tile height", 4, fourk ? 2160 : 1080 }, { "tile x", 4, 0 }, { "tile y", 4, 0 }, { "components", 2, 3 },
		};
		for (int i = 0; i < 3; ++i) {
			f.push_back({ mc::format("depth %d", i), 1, 11 });
			f.push_back({ mc::format("horizontal %d", i), 1, 1 });
			f.push_back({ mc::format("vertical %d", i), 1, 1 });
		}
	} else if (name == "COD" || name == "COC") {
		if (name == "COD") {
			f = { { "length", 2, 13 + levels }, { "style", 1, 1 }, { "order", 1, 4 }, { "layers", 2, 1 }, { "transform", 1, 1 } };
		} else {
			f = { { "length", 2, 10 + levels }, { "component", 1, index }, { "style", 1, 1 } };
		}
		f.push_back({ "levels", 1, levels });
		f.push_back({ "block width", 1, 3 });
		f.push_back({ "block height", 1, 3 });
		f.push_back({ "mode", 1, 0 });
		f.push_back({ "wavelet", 1, 0 });
		for (int i = 0; i <= levels; ++i) {
			f.push_back({ mc::format("precinct %d", i), 1, i ? 0x88 : 0x77 });
		}
	} else if (name == "QCD") {
		s.rest = string(2 * (3 * levels + 1), 0x48);
		f = { { "length", 2, 3 + int(s.rest.size()) }, { "guard", 1, fourk ? 0x42 : 0x22 } };
	} else if (name == "QCC") {
		s.rest = string(2 * (3 * levels + 1), 0x48);
		f = { { "length", 2, 4 + int(s.rest.size()) }, { "component", 1, 1 }, { "guard", 1, 0x22 } };
	} else if (name == "TLM") {
		s.rest = string("\x00\x50\x00\x00\x01\x00", 6);
		f = { { "length", 2, 2 + int(s.rest.size()) } };
	} else if (name == "COM") {
		s.rest = string("\x00\x01hello", 7);
		f = { { "length", 2, 2 + int(s.rest.size()) } };
	} else if (name == "POC") {
		f = {
			{ "length", 2, 16 }, { "rs 0", 1, 0 }, { "cs 0", 1, 0 }, { "lye 0", 2, 1 }, { "re 0", 1, 6 }, { "ce 0", 1, 3 }, { "p 0", 1, 4 },
			{ "rs 1", 1, 6 }, { "cs 1", 1, 0 }, { "lye 1", 2, 1 }, { "re 1", 1, 7 }, { "ce 1", 1, 3 }, { "p 1", 1, 4 },
		};
	} else if (name == "SOT") {
		f = { { "length", 2, 10 }, { "tile", 2, 0 }, { "size", 4, 100 }, { "index", 1, index }, { "parts", 1, fourk ? 6 : 3 } };
	} else if (name == "SOD") {
		s.rest = "\x12\xff\x8f\x34";
	}
	return s;
}

static Codestream good(bool fourk)
{
	Codestream s = { segment("SOC", fourk), segment("SIZ", fourk), segment("COD", fourk), segment("QCD", fourk) };
	if (fourk) {
		s.push_back(segment("POC", fourk));
	}
	s.push_back(segment("TLM", fourk));
	s.push_back(segment("COM", fourk));
	for (int i = 0; i < (fourk ? 6 : 3); ++i) {
		s.push_back(segment("SOT", fourk, i));
		s.push_back(segment("SOD", fourk));
	}
	s.push_back(segment("EOC", fourk));
	return s;
}

static string bytes(Codestream const& codestream)
{
	string s;
	for (auto const& i: codestream) {
		s += '\xff';
		s += char(marker(i.name));
		for (auto const& f: i.fields) {
			for (int b = f.width - 1; b >= 0; --b) {
				s += char(f.value >> (8 * b));
			}
		}
		s += i.rest;
	}
	return s;
}

static string say(Note const& n)
{
	auto number = [](string name, optional<int> v) { return v ? mc::format(" %s %d", name.c_str(), *v) : string(); };
	string s = mc::format("%d", int(n.code()));
	s += number("capabilities", n.capabilities()) + number("parts", n.tile_parts()) + number("guard", n.guard_bits()) + number("width", n.code_block_width()) + number("height", n.code_block_height());
	s += number("POC", n.poc_marker()) + number("POCs", n.poc_markers()) + number("component", n.component()) + number("frame", n.frame());
	if (n.size_in_bytes()) {
		s += mc::format(" bytes %llu", (unsigned long long) *n.size_in_bytes());
	}
	if (n.frame_rate()) {
		s += " at " + n.frame_rate()->as_string();
	}
	return s;
}

/** @return what should be said about a codestream whose lengths are right */
static vector<string> expected(Codestream const& codestream, int start, int frame, int rate)
{
	vector<string> out;
	auto note = [&](Note const& n) { out.push_back(say(n)); };
	bool fourk = false;
	map<string, int> count;
	int poc_in_main = 0, poc_after = 0;
	bool in_main = true;
	bool data = false;
	struct Invalid {};
	try {
		for (int i = 0; i < int(codestream.size()); ++i) {
			auto const& s = codestream[i];
			/* Anything after SOD is data until there is a marker which data cannot have */
			if (i > 1 && data && marker(s.name) < 0x90) {
				continue;
			}
			data = s.name == "SOD";
			map<string, int64_t> v;
			for (auto const& f: s.fields) {
				v[f.name] = f.value & ((1LL << (8 * f.width)) - 1);
			}
			auto require = [&](string name, int64_t value) {
				if (v[name] != value) {
					throw Invalid();
				}
			};
			if ((i == 0) != (s.name == "SOC") || (i == 1) != (s.name == "SIZ")) {
				throw Invalid();
			}
			++count[s.name];
			if (s.name == "SIZ") {
				require("length", 47);
				fourk = v["width"] > 2048;
				if (v["rsiz"] != (fourk ? 4 : 3)) {
					note(Note(fourk ? Code::INVALID_JPEG2000_RSIZ_FOR_4K : Code::INVALID_JPEG2000_RSIZ_FOR_2K).set_capabilities(v["rsiz"]));
				}
				require("x", 0);
				require("y", 0);
				if (v["tile width"] != v["width"] || v["tile height"] != v["height"]) {
					note(Note(Code::INVALID_JPEG2000_TILE_SIZE));
				}
				require("tile x", 0);
				require("tile y", 0);
				require("components", 3);
				for (int c = 0; c < 3; ++c) {
					require(mc::format("depth %d", c), 11);
					require(mc::format("horizontal %d", c), 1);
					require(mc::format("vertical %d", c), 1);
				}
			} else if (s.name == "COD" || s.name == "COC") {
				if (s.name == "COD") {
					require("style", 1);
					require("order", 4);
					require("layers", 1);
					require("transform", 1);
				} else {
					if (v["component"] > 2) {
						throw Invalid();
					}
					require("style", 1);
				}
				require("levels", fourk ? 6 : 5);
				for (int d = 0; d < 2; ++d) {
					auto const size = v[d ? "block height" : "block width"];
					if (size != 3) {
						if (s.name == "COC" || size > 8) {
							throw Invalid();
						}
						Note n(d ? Code::INVALID_JPEG2000_CODE_BLOCK_HEIGHT : Code::INVALID_JPEG2000_CODE_BLOCK_WIDTH);
						note(d ? n.set_code_block_height(4 << size) : n.set_code_block_width(4 << size));
					}
				}
				require("mode", 0);
				require("wavelet", 0);
				for (int l = 0; l <= (fourk ? 6 : 5); ++l) {
					require(mc::format("precinct %d", l), l ? 0x88 : 0x77);
				}
			} else if (s.name == "QCD") {
				int const guard = v["guard"] >> 5;
				if (guard != (fourk ? 2 : 1)) {
					note(Note(fourk ? Code::INVALID_JPEG2000_GUARD_BITS_FOR_4K : Code::INVALID_JPEG2000_GUARD_BITS_FOR_2K).set_guard_bits(guard));
				}
			} else if (s.name == "POC") {
				++(in_main ? poc_in_main : poc_after);
				auto const right = segment("POC", true);
				for (auto const& f: right.fields) {
					if (v[f.name] != f.value) {
						note(Note(Code::INCORRECT_JPEG2000_POC_MARKER).set_poc_marker(v[f.name]));
					}
				}
			} else if (s.name == "SOT") {
				in_main = false;
				require("length", 10);
				int const parts = v["parts"];
				if (parts != (fourk ? 6 : 3)) {
					note(Note(fourk ? Code::INVALID_JPEG2000_TILE_PARTS_FOR_4K : Code::INVALID_JPEG2000_TILE_PARTS_FOR_2K).set_tile_parts(parts));
				}
				/* 200Mbit/s for each component */
				if (v["size"] * 8 * rate > 200000000) {
					note(Note(Code::INVALID_JPEG2000_TILE_PART_SIZE).set_frame(start + frame).set_frame_rate(dcp::Fraction(rate, 1)).set_component(v["index"]).set_size_in_bytes(v["size"]));
				}
			} else if (s.name.size() == 2) {
				/* An unknown marker */
				throw Invalid();
			}
		}
		if (count["COD"] != 1 || count["QCD"] != 1) {
			throw Invalid();
		}
		if (poc_in_main != (fourk ? 1 : 0)) {
			note(Note(fourk ? Code::INCORRECT_JPEG2000_POC_MARKER_COUNT_FOR_4K : Code::INCORRECT_JPEG2000_POC_MARKER_COUNT_FOR_2K).set_poc_markers(poc_in_main));
		}
		if (poc_after) {
			note(Note(Code::INVALID_JPEG2000_POC_MARKER_LOCATION));
		}
		if (!count["TLM"]) {
			note(Note(Code::MISSING_JPEG2000_TLM_MARKER));
		}
	} catch (Invalid&) {
		note(Note(Code::INVALID_JPEG2000_CODESTREAM).set_frame(start + frame).set_frame_rate(dcp::Fraction(rate, 1)));
	}
	std::sort(out.begin(), out.end());
	return out;
}

static vector<Note> run(string const& data, int start = 0, int frame = 0, int rate = 24)
{
	vector<Note> notes;
	dcp::verify_j2k(make_shared<dcp::ArrayData>(reinterpret_cast<uint8_t const*>(data.data()), int(data.size())), start, frame, rate, notes);
	mc::transition();
	return notes;
}

static bool invalid(vector<Note> const& notes)
{
	return std::any_of(notes.begin(), notes.end(), [](Note const& n) { return n.code() == Code::INVALID_JPEG2000_CODESTREAM; });
}

static void check(Codestream const& codestream, int start = 0, int frame = 0, int rate = 24)
{
	vector<string> got;
	for (auto const& n: run(bytes(codestream), start, frame, rate)) {
		got.push_back(say(n));
		MC_CHECK(n.code() != Code::INVALID_JPEG2000_CODESTREAM || (n.error() && !n.error()->empty() && n.error()->find("%1") == string::npos), "the error is '%s'", n.error().get_value_or("").c_str());
		MC_CHECK(!n.poc_marker() || (n.error() && n.error()->find(mc::format("%d", *n.poc_marker())) != string::npos), "the error with a wrong value %d in a POC marker is '%s'", *n.poc_marker(), n.error().get_value_or("").c_str());
	}
	std::sort(got.begin(), got.end());
	auto const want = expected(codestream, start, frame, rate);
	mc::trace();
	string g, w;
	for (auto const& i: got) {
		g += i + "; ";
	}
	for (auto const& i: want) {
		w += i + "; ";
	}
	mc::outcome(g);
	MC_CHECK(got == want, "the codes and particulars are %s and should be %s", g.c_str(), w.c_str());
	mc::state(w);
}

static void codestreams()
{
	struct Change
	{
		string name;
		function<void (Codestream&)> make;
		int segment;
		int field;
		bool pairs;
	};

	for (int fourk = 0; fourk < 2; ++fourk) {
		auto const base = good(fourk);
		auto const what = fourk ? "4K" : "2K";

		/* Many values of every field, and some of every two */
		vector<Change> changes;
		for (int i = 0; i < int(base.size()); ++i) {
			for (int j = 0; j < int(base[i].fields.size()); ++j) {
				auto const& f = base[i].fields[j];
				/* Whether the lengths of others are right is not looked at, or is looked at below */
				bool const length = f.name == "length" && base[i].name != "SIZ" && base[i].name != "SOT" && base[i].name != "POC";
				if (length) {
					continue;
				}
				set<int64_t> values = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 31, 32, 47, 0x22, 0x42, 0x62, 0x77, 0x87, 0x88, 127, 128, 255, f.value - 1, f.value + 1, f.value * 2 };
				if (f.width > 1) {
					values.insert({ 256, 1998, 2047, 2048, 2049, 3996, 4096, 65535 });
				}
				if (f.width > 2) {
					values.insert({ 65536, 1000000, 1041666, 1041667, 0x7fffffff, 0x80000000LL, 0xffffffffLL });
				}
				if (f.width == 1 && mc::thorough()) {
					for (int v = 0; v < 256; ++v) {
						values.insert(v);
					}
				}
				for (auto v: values) {
					auto const limited = v & ((1LL << (8 * f.width)) - 1);
					if (limited != v || v == f.value) {
						continue;
					}
					/* A change of size changes which tables there should be */
					if (f.name == "width" && (v > 2048) != bool(fourk)) {
						continue;
					}
					changes.push_back({ mc::format("%s %d %s %lld", base[i].name.c_str(), i, f.name.c_str(), (long long) v), [i, j, v](Codestream& c) { c[i].fields[j].value = v; }, i, j, mc::thorough() || v == 0 || v == 255 || v == f.value - 1 || v == f.value + 1 });
				}
			}
		}
		for (int i = 0; i < int(changes.size()); ++i) {
			if (!mc::mine(unit++)) {
				continue;
			}
			auto one = base;
			changes[i].make(one);
			if (mc::at(mc::format("%s: %s", what, changes[i].name.c_str()))) {
				check(one);
			}
			for (int j = i + 1; j < int(changes.size()); ++j) {
				if (!changes[i].pairs || !changes[j].pairs || (changes[i].segment == changes[j].segment && changes[i].field == changes[j].field)) {
					continue;
				}
				if (!mc::at(mc::format("%s: %s and %s", what, changes[i].name.c_str(), changes[j].name.c_str()))) {
					continue;
				}
				auto two = one;
				changes[j].make(two);
				check(two);
			}
		}
		/* All sequences of segments */
		vector<string> const names = { "COD", "QCD", "POC", "TLM", "COM", "QCC", "COC", "SOT", "SOD", "SIZ", "63" };
		mc::sequences_to(names.size(), mc::thorough() ? 6 : 5, [&](vector<int> const& sequence) {
			if (!mc::mine(unit++)) {
				return;
			}
			string key = what + string(" with");
			for (auto i: sequence) {
				key += " " + names[i];
			}
			if (!mc::at(key)) {
				return;
			}
			Codestream c = { segment("SOC", fourk), segment("SIZ", fourk) };
			int sots = 0;
			for (auto i: sequence) {
				c.push_back(segment(names[i], fourk, names[i] == "SOT" ? sots++ : 0));
			}
			c.push_back(segment("EOC", fourk));
			check(c);
		});
		/* A first or second segment which is something else */
		for (int place = 0; place < 2; ++place) {
			for (auto const& name: names) {
				if (!mc::mine(unit++) || !mc::at(mc::format("%s with %s in place %d", what, name.c_str(), place))) {
					continue;
				}
				auto c = base;
				if (c[place].name != name) {
					c[place] = segment(name, fourk);
					check(c);
				}
			}
		}

		/* COC in every place in the main header, for every component, with every change */
		for (int component = 0; component < 5; ++component) {
			for (int place = 2; place < 6; ++place) {
				auto const coc = segment("COC", fourk, component);
				for (int f = 1; f < int(coc.fields.size()); ++f) {
					for (int delta = -1; delta < 2; ++delta) {
						if (!mc::mine(unit++) || !at(mc::format("%s with COC", what), {component, place, f, delta})) {
							continue;
						}
						auto changed = coc;
						changed.fields[f].value += delta;
						auto c = base;
						c.insert(c.begin() + place, changed);
						check(c);
					}
				}
			}
		}

		/* Every marker */
		for (int m = 0; m < 256; ++m) {
			if (!mc::mine(unit++) || !at(mc::format("%s with marker", what), {m})) {
				continue;
			}
			bool known = false;
			for (auto n: { "SOC", "SIZ", "COD", "COC", "TLM", "QCD", "QCC", "POC", "COM", "SOT", "SOD", "EOC" }) {
				known = known || marker(n) == m;
			}
			if (!known) {
				auto c = base;
				for (auto& s: c) {
					if (s.name == "COM") {
						s.name = mc::format("%02x", m);
					}
				}
				check(c);
			}
		}

		/* Where a frame is, and how large its parts may be */
		for (auto start: { 0, 1, 100 }) {
			for (auto frame: { 0, 7 }) {
				for (auto rate: { 24, 25, 30, 48, 50, 60, 96, 100, 120 }) {
					for (auto over: { -1, 0, 1, 1000000 }) {
						for (int part = 0; part < (fourk ? 6 : 3); ++part) {
							for (int broken = 0; broken < 2; ++broken) {
								if (!mc::mine(unit++) || !at(mc::format("%s frame", what), {start, frame, rate, over, part, broken})) {
									continue;
								}
								auto c = base;
								int n = 0;
								for (auto& s: c) {
									if (s.name == "SOT" && n++ == part) {
										s.fields[2].value = 200000000 / (8 * rate) + over;
									}
								}
								if (broken) {
									c.insert(c.begin() + 2, segment("SIZ", fourk));
								}
								check(c, start, frame, rate);
							}
						}
					}
				}
			}
		}

		/* Lengths which go past the end, or back */
		for (auto name: { "QCD", "TLM", "COM", "QCC" }) {
			for (int last = 0; last < 2; ++last) {
				for (auto length: { 0, 1, 2, 3, 1000, 32767, 32768, 65534, 65535 }) {
					for (int back = 0; back < 3; ++back) {
						if (!mc::mine(unit++) || !at(mc::format("%s length of %s", what, name), {last, length, back})) {
							continue;
						}
						auto c = base;
						c.erase(std::remove_if(c.begin(), c.end(), [&](Segment const& s) { return s.name == name; }), c.end());
						c.insert(last ? c.end() : c.begin() + 2, segment(name, fourk));
						auto const before = bytes(Codestream(c.begin(), last ? c.end() - 1 : c.begin() + 2)).size();
						auto const all = bytes(c).size();
						/* How many bytes there are from the length on */
						int const left = all - before - 2;
						int const minimum = string(name) == "QCD" ? 3 : 2;
						int const l = back ? left + back - 1 : length;
						for (auto& s: c) {
							if (s.name == name) {
								s.fields[0].value = l;
							}
						}
						auto const notes = run(bytes(c));
						mc::trace();
						if (l < minimum || l > left) {
							MC_CHECK(invalid(notes), "a %s of length %d, when there are %d bytes, is not said to be invalid", name, l, left);
						}
					}
				}
			}
		}

		/* Every length of file */
		{
			auto const all = bytes(base);
			set<int> ends;
			int sot = 0;
			for (int i = 1; i <= int(base.size()); ++i) {
				ends.insert(bytes(Codestream(base.begin(), base.begin() + i)).size());
				if (base[i - 1].name == "QCD") {
					sot = bytes(Codestream(base.begin(), base.begin() + i)).size();
				}
			}
			for (int length = 0; length < int(all.size()); ++length) {
				if (!mc::mine(unit++) || !at(mc::format("%s cut to", what), {length})) {
					continue;
				}
				auto const notes = run(all.substr(0, length));
				mc::trace();
				bool const in_data = length > sot && all.substr(0, length).rfind("\xff\x93") > all.substr(0, length).rfind("\xff\x90") && all.substr(0, length).rfind("\xff\x93") != string::npos;
				if (length < sot || (!ends.count(length) && !in_data)) {
					MC_CHECK(invalid(notes), "a codestream cut to %d bytes is not said to be invalid", length);
				}
			}
			/* Every value of every byte; it is only the lack of a crash which is judged */
			for (int i = 0; i < int(all.size()); ++i) {
				if (!mc::mine(unit++) || !at(mc::format("%s byte", what), {i})) {
					continue;
				}
				for (int v = 0; v < 256; ++v) {
					auto changed = all;
					changed[i] = v;
					run(changed);
					run(changed.substr(0, i + 1));
				}
				mc::trace();
			}
		}
	}
}

/*
 * Texts
 */

struct Text
{
	int in;
	int out;
	/** percent from the top */
	int position;
	int characters;
};

static void check(vector<Text> const& texts, int warning, int error)
{
	auto asset = make_shared<dcp::SMPTETextAsset>();
	int n = 0;
	for (auto const& t: texts) {
		/* Use each way to say the same thing */
		auto const align = n % 3 == 0 ? dcp::VAlign::TOP : n % 3 == 1 ? dcp::VAlign::BOTTOM : dcp::VAlign::CENTER;
		auto const position = n % 3 == 0 ? t.position / 100.0f : n % 3 == 1 ? 1 - t.position / 100.0f : t.position / 100.0f - 0.5f;
		string words;
		for (int i = 0; i < t.characters; ++i) {
			words += n % 2 ? "\xc3\xa9" : "x";
		}
		asset->add(make_shared<dcp::TextString>(
			optional<string>(), false, false, false, dcp::Colour(255, 255, 255), 42, 1.0, dcp::Time(t.in, 24, 24), dcp::Time(t.out, 24, 24), 0, dcp::HAlign::CENTER, position, align,
			0, vector<dcp::Text::VariableZPosition>(), dcp::Direction::LTR, words, dcp::Effect::NONE, dcp::Colour(0, 0, 0), dcp::Time(), dcp::Time(), 0, vector<dcp::Ruby>()));
		++n;
	}
	dcp::LinesCharactersResult got;
	dcp::verify_text_lines_and_characters(asset, warning, error, &got);
	bool warn = false, err = false, lines = false;
	for (int t = 0; t < 8; ++t) {
		map<int, int> at;
		for (auto const& i: texts) {
			if (i.in <= t && t < i.out) {
				at[i.position] += i.characters;
			}
		}
		lines = lines || at.size() > 3;
		for (auto const& i: at) {
			warn = warn || i.second > warning;
			err = err || i.second > error;
		}
	}
	mc::transition();
	mc::trace();
	mc::state(mc::format("%d %d %d", warn, err, lines));
	MC_CHECK(got.line_count_exceeded == lines, "too many lines is said to be %d", got.line_count_exceeded);
	MC_CHECK(got.warning_length_exceeded == warn, "a line nearly too long is said to be %d", got.warning_length_exceeded);
	MC_CHECK(got.error_length_exceeded == err, "a line too long is said to be %d", got.error_length_exceeded);
}

static void texts()
{
	auto all = [](string name, vector<Text> const& kinds, int most, int warning, int error) {
		vector<int> sequence;
		function<void ()> next = [&]() {
			if (!sequence.empty() && mc::mine(unit++) && at(name, sequence)) {
				vector<Text> t;
				for (auto i: sequence) {
					t.push_back(kinds[i]);
				}
				check(t, warning, error);
				std::reverse(t.begin(), t.end());
				check(t, warning, error);
			}
			if (int(sequence.size()) < most) {
				for (int i = sequence.empty() ? 0 : sequence.back(); i < int(kinds.size()); ++i) {
					sequence.push_back(i);
					next();
					sequence.pop_back();
				}
			}
		};
		next();
	};
	vector<pair<int, int>> const times = { { 0, 1 }, { 0, 2 }, { 1, 2 }, { 1, 3 }, { 2, 3 }, { 0, 3 }, { 1, 1 }, { 2, 1 } };
	vector<Text> kinds;
	for (auto t: times) {
		for (auto position: { 60, 80 }) {
			for (auto characters: { 20, 32, 33 }) {
				kinds.push_back({ t.first, t.second, position, characters });
			}
		}
	}
	all("lengths", kinds, 3, 52, 64);
	all("captions", kinds, mc::thorough() ? 3 : 2, 32, 32);
	kinds.clear();
	for (auto t: times) {
		for (auto position: { 20, 50, 79, 80, 100 }) {
			kinds.push_back({ t.first, t.second, position, 1 });
		}
	}
	all("lines", kinds, 4, 52, 79);
	kinds.clear();
	for (int c = 0; c < 90; ++c) {
		kinds.push_back({ 0, 1, 80, c });
	}
	all("one", kinds, 2, 52, 79);
}

/*
 * Notes
 */

struct Kind
{
	Code code;
	char const* name;
	Type type;
	/** things which its words must have */
	char const* parts;
};

#define K(type, name, parts) { Code::name, #name, Type::type, parts }
static vector<Kind> const kinds = {
#include "c32_kinds.h"
};
#undef K

/** Everything which a note can have.  One character for each, and a function to set it to one of two values. */
struct Part
{
	char key;
	function<void (Note&, int)> set;
	/** how it appears in words */
	function<string (int)> words;
};

static vector<Part> parts()
{
	vector<Part> p;
	auto text = [&](char key, string name, Note& (Note::*set)(string)) {
		p.push_back({ key, [set, name](Note& n, int v) { (n.*set)(mc::format("%s-%d", name.c_str(), v)); }, [name](int v) { return mc::format("%s-%d", name.c_str(), v); } });
	};
	auto number = [&](char key, int base, Note& (Note::*set)(int)) {
		p.push_back({ key, [set, base](Note& n, int v) { (n.*set)(base + v); }, [base](int v) { return mc::format("%d", base + v); } });
	};
	text('a', "asset", &Note::set_asset_id);
	text('O', "other", &Note::set_other_asset_id);
	text('c', "cpl", &Note::set_cpl_id);
	text('p', "pkl", &Note::set_pkl_id);
	text('m', "map", &Note::set_asset_map_id);
	text('h', "calculated", &Note::set_calculated_hash);
	text('H', "reference", &Note::set_reference_hash);
	text('l', "font", &Note::set_load_font_id);
	text('e', "error", &Note::set_error);
	text('L', "language", &Note::set_language);
	text('T', "territory", &Note::set_territory);
	text('n', "annotation", &Note::set_annotation_text);
	text('k', "kind", &Note::set_content_kind);
	text('i', "date", &Note::set_issue_date);
	text('v', "version", &Note::set_content_version);
	text('x', "namespace", &Note::set_xml_namespace);
	number('F', 131, &Note::set_frame);
	number('q', 231, &Note::set_component);
	number('r', 331, &Note::set_reel_index);
	number('B', 431, &Note::set_bit_depth);
	number('g', 531, &Note::set_guard_bits);
	number('w', 631, &Note::set_code_block_width);
	number('y', 731, &Note::set_code_block_height);
	number('M', 831, &Note::set_poc_marker);
	number('P', 931, &Note::set_poc_markers);
	number('t', 1131, &Note::set_tile_parts);
	number('C', 1231, &Note::set_capabilities);
	p.push_back({ 'b', [](Note& n, int v) { n.set_size_in_bytes(1331 + v); }, [](int v) { return mc::format("%d", 1331 + v); } });
	p.push_back({ 'd', [](Note& n, int v) { n.set_duration(1431 + v); }, [](int v) { return mc::format("%d", 1431 + v); } });
	p.push_back({ 'o', [](Note& n, int v) { n.set_other_duration(1531 + v); }, [](int v) { return mc::format("%d", 1531 + v); } });
	p.push_back({ 'R', [](Note& n, int v) { n.set_frame_rate(dcp::Fraction(48, 1 + v)); }, [](int v) { return mc::format("48/%d", 1 + v); } });
	p.push_back({ 'S', [](Note& n, int v) { n.set_size_in_pixels(dcp::Size(1631 + v / 2, 1731 + v % 2)); }, [](int v) { return mc::format("%dx%d", 1631 + v / 2, 1731 + v % 2); } });
	p.push_back({ 'A', [](Note& n, int v) { n.set_main_picture_active_area(dcp::Size(1831 + v / 2, 1931 + v % 2)); }, [](int v) { return mc::format("%d", 1831 + v / 2); } });
	p.push_back({ 'z', [](Note& n, int v) { n.set_time(dcp::Time(0, 0, 11 + v, 3, 24)); }, [](int v) { return mc::format("00:00:%d:03", 11 + v); } });
	return p;
}

typedef Note& (Note::*SetText)(string);

static vector<SetText> texts_of_notes()
{
	return {
		&Note::set_asset_id, &Note::set_other_asset_id, &Note::set_cpl_id, &Note::set_pkl_id, &Note::set_asset_map_id, &Note::set_calculated_hash, &Note::set_reference_hash, &Note::set_load_font_id,
		&Note::set_error, &Note::set_language, &Note::set_territory, &Note::set_annotation_text, &Note::set_content_kind, &Note::set_issue_date, &Note::set_content_version, &Note::set_xml_namespace
	};
}

static Note note(Code code, int file = -1, int line = -1)
{
	if (line >= 0) {
		return Note(code, fs::path("/a") / mc::format("file-%d", file), line);
	} else if (file >= 0) {
		return Note(code, fs::path("/a") / mc::format("file-%d", file));
	}
	return Note(code);
}

static void notes()
{
	auto const all = parts();

	/* What each kind is, and its words */
	for (auto const& k: kinds) {
		for (int v = 0; v < 2; ++v) {
			if (!mc::mine(unit++) || !at(k.name, {v})) {
				continue;
			}
			auto n = note(k.code, v, 2131 + v);
			for (auto const& p: all) {
				p.set(n, v);
			}
			MC_CHECK(n.type() == k.type, "%s is of type %d", k.name, int(n.type()));
			auto const words = dcp::note_to_string(n);
			auto must = [&](string const& w) { MC_CHECK(words.find(w) != string::npos, "%s is not in '%s'", w.c_str(), words.c_str()); };
			for (auto c: string(k.parts)) {
				if (c == 'f') {
					must(mc::format("file-%d", v));
				} else if (c == 'N') {
					must(mc::format("%d", 2131 + v));
				} else {
					for (auto const& p: all) {
						if (p.key == c) {
							must(p.words(v));
						}
					}
				}
			}
			for (int i = 1; i < 10; ++i) {
				MC_CHECK(words.find(mc::format("%%%d", i)) == string::npos, "'%s' lacks something", words.c_str());
			}
			MC_CHECK(words.find(mc::format("-%d", 1 - v)) == string::npos && !words.empty(), "the words are '%s'", words.c_str());
			/* With only what it needs, the words are the same */
			auto least = string(k.parts).find('N') != string::npos ? note(k.code, v, 2131 + v) : string(k.parts).find('f') != string::npos ? note(k.code, v) : note(k.code);
			for (auto const& p: all) {
				if (string(k.parts).find(p.key) != string::npos || (p.key == 'R' && string(k.parts).find('s') != string::npos)) {
					p.set(least, v);
				}
			}
			MC_CHECK(dcp::note_to_string(least) == words, "the words are '%s' and '%s'", dcp::note_to_string(least).c_str(), words.c_str());
			/* Names of files are passed through the function which is given */
			auto const marked = dcp::note_to_string(n, [](string s) { return s; }, [](string s) { return "{" + s + "}"; });
			if (string(k.parts).find('f') != string::npos) {
				MC_CHECK(marked.find(mc::format("{file-%d}", v)) != string::npos, "the words are '%s'", marked.c_str());
			}
			/* All text is, too, no matter where it comes from */
			auto awkward = Note(k.code, fs::path("/a/<&"), 1);
			for (auto const& p: all) {
				p.set(awkward, v);
			}
			for (auto const& t: texts_of_notes()) {
				(awkward.*t)("<&>");
			}
			auto const escaped = dcp::note_to_string(awkward, dcp::HTMLFormatter(mc::scratch() + "/unused").process_string());
			MC_CHECK(escaped.find_first_of("<>") == string::npos, "the words, for HTML, are '%s'", escaped.c_str());
			for (auto i = escaped.find('&'); i != string::npos; i = escaped.find('&', i + 1)) {
				MC_CHECK(escaped.substr(i, 4) == "&lt;" || escaped.substr(i, 4) == "&gt;" || escaped.substr(i, 5) == "&amp;" || escaped.substr(i, 6) == "&quot;" || escaped.substr(i, 2) == "&#", "the words, for HTML, are '%s'", escaped.c_str());
				MC_CHECK(escaped.substr(i, 8) != "&amp;lt;" && escaped.substr(i, 9) != "&amp;amp;", "the words are escaped twice in '%s'", escaped.c_str());
			}
			std::ostringstream stream;
			stream << n;
			MC_CHECK(stream.str().find(words) != string::npos && stream.str().find(mc::format("file-%d", v)) != string::npos && stream.str().find(mc::format("%d", 2131 + v)) != string::npos, "written as '%s'", stream.str().c_str());
			mc::transition();
			mc::trace();
			mc::state(k.name);
		}
	}

	/* Order: every note with up to two parts */
	auto make = [&](int code, vector<pair<int, int>> const& set) {
		int file = -1, line = -1;
		for (auto s: set) {
			if (s.first == int(all.size())) {
				file = s.second;
			} else if (s.first == int(all.size()) + 1) {
				file = std::max(file, 0);
				line = s.second;
			}
		}
		auto n = note(kinds[code].code, file, line);
		for (auto s: set) {
			if (s.first < int(all.size())) {
				all[s.first].set(n, s.second);
			}
		}
		return n;
	};
	int const number = int(all.size()) + 2;
	vector<Note> list;
	set<vector<pair<int, int>>> done;
	vector<vector<pair<int, int>>> sets = { {} };
	for (int i = 0; i < number; ++i) {
		for (int v = 0; v < 3; ++v) {
			sets.push_back({ { i, v } });
		}
		for (int j = i + 1; j < (mc::thorough() ? number : std::min(i + 3, number)); ++j) {
			for (int v = 0; v < 4; ++v) {
				/* A line is always with a file */
				if (i != int(all.size())) {
					sets.push_back({ { i, v % 2 }, { j, v / 2 } });
				}
			}
		}
	}
	for (auto const& s: sets) {
		list.push_back(make(0, s));
	}
	for (int code = 1; code < int(kinds.size()); ++code) {
		list.push_back(make(code, {}));
		list.push_back(make(code, { { code % number, 1 } }));
	}
	if (mc::at("equality")) {
		for (int i = 0; i < int(list.size()); ++i) {
			if (mc::mine(unit++)) {
				for (int j = 0; j < int(list.size()); ++j) {
					MC_CHECK((list[i] == list[j]) == (i == j) && (list[i] != list[j]) == (i != j), "notes %d and %d (of parts %d and %d) are %sequal", i, j, i < int(sets.size()) && !sets[i].empty() ? sets[i][0].first : -1, j < int(sets.size()) && !sets[j].empty() ? sets[j][0].first : -1, list[i] == list[j] ? "" : "not ");
					mc::transition();
				}
				auto copy = list[i];
				MC_CHECK(copy == list[i] && !(copy < list[i]) && !(list[i] < copy), "note %d is not equal to its copy", i);
				mc::trace();
			}
		}
	}
	if (mc::at("order")) {
		/* If each is before the next and all pairs agree, then it is an order */
		vector<int> order;
		for (int i = 0; i < int(list.size()); ++i) {
			order.push_back(i);
		}
		std::stable_sort(order.begin(), order.end(), [&](int a, int b) { return list[a] < list[b]; });
		for (int i = 0; i < int(order.size()); ++i) {
			if (mc::mine(unit++)) {
				for (int j = 0; j < int(order.size()); ++j) {
					MC_CHECK((list[order[i]] < list[order[j]]) == (i < j), "notes %d and %d are not in order", order[i], order[j]);
					mc::transition();
				}
				mc::trace();
			}
		}
	}

	/* Where a note is about */
	vector<pair<Note::Location, int>> const locations = {
		{ Note::Location::ASSET_ID, 'a' }, { Note::Location::ASSET_MAP_ID, 'm' }, { Note::Location::COMPONENT, 'q' }, { Note::Location::CPL_ID, 'c' }, { Note::Location::FRAME, 'F' },
		{ Note::Location::PKL_ID, 'p' }, { Note::Location::REEL_INDEX, 'r' }, { Note::Location::FILE, 0 }, { Note::Location::LINE, 1 }
	};
	for (int which = 0; which < 512; ++which) {
		bool const file = which & 128, line = which & 256;
		if ((line && !file) || !mc::mine(unit++) || !at("locations", {which})) {
			continue;
		}
		auto n = note(Code::FAILED_READ, file ? 3 : -1, line ? 4 : -1);
		n.set_error("x");
		set<Note::Location> want;
		for (int i = 0; i < int(locations.size()); ++i) {
			bool const here = which & (1 << i);
			if (here) {
				want.insert(locations[i].first);
			}
			string words;
			for (auto const& p: all) {
				if (p.key == locations[i].second && here) {
					p.set(n, 5);
					words = p.words(5);
				}
			}
			if (here && i == 7) {
				words = "/a/file-3";
			} else if (here && i == 8) {
				words = "4";
			}
			MC_CHECK(n.location_as_string(locations[i].first) == words, "location %d is '%s' and not '%s'", i, n.location_as_string(locations[i].first).c_str(), words.c_str());
		}
		auto const got = n.locations();
		MC_CHECK(set<Note::Location>(got.begin(), got.end()) == want && got.size() == want.size(), "there are %d locations and should be %d", int(got.size()), int(want.size()));
		mc::transition();
		mc::trace();
	}
}

/*
 * Reports
 */

static string cpl_id(int n)
{
	return mc::format("%08d-1111-4222-8333-444444444444", n);
}

static shared_ptr<dcp::CPL> cpl(int n, vector<int> const& reels, string const& annotation)
{
	string xml = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<CompositionPlaylist xmlns=\"http://www.smpte-ra.org/schemas/429-7/2006/CPL\"><Id>urn:uuid:" + cpl_id(n) + "</Id>";
	if (!annotation.empty()) {
		xml += "<AnnotationText>" + string(Glib::ustring(annotation).find("<") == Glib::ustring::npos ? annotation : "&lt;b&gt; &amp; c") + "</AnnotationText>";
	}
	xml += "<IssueDate>2012-07-17T04:45:18+00:00</IssueDate><Issuer>x</Issuer><Creator>x</Creator><ContentTitleText>x</ContentTitleText><ContentKind>feature</ContentKind>"
		"<ContentVersion><Id>urn:uuid:" + cpl_id(99) + "</Id><LabelText>x</LabelText></ContentVersion><RatingList/><ReelList>";
	int r = 0;
	for (auto which: reels) {
		xml += "<Reel><Id>urn:uuid:" + cpl_id(1000 + r) + "</Id><AssetList>";
		auto common = [&](int asset) {
			return mc::format("<Id>urn:uuid:%s</Id><EditRate>24 1</EditRate><IntrinsicDuration>%d</IntrinsicDuration><EntryPoint>%d</EntryPoint><Duration>%d</Duration>", cpl_id(10000 * n + 100 * r + asset).c_str(), 1101 + r, 1201 + r, 1301 + r);
		};
		if (which & 1) {
			xml += "<MainPicture>" + common(1) + "<FrameRate>24 1</FrameRate><ScreenAspectRatio>1998 1080</ScreenAspectRatio></MainPicture>";
		}
		if (which & 2) {
			xml += "<MainSound>" + common(2) + "</MainSound>";
		}
		if (which & 4) {
			xml += "<MainSubtitle>" + common(3) + "<Language>fr-FR</Language></MainSubtitle>";
		}
		xml += "</AssetList></Reel>";
		++r;
	}
	xml += "</ReelList></CompositionPlaylist>\n";
	auto const file = mc::scratch() + "/cpl.xml";
	assets::put(file, xml);
	return make_shared<dcp::CPL>(file);
}

static int occurrences(string const& in, string const& what)
{
	int n = 0;
	for (auto i = in.find(what); i != string::npos; i = in.find(what, i + what.size())) {
		++n;
	}
	return n;
}

/** @return text of the elements of this name in some HTML, with the class of each if it has one */
static void items(xmlpp::Node const* node, string const& name, vector<string>& out)
{
	if (auto e = dynamic_cast<xmlpp::Element const*>(node)) {
		if (e->get_name() == name) {
			string text;
			function<void (xmlpp::Node const*)> gather = [&](xmlpp::Node const* n) {
				if (auto t = dynamic_cast<xmlpp::ContentNode const*>(n)) {
					text += t->get_content();
				}
				for (auto c: n->get_children()) {
					gather(c);
				}
			};
			gather(e);
			out.push_back(string(e->get_attribute_value("class")) + "|" + text);
		}
	}
	for (auto c: node->get_children()) {
		items(c, name, out);
	}
}

static void reports()
{
	auto const dir = mc::scratch() + "/report";
	fs::create_directories(dir);
	auto const text_file = mc::scratch() + "/report.txt";
	auto const html_file = mc::scratch() + "/report.html";
	auto const pdf_file = mc::scratch() + "/report.pdf";

	auto trim = [](string s) {
		auto const a = s.find_first_not_of(' ');
		return a == string::npos ? string() : s.substr(a);
	};

	vector<Note> const some = {
		Note(Code::NONE_ENCRYPTED), Note(Code::MISSING_FFOC), Note(Code::INVALID_LANGUAGE).set_language("odd"), Note(Code::FAILED_READ).set_error("it <broke> & stopped"), Note(Code::MISSING_ASSET, fs::path("/x/y.mxf")),
		Note(Code::INVALID_LANGUAGE).set_language("<&>")
	};
	auto class_of = [](Note const& n) -> string {
		switch (n.type()) {
		case Type::OK: return "ok";
		case Type::WARNING: return "warning";
		case Type::ERROR: return "error";
		case Type::BV21_ERROR: return "bv21-error";
		}
		return "";
	};

	/* DCPs: how many, how many CPLs in each, what is in the reels; notes: all sets of up to three with no CPL, or one of them */
	struct Shape
	{
		vector<vector<vector<int>>> dcps;
	};
	vector<Shape> const shapes = {
		{ { } }, { { { } } }, { { { { } } } }, { { { { 1 } } } }, { { { { 7 } } } }, { { { { 3, 7 } } } }, { { { { 1 }, { 6 } } } }, { { { { 1 } }, { { 2 } } } }, { { { { 4 }, { 5 } }, { { 7, 0, 7 } } } }
	};
	for (int s = 0; s < int(shapes.size()); ++s) {
		int cpls = 0;
		for (auto const& d: shapes[s].dcps) {
			cpls += d.size();
		}
		mc::sequences_to(int(some.size()) * (cpls + 1), cpls > 1 ? 2 : 3, [&](vector<int> const& sequence) {
			if (!mc::mine(unit++)) {
				return;
			}
			auto key = sequence;
			key.insert(key.begin(), s);
			if (!at("report", key)) {
				return;
			}
			dcp::VerificationResult result;
			/* Lines of the report which should be there, in order, for each CPL; and by themselves at the end */
			vector<string> want;
			vector<pair<string, string>> want_classes;
			for (auto i: sequence) {
				auto n = some[i % some.size()];
				if (i >= int(some.size())) {
					n.set_cpl_id(cpl_id(i / some.size()));
				}
				result.notes.push_back(n);
			}
			auto add_notes = [&](optional<string> id) {
				for (auto const& n: result.notes) {
					if (n.cpl_id() == id) {
						want.push_back(dcp::note_to_string(n));
						want_classes.push_back(std::make_pair(class_of(n), dcp::note_to_string(n)));
					}
				}
			};
			int n = 1;
			for (auto const& d: shapes[s].dcps) {
				auto dcp = make_shared<dcp::DCP>(dir);
				for (auto const& c: d) {
					string const annotation = n % 3 == 1 ? "Some <title>" : n % 3 == 2 ? "" : "Another title";
					auto playlist = cpl(n, c, annotation);
					dcp->add(playlist);
					if (!annotation.empty()) {
						want.push_back(*playlist->annotation_text());
					}
					want.push_back("CPL ID: " + cpl_id(n));
					int r = 0;
					for (auto which: c) {
						for (int a = 0; a < 3; ++a) {
							if (which & (1 << a)) {
								want.push_back("UUID: " + cpl_id(10000 * n + 100 * r + a + 1));
								want.push_back(mc::format("Intrinsic duration: %d", 1101 + r));
								want.push_back(mc::format("Entry point: %d", 1201 + r));
								want.push_back(mc::format("Duration: %d", 1301 + r));
							}
						}
						if (which & 4) {
							want.push_back("Language: fr-FR");
						}
						++r;
					}
					add_notes(cpl_id(n));
					++n;
				}
				result.dcps.push_back(dcp);
			}
			add_notes(boost::none);

			/* As text */
			{
				dcp::TextFormatter formatter(text_file);
				dcp::verify_report({ result }, formatter);
			}
			auto const text = assets::slurp(text_file);
			size_t place = 0;
			for (auto const& w: want) {
				auto const found = text.find(w + "\n", place);
				MC_CHECK(found != string::npos, "'%s' is not in the report, or is not in its place", w.c_str());
				place = found + w.size();
			}
			for (auto const& w: want) {
				MC_CHECK(occurrences(text, " " + w + "\n") == int(std::count(want.begin(), want.end(), w)), "'%s' is in the report %d times", w.c_str(), occurrences(text, " " + w + "\n"));
			}

			/* As HTML */
			{
				dcp::HTMLFormatter formatter(html_file);
				dcp::verify_report({ result }, formatter);
			}
			vector<string> got;
			try {
				xmlpp::DomParser parser;
				parser.parse_file(html_file);
				items(parser.get_document()->get_root_node(), "li", got);
			} catch (std::exception& e) {
				mc::violation(mc::format("the HTML cannot be read: %s", e.what()));
			}
			auto i = got.begin();
			for (auto const& w: want) {
				i = std::find_if(i, got.end(), [&](string const& g) { return trim(g.substr(g.find('|') + 1)) == w; });
				MC_CHECK(i != got.end(), "'%s' is not in the HTML, or is not in its place", w.c_str());
				if (i != got.end()) {
					++i;
				}
			}
			vector<string> with_class, want_with_class;
			for (auto const& g: got) {
				if (g[0] != '|') {
					with_class.push_back(g);
				}
			}
			for (auto const& w: want_classes) {
				want_with_class.push_back(w.first + "|" + w.second);
			}
			MC_CHECK(with_class == want_with_class, "the classes of notes in the HTML are wrong");

			/* As PDF */
			{
				dcp::PDFFormatter formatter(pdf_file);
				dcp::verify_report({ result }, formatter);
			}
			MC_CHECK(assets::slurp(pdf_file).substr(0, 5) == "%PDF-", "there is no PDF");
			fs::remove(pdf_file);
			mc::transition();
			mc::trace();
			mc::state(mc::format("%d %d", s, int(sequence.size())));
		});
	}
	/* Words in a PDF: all sequences of pieces of text */
	vector<string> const pieces = { "word ", "(a\\b) ", "[fixed]fixed[/fixed]", "[fixed]12345678-1234-1234-1234-123456789012[/fixed]", " and several more words, enough to fill most of a line of the page with, ", string(150, 'w'), " " };
	mc::sequences_to(pieces.size(), mc::thorough() ? 5 : 4, [&](vector<int> const& sequence) {
		if (sequence.empty() || !mc::mine(unit++) || !at("PDF", sequence)) {
			return;
		}
		string words, fixed, plain;
		for (auto i: sequence) {
			words += pieces[i];
			auto p = pieces[i];
			if (p.find("[fixed]") == 0) {
				p = p.substr(7, p.size() - 15);
				fixed += p;
			}
			plain += p;
		}
		{
			dcp::PDFFormatter formatter(pdf_file);
			formatter.heading("Heading");
			auto list = formatter.unordered_list();
			formatter.list_item(words, string("ok"));
			formatter.finish();
		}
		auto const pdf = assets::slurp(pdf_file);
		fs::remove(pdf_file);
		string got, got_fixed, font;
		std::istringstream lines(pdf);
		string line;
		/* Fonts are named in the order of their first use */
		string fixed_font, normal_font;
		while (std::getline(lines, line)) {
			if (line.size() > 3 && line.substr(line.size() - 3) == " Tf") {
				font = line.substr(0, line.find(' '));
			} else if (line.size() > 3 && line.substr(line.size() - 3) == " Tj") {
				auto const a = line.find('('), b = line.rfind(')');
				string t;
				for (auto i = a + 1; i < b; ++i) {
					if (line[i] == '\\' && isdigit(line[i + 1])) {
						t += char(strtol(line.substr(i + 1, 3).c_str(), nullptr, 8));
						i += 3;
					} else if (line[i] == '\\') {
						t += line[++i];
					} else {
						t += line[i];
					}
				}
				if (t != "Heading") {
					got += t;
					if (t.find("12345678") != string::npos || t == "fixed") {
						MC_CHECK(fixed_font.empty() || fixed_font == font, "fixed-width text is in fonts %s and %s", font.c_str(), fixed_font.c_str());
						fixed_font = font;
					} else if (t.find("word") != string::npos || t.find("www") != string::npos) {
						normal_font = font;
					}
				}
			}
		}
		MC_CHECK(fixed_font.empty() || fixed_font != normal_font, "fixed-width text is in the same font as the rest");
		if (!fixed.empty()) {
			MC_CHECK(!fixed_font.empty() || fixed != "fixed", "fixed-width text was not found in '%s'", got.c_str());
		}
		MC_CHECK(got == plain, "'%s' is in the PDF as '%s'", plain.c_str(), got.c_str());
		mc::transition();
		mc::trace();
	});
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	dcp::init();
	codestreams();
	texts();
	notes();
	reports();
	mc::finish();
}
