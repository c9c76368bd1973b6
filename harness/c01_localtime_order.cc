/* C01: comparison of local times is comparison of the instants that they name.
 * Every pair of times from a grid that has two adjacent values of every field, and a set of offsets.
 */

#include "localtime_ref.h"
#include <boost/optional.hpp>

using std::vector;

static vector<Ref> grid(int const (*f)[2], vector<int> const& offsets)
{
	vector<Ref> out;
	for (int bits = 0; bits < 128; ++bits) {
		for (auto o: offsets) {
			Ref r;
			r.year = f[0][bits & 1];
			r.month = f[1][(bits >> 1) & 1];
			r.day = f[2][(bits >> 2) & 1];
			r.hour = f[3][(bits >> 3) & 1];
			r.minute = f[4][(bits >> 4) & 1];
			r.second = f[5][(bits >> 5) & 1];
			r.ms = f[6][(bits >> 6) & 1];
			r.offset = o;
			out.push_back(r);
		}
	}
	return out;
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);

	static int const grids[3][7][2] = {
		{ { 2014, 2015 }, { 6, 7 }, { 15, 16 }, { 10, 11 }, { 20, 21 }, { 30, 31 }, { 400, 401 } },
		{ { 2013, 2014 }, { 12, 1 }, { 31, 1 }, { 23, 0 }, { 59, 0 }, { 59, 0 }, { 999, 0 } },
		{ { 2012, 2013 }, { 2, 3 }, { 28, 1 }, { 0, 22 }, { 30, 45 }, { 0, 59 }, { 0, 999 } },
	};
	vector<int> offsets = { 0, 60, -60, 30, -30, 90, -90, 345, -599, 720, -660, 1, -1 };
	if (mc::thorough()) {
		for (auto o: { 15, -15, 45, -45, 630, -570, 119, -119, 840, -720 }) {
			offsets.push_back(o);
		}
	}

	int64_t unit = 0;
	for (int g = 0; g < 3; ++g) {
		auto const refs = grid(grids[g], offsets);
		vector<dcp::LocalTime> times;
		vector<int64_t> instants;
		for (auto const& r: refs) {
			times.push_back(make(r));
			instants.push_back(instant_ms(r));
		}
		if (mc::mine(g)) {
			for (size_t i = 0; i < refs.size(); ++i) {
				mc::state(mc::format("%d", g) + ref_string(refs[i], true, true));
			}
		}
		for (size_t i = 0; i < refs.size(); ++i) {
			if (!mc::mine(unit++)) {
				continue;
			}
			for (size_t j = 0; j < refs.size(); ++j) {
				if (!mc::at("pair", { g, int64_t(i), int64_t(j) })) {
					continue;
				}
				auto const& a = times[i];
				auto const& b = times[j];
				int const c = instants[i] < instants[j] ? -1 : (instants[i] > instants[j] ? 1 : 0);
				int const got = (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5;
				int const want = (c == 0) | (c != 0) << 1 | (c < 0) << 2 | (c <= 0) << 3 | (c > 0) << 4 | (c >= 0) << 5;
				mc::transition(6);
				mc::trace();
				mc::outcome(uint64_t(want));
				if (got != want) {
					mc::violation(mc::format(
						"comparing %s with %s gave (==,!=,<,<=,>,>=) = %d%d%d%d%d%d, but their instants differ by %lld ms",
						ref_string(refs[i], true, true).c_str(), ref_string(refs[j], true, true).c_str(),
						got & 1, (got >> 1) & 1, (got >> 2) & 1, (got >> 3) & 1, (got >> 4) & 1, (got >> 5) & 1,
						(long long) (instants[i] - instants[j])
						));
				}
				if (i == 77 && mc::want_sample("pair")) {
					mc::sample("pair", ref_string(refs[i], true, true) + (c < 0 ? " < " : (c > 0 ? " > " : " == ")) + ref_string(refs[j], true, true));
				}
			}
		}
	}

	/* Times far apart, and each value of each field, with every whole hour of offset and some others */
	{
		vector<Ref> refs;
		auto add = [&refs](int year, int month, int day, int hour, int minute, int second, int ms, int offset) {
			Ref r;
			r.year = year; r.month = month; r.day = day; r.hour = hour; r.minute = minute; r.second = second; r.ms = ms; r.offset = offset;
			refs.push_back(r);
		};
		vector<int> all = { 330, 345, -210, -570, 899, -779, 59, -59 };
		for (int h = -12; h <= 14; ++h) {
			all.push_back(h * 60);
		}
		for (auto o: all) {
			add(1401, 1, 1, 0, 0, 0, 0, o);
			add(1600, 2, 29, 12, 0, 0, 1, o);
			add(1899, 12, 31, 23, 59, 59, 999, o);
			add(1900, 3, 1, 0, 0, 0, 0, o);
			add(1901, 12, 13, 20, 45, 52, 0, o);
			add(1969, 12, 31, 23, 59, 59, 999, o);
			add(1970, 1, 1, 0, 0, 0, 0, o);
			add(2000, 2, 29, 0, 0, 0, 0, o);
			add(2038, 1, 19, 3, 14, 7, 999, o);
			add(2038, 1, 19, 3, 14, 8, 0, o);
			add(2100, 2, 28, 23, 59, 59, 999, o);
			add(2100, 3, 1, 0, 0, 0, 0, o);
			add(2106, 2, 7, 6, 28, 16, 0, o);
			add(2262, 4, 11, 23, 47, 16, 854, o);
			add(9998, 12, 31, 23, 59, 59, 999, o);
		}
		for (auto o: { 0, 330, -570 }) {
			for (int i = 1; i <= 12; ++i) {
				add(2015, i, 9, 8, 7, 6, 5, o);
			}
			for (int i = 1; i <= 31; ++i) {
				add(2015, 5, i, 8, 7, 6, 5, o);
			}
			for (int i = 0; i <= 23; ++i) {
				add(2015, 5, 9, i, 7, 6, 5, o);
			}
			for (int i = 0; i <= 59; ++i) {
				add(2015, 5, 9, 8, i, 6, 5, o);
				add(2015, 5, 9, 8, 7, i, 5, o);
			}
			for (int i = 0; i <= 999; i += 9) {
				add(2015, 5, 9, 8, 7, 6, i, o);
				add(2015, 5, 9, 8, 7, 6, i == 999 ? 998 : i + 1, o);
			}
		}
		vector<dcp::LocalTime> times;
		vector<int64_t> instants;
		for (auto const& r: refs) {
			times.push_back(make(r));
			instants.push_back(instant_ms(r));
		}
		for (size_t i = 0; i < refs.size(); ++i) {
			if (!mc::mine(unit++)) {
				continue;
			}
			mc::state("far" + ref_string(refs[i], true, true));
			for (size_t j = 0; j < refs.size(); ++j) {
				if (!mc::at("far", { int64_t(i), int64_t(j) })) {
					continue;
				}
				auto const& a = times[i];
				auto const& b = times[j];
				int const c = instants[i] < instants[j] ? -1 : (instants[i] > instants[j] ? 1 : 0);
				mc::transition(6);
				mc::trace();
				MC_CHECK(
					(a == b) == (c == 0) && (a != b) == (c != 0) && (a < b) == (c < 0) && (a <= b) == (c <= 0) && (a > b) == (c > 0) && (a >= b) == (c >= 0),
					"%s and %s, whose instants differ by %lld ms, are compared wrongly",
					ref_string(refs[i], true, true).c_str(), ref_string(refs[j], true, true).c_str(), (long long) (instants[i] - instants[j])
					);
			}
		}
	}

	/* Offsets, with hours and minutes of the same sign, are equal when they are the same */
	for (int h = -12; h <= 14; ++h) {
		if (!mc::mine(unit++)) {
			continue;
		}
		for (int m: { -59, -30, -1, 0, 1, 30, 59 }) {
			if (h * m < 0 || !mc::at("offset", { h, m })) {
				continue;
			}
			dcp::UTCOffset const a(h, m);
			dcp::UTCOffset set;
			MC_CHECK(set.hour() == 0 && set.minute() == 0, "a default offset is %d:%d", set.hour(), set.minute());
			set.set_hour(h);
			MC_CHECK(set.hour() == h && set.minute() == 0, "setting the hour of an offset to %d gives %d:%d", h, set.hour(), set.minute());
			set.set_minute(m);
			MC_CHECK(set.hour() == h && set.minute() == m, "setting an offset to %d:%d gives %d:%d", h, m, set.hour(), set.minute());
			for (int h2 = -12; h2 <= 14; ++h2) {
				for (int m2: { -59, -30, -1, 0, 1, 30, 59 }) {
					if (h2 * m2 < 0) {
						continue;
					}
					dcp::UTCOffset const b(h2, m2);
					bool const same = h == h2 && m == m2;
					mc::transition(2);
					mc::trace();
					MC_CHECK((set == b) == same && (set != b) == !same && (b == a) == same, "offset %d:%d %s %d:%d", h, m, same ? "does not equal" : "equals", h2, m2);
				}
			}
		}
	}
	mc::finish();
}
