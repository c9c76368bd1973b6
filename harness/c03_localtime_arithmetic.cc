/* C03: arithmetic on local times agrees with the calendar, from wherever earlier operations have left the time.
 */

#include "localtime_ref.h"
#include <algorithm>
#include <deque>
#include <time.h>

using std::string;
using std::vector;

static Ref plus_months(Ref r, int m)
{
	int64_t const n = int64_t(r.year) * 12 + r.month - 1 + m;
	bool const last = r.day == month_days(r.year, r.month);
	r.year = n / 12;
	r.month = n % 12 + 1;
	int const d = month_days(r.year, r.month);
	r.day = last ? d : std::min(r.day, d);
	return r;
}

struct Op
{
	char const* name;
	int kind;
	int64_t n;
};

static bool apply(Op const& op, Ref& r, dcp::LocalTime& t)
{
	mc::transition();
	switch (op.kind) {
	case 0:
		set_wall(r, wall_ms(r) + op.n * 86400000);
		t.add_days(op.n);
		break;
	case 1:
		r = plus_months(r, op.n);
		t.add_months(op.n);
		break;
	case 2:
		set_wall(r, wall_ms(r) + op.n * 60000);
		t.add_minutes(op.n);
		break;
	case 3:
		set_wall(r, wall_ms(r) + op.n);
		t.add(boost::posix_time::milliseconds(op.n));
		break;
	case 4:
		r.offset = op.n;
		t.set_offset(ref_offset(op.n));
		break;
	}
	return true;
}

static void check(dcp::LocalTime const& t, Ref const& r, string const& how)
{
	auto const d = differs(t, r);
	MC_CHECK(d.empty(), "%s: %s", how.c_str(), d.c_str());
	mc::outcome(t.as_string(true, true));
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	int64_t unit = 0;

	/* From every day of several years, each single step */
	for (int64_t n = day_number(2011, 1, 1); n <= day_number(mc::thorough() ? 2024 : 2016, 12, 31); ++n) {
		if (!mc::mine(unit++)) {
			continue;
		}
		Ref r;
		from_day_number(n, r.year, r.month, r.day);
		r.hour = 18; r.minute = 6; r.second = 59; r.ms = 123; r.offset = (n % 3) * 330 - 330;
		mc::state("day" + ref_date(r));
		for (int m = -50; m <= 50; ++m) {
			if (mc::at("months", { n, m })) {
				auto t = make(r);
				auto e = r;
				apply({ "months", 1, m }, e, t);
				mc::trace();
				check(t, e, ref_string(r, true, true) + mc::format(" plus %d months", m));
			}
		}
		for (int64_t d: { -1461, -731, -366, -365, -60, -31, -30, -29, -28, -2, -1, 0, 1, 2, 28, 29, 30, 31, 60, 365, 366, 731, 1461, 36525 }) {
			if (mc::at("days", { n, d })) {
				auto t = make(r);
				auto e = r;
				apply({ "days", 0, d }, e, t);
				mc::trace();
				check(t, e, ref_string(r, true, true) + mc::format(" plus %lld days", (long long) d));
			}
		}
	}

	/* A long way, from the ends of months in years which are leap years, or are not, for different reasons */
	for (int year: { 1500, 1600, 1700, 1899, 1900, 1969, 1970, 1972, 1999, 2000, 2004, 2037, 2038, 2096, 2100, 2400, 5000, 8000 }) {
		for (int month = 1; month <= 12; ++month) {
			if (!mc::mine(unit++)) {
				continue;
			}
			for (int which = 0; which < 4; ++which) {
				Ref r;
				r.year = year; r.month = month;
				r.day = which == 0 ? 1 : which == 1 ? std::min(29, month_days(year, month)) : month_days(year, month) - (which == 3);
				r.hour = 23; r.minute = 59; r.second = 30; r.ms = 500; r.offset = which * 210 - 330;
				auto step = [&](char const* name, int kind, int64_t n) {
					/* Stay within what the calendar library can do */
					auto const years = kind == 0 ? n / 365 : kind == 1 ? n / 12 : kind == 2 ? n / 525600 : n / 31536000000LL;
					if (year + years < 1405 || year + years > 9990 || !mc::at(mc::format("far:%d:%d:%d:%s:%lld", year, month, which, name, (long long) n))) {
						return;
					}
					auto t = make(r);
					auto e = r;
					apply({ name, kind, n }, e, t);
					mc::trace();
					check(t, e, ref_string(r, true, true) + mc::format(" plus %lld %s", (long long) n, name));
				};
				for (int64_t n: { 1LL, 28LL, 29LL, 30LL, 31LL, 365LL, 366LL, 1461LL, 24855LL, 24856LL, 32768LL, 36524LL, 36525LL, 49711LL, 65536LL, 146097LL, 300000LL, 1000000LL }) {
					step("days", 0, n);
					step("days", 0, -n);
				}
				for (int64_t n: { 1LL, 11LL, 12LL, 13LL, 48LL, 127LL, 128LL, 255LL, 256LL, 1199LL, 1200LL, 1201LL, 4800LL, 12000LL, 32767LL, 32768LL }) {
					step("months", 1, n);
					step("months", 1, -n);
				}
				for (int64_t n: { 1LL, 60LL, 1440LL, 32768LL, 65536LL, 525600LL, 35791394LL, 35791395LL, 71582789LL, 1000000000LL, 2147483647LL }) {
					step("minutes", 2, n);
					step("minutes", 2, -n);
				}
				for (int64_t n: { 499LL, 500LL, 29999LL, 30000LL, 2147483647LL, 2147483648LL, 4294967296LL, 86400000LL * 36525, 2147483648000LL, 4294967296000LL }) {
					step("milliseconds", 3, n);
					step("milliseconds", 3, -n);
				}
			}
		}
	}

	/* Every number of minutes in three days either way, from several times */
	{
		Ref starts[4];
		starts[0].year = 2018; starts[0].month = 1; starts[0].day = 31; starts[0].hour = 23; starts[0].minute = 55; starts[0].ms = 123; starts[0].offset = 60;
		starts[1].year = 2012; starts[1].month = 2; starts[1].day = 28; starts[1].hour = 0; starts[1].minute = 0; starts[1].second = 59; starts[1].ms = 999; starts[1].offset = -570;
		starts[2].year = 2019; starts[2].month = 12; starts[2].day = 31; starts[2].hour = 12; starts[2].minute = 30; starts[2].second = 1;
		starts[3].year = 2100; starts[3].month = 3; starts[3].day = 1; starts[3].hour = 0; starts[3].minute = 1; starts[3].ms = 1;
		for (int s = 0; s < 4; ++s) {
			for (int m = -4321; m <= 4321; ++m) {
				if (!mc::mine(unit++) || !mc::at("minutes", { s, m })) {
					continue;
				}
				auto t = make(starts[s]);
				auto e = starts[s];
				apply({ "minutes", 2, m }, e, t);
				mc::trace();
				check(t, e, ref_string(starts[s], true, true) + mc::format(" plus %d minutes", m));
			}
			for (int64_t d = -2600; d <= 2600; ++d) {
				for (int64_t scale: { 1LL, 1000LL, 59999LL, 3600001LL }) {
					if (!mc::mine(unit++) || !mc::at("duration", { s, d, scale })) {
						continue;
					}
					auto t = make(starts[s]);
					auto e = starts[s];
					apply({ "duration", 3, d * scale }, e, t);
					mc::trace();
					check(t, e, ref_string(starts[s], true, true) + mc::format(" plus %lld ms", (long long) (d * scale)));
				}
			}
		}
	}

	/* Sequences of operations, breadth first with states merged on everything visible.
	 * A state is rebuilt by replaying its history, so each is reached as a user would.
	 */
	{
		vector<Op> const ops = {
			{ "+1 day", 0, 1 }, { "-1 day", 0, -1 }, { "+366 days", 0, 366 }, { "+1 month", 1, 1 }, { "-1 month", 1, -1 }, { "+13 months", 1, 13 },
			{ "-26 months", 1, -26 }, { "+1 minute", 2, 1 }, { "-1 minute", 2, -1 }, { "+1441 minutes", 2, 1441 }, { "+1 ms", 3, 1 }, { "-1001 ms", 3, -1001 },
			{ "offset -30", 4, -30 }, { "offset +720", 4, 720 }
		};
		vector<string> const starts = { "2015-12-31T23:59:59.999+01:00", "2012-02-29T00:00:00.000-09:30", "2018-01-30T11:00:00.000+00:00" };
		int const depth = mc::thorough() ? 6 : 4;
		for (size_t s = 0; s < starts.size(); ++s) {
			if (!mc::s().only.empty()) {
				/* replay of one history */
			} else if (!mc::mine(unit++)) {
				continue;
			}
			Ref r0;
			int h, m;
			char sign;
			sscanf(starts[s].c_str(), "%d-%d-%dT%d:%d:%d.%d%c%d:%d", &r0.year, &r0.month, &r0.day, &r0.hour, &r0.minute, &r0.second, &r0.ms, &sign, &h, &m);
			r0.offset = (h * 60 + m) * (sign == '-' ? -1 : 1);
			std::deque<vector<int>> queue;
			queue.push_back({});
			mc::state("seq" + starts[s]);
			while (!queue.empty()) {
				auto const history = queue.front();
				queue.pop_front();
				for (int o = 0; o < int(ops.size()); ++o) {
					auto next = history;
					next.push_back(o);
					string key = mc::format("history:%d", int(s));
					for (auto i: next) {
						key += mc::format(":%d", i);
					}
					bool const replaying = !mc::s().only.empty();
					if (!mc::at(key)) {
						if (replaying && mc::s().only.compare(0, key.length() + 1, key + ":") == 0) {
							queue.push_back(next);
						}
						continue;
					}
					auto r = r0;
					auto t = make(r0);
					string how = starts[s];
					for (auto i: next) {
						apply(ops[i], r, t);
						how += string(", ") + ops[i].name;
					}
					mc::trace();
					check(t, r, how);
					if (mc::want_sample("history")) {
						mc::sample("history", how + " = " + t.as_string(true, true));
					}
					if (mc::state("seq" + t.as_string(true, true)) && int(next.size()) < depth) {
						queue.push_back(next);
					}
				}
			}
		}
	}

	mc::finish();
}
