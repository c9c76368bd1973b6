/* C04: however a local time is made (from parts, system times, ASN.1 times or the clock) it is the time that was
 * given, in the zone that was given or the system's; and as a time_t it is the instant that it names.
 */

#include "localtime_ref.h"
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

using std::string;

/* The clock, which can be set to what we want, and to move on by a second after being looked at some number of times */
static bool our_clock = false;
static time_t our_time = 0;
static int looks_left = -1;

static time_t look()
{
	auto const t = our_time;
	if (looks_left > 0 && --looks_left == 0) {
		++our_time;
	}
	return t;
}

extern "C" {

int clock_gettime(clockid_t which, struct timespec* t) noexcept
{
	if (our_clock && (which == CLOCK_REALTIME || which == CLOCK_REALTIME_COARSE)) {
		t->tv_sec = look();
		t->tv_nsec = 0;
		return 0;
	}
	return syscall(SYS_clock_gettime, which, t);
}

time_t time(time_t* t) noexcept
{
	struct timespec s;
	clock_gettime(CLOCK_REALTIME, &s);
	if (t) {
		*t = s.tv_sec;
	}
	return s.tv_sec;
}

int gettimeofday(struct timeval* t, void*) noexcept
{
	struct timespec s;
	clock_gettime(CLOCK_REALTIME, &s);
	t->tv_sec = s.tv_sec;
	t->tv_usec = s.tv_nsec / 1000;
	return 0;
}

}

static void check(dcp::LocalTime const& t, Ref const& r, string const& how)
{
	auto const d = differs(t, r);
	MC_CHECK(d.empty(), "%s: %s", how.c_str(), d.c_str());
	mc::outcome(t.as_string(true, true));
	if (mc::want_sample(how)) {
		mc::sample(how, t.as_string(true, true));
	}
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	int64_t unit = 0;

	/* Other constructions */
	{
		char const* zones[] = { "UTC0", "AAA-4:30", "BBB+9:30", "CCC+0:30", "DDD-12", "EEE+11", "FFF-0:01" };
		int const zone_minutes[] = { 0, 270, -570, -30, 720, -660, 1 };
		for (int z = 0; z < 7; ++z) {
			if (!mc::mine(unit++)) {
				continue;
			}
			setenv("TZ", zones[z], 1);
			tzset();
			for (int k = 0; k < 400; ++k) {
				if (!mc::at("construct", { z, k })) {
					continue;
				}
				Ref r;
				from_day_number(day_number(1999, 12, 28) + k * 31, r.year, r.month, r.day);
				r.hour = k % 24; r.minute = (k * 7) % 60; r.second = (k * 11) % 60; r.offset = zone_minutes[z];
				struct tm tm;
				memset(&tm, 0, sizeof(tm));
				tm.tm_year = r.year - 1900; tm.tm_mon = r.month - 1; tm.tm_mday = r.day; tm.tm_hour = r.hour; tm.tm_min = r.minute; tm.tm_sec = r.second;
				mc::state(mc::format("c%d:%d", z, k));
				mc::trace(5);
				mc::transition(5);
				check(dcp::LocalTime(tm), r, string("from a struct tm in time zone ") + zones[z]);
				auto rms = r;
				rms.ms = (k * 37) % 1000;
				boost::posix_time::ptime const p(
					boost::gregorian::date(r.year, r.month, r.day),
					boost::posix_time::time_duration(r.hour, r.minute, r.second) + boost::posix_time::milliseconds(rms.ms)
					);
				check(dcp::LocalTime(p), rms, string("from a ptime in time zone ") + zones[z]);
				auto other = rms;
				other.offset = 330;
				check(dcp::LocalTime(p, dcp::UTCOffset(5, 30)), other, "from a ptime and an offset");
				auto whole = r;
				whole.second = 0;
				whole.offset = -90;
				check(dcp::LocalTime(r.year, r.month, r.day, r.hour, r.minute, dcp::UTCOffset(-1, -30)), whole, "from its parts");
				auto set = dcp::LocalTime(p, dcp::UTCOffset(5, 30));
				set.set_year(2004);
				set.set_month(2);
				set.set_day(29);
				other.year = 2004; other.month = 2; other.day = 29;
				check(set, other, "after setting the date");
				auto utc = r;
				utc.offset = 0;
				check(
					dcp::LocalTime::from_asn1_generalized_time(mc::format("%04d%02d%02d%02d%02d%02dZ", r.year, r.month, r.day, r.hour, r.minute, r.second)),
					utc, string("from ASN.1 GeneralizedTime in time zone ") + zones[z]
					);
			}
			/* UTCTime has two digits for the year.  50-69 are ambiguous and not judged */
			for (int y = 0; y < 100; ++y) {
				if ((y >= 50 && y < 70) || !mc::at("utctime", { z, y })) {
					continue;
				}
				Ref r;
				r.year = y < 50 ? 2000 + y : 1900 + y;
				r.month = y % 12 + 1; r.day = y % 28 + 1; r.hour = y % 24; r.minute = y % 60; r.second = (y * 7) % 60;
				mc::trace();
				mc::transition();
				check(
					dcp::LocalTime::from_asn1_utc_time(mc::format("%02d%02d%02d%02d%02d%02dZ", y, r.month, r.day, r.hour, r.minute, r.second)),
					r, "from ASN.1 UTCTime"
					);
			}
			if (mc::at("now", { z })) {
				/* The default is the present, in the local time zone */
				auto const before = time(nullptr);
				dcp::LocalTime const now;
				auto const after = time(nullptr);
				Ref lo, hi;
				lo.offset = hi.offset = zone_minutes[z];
				set_wall(lo, before * 1000LL + zone_minutes[z] * 60000LL);
				set_wall(hi, after * 1000LL + zone_minutes[z] * 60000LL);
				auto const s = now.as_string(true, true);
				bool in = false;
				for (auto i = before; i <= after; ++i) {
					Ref e;
					e.offset = zone_minutes[z];
					set_wall(e, i * 1000LL + zone_minutes[z] * 60000LL);
					in = in || s == ref_string(e, true, true);
				}
				mc::trace();
				MC_CHECK(in, "the present in time zone %s is given as %s, expected %s", zones[z], s.c_str(), ref_string(lo, true, true).c_str());
			}
		}
		setenv("TZ", "UTC", 1);
		tzset();
	}

	/* The present, whenever it is, in places which change their clocks; with the clock moving on at any point */
	{
		struct Place { char const* zone; int winter; int summer; };
		Place const places[] = {
			{ "AAA5BBB,M3.2.0,M11.1.0", -300, -240 }, { "AAA-1BBB,M3.5.0,M10.5.0/3", 60, 120 }, { "AAA-10:30BBB-11,M10.1.0,M4.1.0", 630, 660 },
			{ "AAA3:30BBB,M3.2.0,M11.1.0", -210, -150 }, { "AAA0BBB,M3.5.0/1,M10.5.0", 0, 60 }, { "AAA1BBB0,M3.4.4/50,M10.4.4/50", -60, 0 }
		};
		int const last = mc::thorough() ? 2060 : 2032;
		for (int place = 0; place < 6; ++place) {
			for (int year = 2020; year <= last; ++year) {
				if (!mc::mine(unit++)) {
					continue;
				}
				/* The times in the year at which the clocks change, found by looking at every hour */
				setenv("TZ", places[place].zone, 1);
				tzset();
				auto const offset = [](time_t t) {
					struct tm tm;
					localtime_r(&t, &tm);
					return int(tm.tm_gmtoff / 60);
				};
				std::vector<time_t> times;
				time_t const start = (day_number(year, 1, 1) - day_number(1970, 1, 1)) * 86400LL;
				int changes = 0;
				for (time_t t = start; t < start + 365 * 86400; t += 1800) {
					if (offset(t) != offset(t + 1800)) {
						++changes;
						for (int i: { -7200, -3601, -3600, -1, 0, 1, 1799, 1800, 3599, 3600, 3601, 7200 }) {
							times.push_back(t + 1800 + i);
						}
						/* so that the clock moves on to the change */
						times.push_back(t + 1799);
						times.push_back(t + 1798);
					} else if ((t - start) % (86400 * 9) == 0) {
						times.push_back(t);
					}
				}
				MC_CHECK(changes == 2, "the clocks change %d times in %d in %s", changes, year, places[place].zone);
				for (auto t: times) {
					for (int looks = 0; looks <= 6; ++looks) {
						if (!mc::at("present", { place, int64_t(t), looks })) {
							continue;
						}
						our_clock = true;
						our_time = t;
						looks_left = looks ? looks : -1;
						dcp::LocalTime const now;
						auto const then = our_time;
						struct tm tm;
						gmtime_r(&t, &tm);
						looks_left = -1;
						our_time = t;
						dcp::LocalTime const made(tm);
						our_clock = false;
						bool in = false;
						string want;
						for (auto i = t; i <= then; ++i) {
							Ref e;
							e.offset = offset(i);
							MC_CHECK(e.offset == places[place].winter || e.offset == places[place].summer, "the offset is %d in %s", e.offset, places[place].zone);
							set_wall(e, i * 1000LL + e.offset * 60000LL);
							want = ref_string(e, true, true);
							in = in || now.as_string(true, true) == want;
						}
						mc::trace(2);
						mc::transition(2);
						mc::state(mc::format("present%d:%lld:%d", place, (long long) t, looks));
						MC_CHECK(in, "the present in time zone %s is given as %s, expected %s%s", places[place].zone, now.as_string(true, true).c_str(), want.c_str(), looks ? " or the second before" : "");
						Ref e;
						set_wall(e, t * 1000LL);
						e.offset = offset(t);
						check(made, e, string("from a struct tm at some time in time zone ") + places[place].zone);
					}
				}
			}
		}
		setenv("TZ", "UTC", 1);
		tzset();
	}

	/* Seconds since the epoch: any zone */
	for (int k = 0; k < 30000; ++k) {
		if (!mc::mine(unit++)) {
			continue;
		}
		for (int o: { 0, 60, -60, 330, -570, -30, 720, -660 }) {
			if (!mc::at("time_t", { k, o })) {
				continue;
			}
			Ref r;
			from_day_number(2 + k, r.year, r.month, r.day);
			r.hour = k % 24; r.minute = (k * 7) % 60; r.second = (k * 11) % 60; r.ms = k % 1000; r.offset = o;
			auto const got = make(r).as_time_t();
			auto const want = (instant_ms(r) - r.ms) / 1000;
			mc::trace();
			mc::transition();
			mc::state(ref_string(r, true, true));
			mc::outcome(uint64_t(got));
			MC_CHECK(got == want, "%s as a time_t is %lld, not %lld", ref_string(r, true, true).c_str(), (long long) want, (long long) got);
		}
	}

	/* And any year */
	for (int year = 1970; year <= 9997; ++year) {
		if (!mc::mine(unit++)) {
			continue;
		}
		for (int o: { 0, 14 * 60, -12 * 60, 345 }) {
			if (!mc::at("year", { year, o })) {
				continue;
			}
			Ref r;
			r.year = year; r.month = year % 12 + 1; r.day = (year / 12) % 28 + 1;
			r.hour = year % 24; r.minute = (year * 7) % 60; r.second = (year * 11) % 60; r.offset = o;
			auto const got = make(r).as_time_t();
			mc::trace();
			mc::transition(2);
			mc::state(ref_string(r, true, true));
			MC_CHECK(got == instant_ms(r) / 1000, "%s as a time_t is %lld, not %lld", ref_string(r, true, true).c_str(), (long long) instant_ms(r) / 1000, (long long) got);
			auto utc = r;
			utc.offset = 0;
			check(
				dcp::LocalTime::from_asn1_generalized_time(mc::format("%04d%02d%02d%02d%02d%02dZ", r.year, r.month, r.day, r.hour, r.minute, r.second)), utc,
				"from ASN.1 GeneralizedTime"
				);
		}
	}

	mc::finish();
}
