/* A reference model of a local time: plain integers, and a calendar of its own */

#ifndef LOCALTIME_REF_H
#define LOCALTIME_REF_H

#include "local_time.h"
#include "exceptions.h"
#include "mc.h"
#include <string>

struct Ref
{
	int year = 2000, month = 1, day = 1, hour = 0, minute = 0, second = 0, ms = 0;
	/** signed minutes east of UTC */
	int offset = 0;
};

inline bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }

inline int month_days(int y, int m)
{
	static int const d[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
	return m == 2 && leap(y) ? 29 : d[m - 1];
}

/** days since 1970-01-01 */
inline int64_t day_number(int y, int m, int d)
{
	int64_t n = 0;
	int64_t const p = y - 1;
	n = p * 365 + p / 4 - p / 100 + p / 400;
	for (int i = 1; i < m; ++i) {
		n += month_days(y, i);
	}
	return n + d - 1 - 719162;
}

inline void from_day_number(int64_t n, int& y, int& m, int& d)
{
	y = 1970 + n / 366;
	while (day_number(y + 1, 1, 1) <= n) ++y;
	while (day_number(y, 1, 1) > n) --y;
	n -= day_number(y, 1, 1);
	m = 1;
	while (n >= month_days(y, m)) {
		n -= month_days(y, m++);
	}
	d = n + 1;
}

/** milliseconds since the epoch of the time on the clock, ignoring the offset */
inline int64_t wall_ms(Ref const& r)
{
	return (((day_number(r.year, r.month, r.day) * 24 + r.hour) * 60 + r.minute) * 60 + r.second) * 1000 + r.ms;
}

inline int64_t instant_ms(Ref const& r)
{
	return wall_ms(r) - int64_t(r.offset) * 60000;
}

inline void set_wall(Ref& r, int64_t w)
{
	int64_t const day = w >= 0 ? w / 86400000 : -((-w + 86399999) / 86400000);
	int64_t t = w - day * 86400000;
	from_day_number(day, r.year, r.month, r.day);
	r.ms = t % 1000; t /= 1000;
	r.second = t % 60; t /= 60;
	r.minute = t % 60; t /= 60;
	r.hour = t;
}

inline dcp::UTCOffset ref_offset(int minutes)
{
	return minutes >= 0 ? dcp::UTCOffset(minutes / 60, minutes % 60) : dcp::UTCOffset(-((-minutes) / 60), -((-minutes) % 60));
}

inline std::string ref_date(Ref const& r) { return mc::format("%04d-%02d-%02d", r.year, r.month, r.day); }

inline std::string ref_string(Ref const& r, bool ms, bool tz)
{
	auto s = ref_date(r) + mc::format("T%02d:%02d:%02d", r.hour, r.minute, r.second);
	if (ms) {
		s += mc::format(".%03d", r.ms);
	}
	if (tz) {
		int const a = r.offset < 0 ? -r.offset : r.offset;
		s += mc::format("%c%02d:%02d", r.offset < 0 ? '-' : '+', a / 60, a % 60);
	}
	return s;
}

/** Make the library's version without using its parser */
inline dcp::LocalTime make(Ref const& r)
{
	return dcp::LocalTime(
		boost::posix_time::ptime(
			boost::gregorian::date(r.year, r.month, r.day),
			boost::posix_time::time_duration(r.hour, r.minute, r.second) + boost::posix_time::milliseconds(r.ms)
			),
		ref_offset(r.offset)
		);
}

/** Compare everything that can be seen of t with r; "" if it agrees */
inline std::string differs(dcp::LocalTime const& t, Ref const& r)
{
	if (t.year() != r.year || t.month() != r.month || t.day() != r.day || t.hour() != r.hour || t.minute() != r.minute ||
	    t.second() != r.second || t.millisecond() != r.ms) {
		return mc::format("fields %d-%d-%d %d:%d:%d.%d, expected ", t.year(), t.month(), t.day(), t.hour(), t.minute(), t.second(), t.millisecond()) + ref_string(r, true, true);
	}
	auto const s = t.as_string(true, true);
	auto const e = ref_string(r, true, true);
	if (s != e) {
		return "as a string " + s + ", expected " + e;
	}
	return "";
}

#endif
