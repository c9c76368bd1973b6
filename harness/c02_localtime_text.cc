/* C02: the text form of a local time.
 *  - what is written names the time exactly, and reading it gives the same time back;
 *  - well-formed text gives the fields that it shows;
 *  - anything else is refused with TimeFormatError.
 */

#include "localtime_ref.h"
#include <algorithm>

using std::string;
using std::vector;

enum class Verdict { GOOD, BAD, OUT_OF_RANGE };

/** An independent recogniser for YYYY-MM-DDTHH:MM:SS[.frac][Z|+HH:MM|-HH:MM] */
static Verdict recognise(string const& s, Ref& r)
{
	char const* shape = "dddd-dd-ddTdd:dd:dd";
	if (s.length() < 19) {
		return Verdict::BAD;
	}
	auto digit = [](char c) { return c >= '0' && c <= '9'; };
	for (int i = 0; i < 19; ++i) {
		if (shape[i] == 'd' ? !digit(s[i]) : s[i] != shape[i]) {
			return Verdict::BAD;
		}
	}
	auto two = [&](size_t i) { return (s[i] - '0') * 10 + (s[i + 1] - '0'); };
	r.year = two(0) * 100 + two(2);
	r.month = two(5);
	r.day = two(8);
	r.hour = two(11);
	r.minute = two(14);
	r.second = two(17);
	r.ms = 0;
	r.offset = 0;
	size_t p = 19;
	if (p < s.length() && s[p] == '.') {
		++p;
		int n = 0;
		int scale = 100;
		while (p < s.length() && digit(s[p])) {
			r.ms += scale * (s[p] - '0');
			scale /= 10;
			++p;
			++n;
		}
		if (n == 0) {
			return Verdict::BAD;
		}
	}
	bool range = true;
	if (p < s.length()) {
		if (s[p] == 'Z') {
			++p;
		} else if (s[p] == '+' || s[p] == '-') {
			if (s.length() - p != 6 || !digit(s[p + 1]) || !digit(s[p + 2]) || s[p + 3] != ':' || !digit(s[p + 4]) || !digit(s[p + 5])) {
				return Verdict::BAD;
			}
			int const h = two(p + 1);
			int const m = two(p + 4);
			r.offset = (h * 60 + m) * (s[p] == '-' ? -1 : 1);
			range = m <= 59 && r.offset >= -12 * 60 - 59 && r.offset <= 14 * 60 + 59;
			p += 6;
		}
	}
	if (p != s.length()) {
		return Verdict::BAD;
	}
	if (!range || r.year < 1400 || r.month < 1 || r.month > 12 || r.day < 1 || r.day > month_days(r.year, r.month) || r.hour > 23 || r.minute > 59 || r.second > 59) {
		return Verdict::OUT_OF_RANGE;
	}
	return Verdict::GOOD;
}

static void try_text(string const& s)
{
	Ref want;
	auto const verdict = recognise(s, want);
	if (verdict == Verdict::OUT_OF_RANGE) {
		mc::extra("out_of_range_not_judged");
		return;
	}
	mc::trace();
	mc::transition();
	string outcome;
	try {
		dcp::LocalTime t(s);
		mc::transition();
		if (verdict == Verdict::BAD) {
			mc::violation("malformed time '" + s + "' was accepted as " + t.as_string(true, true));
			return;
		}
		auto const d = differs(t, want);
		if (!d.empty()) {
			mc::violation("'" + s + "' was read wrongly: " + d);
			return;
		}
		outcome = t.as_string(true, true);
	} catch (dcp::TimeFormatError& e) {
		if (verdict != Verdict::BAD) {
			mc::violation("well-formed time '" + s + "' was refused");
			return;
		}
		outcome = "refused";
	} catch (std::exception& e) {
		mc::violation("'" + s + "' gave another error: " + e.what());
		return;
	}
	mc::outcome(outcome);
	auto const kind = verdict == Verdict::BAD ? "refused" : "accepted";
	if (mc::want_sample(kind)) {
		mc::sample(kind, "'" + s + "' -> " + outcome);
	}
}

static void round_trip(Ref const& r)
{
	auto const t = make(r);
	mc::trace();
	mc::state(ref_string(r, true, true));
	for (int ms = 0; ms < 2; ++ms) {
		for (int tz = 0; tz < 2; ++tz) {
			auto const text = t.as_string(ms, tz);
			auto const want = ref_string(r, ms, tz);
			mc::transition(2);
			MC_CHECK(text == want, "as_string(%d, %d) gives %s rather than %s", ms, tz, text.c_str(), want.c_str());
			Ref back = r;
			if (!ms) {
				back.ms = 0;
			}
			if (!tz) {
				back.offset = 0;
			}
			string d;
			try {
				d = differs(dcp::LocalTime(text), back);
			} catch (std::exception& e) {
				d = string("refused: ") + e.what();
			}
			MC_CHECK(d.empty(), "%s is read back wrongly: %s", text.c_str(), d.c_str());
		}
	}
	MC_CHECK(t.date() == ref_date(r), "date() gives %s", t.date().c_str());
	MC_CHECK(t.time_of_day(true, true) == ref_string(r, true, false).substr(11), "time_of_day(true, true) gives %s", t.time_of_day(true, true).c_str());
	MC_CHECK(t.time_of_day(true, false) == ref_string(r, false, false).substr(11), "time_of_day(true, false) gives %s", t.time_of_day(true, false).c_str());
	MC_CHECK(t.time_of_day(false, false) == ref_string(r, false, false).substr(11, 5), "time_of_day(false, false) gives %s", t.time_of_day(false, false).c_str());
	mc::outcome(t.as_string(true, true));
	if (mc::want_sample("round trip")) {
		mc::sample("round trip", t.as_string(true, true));
	}
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	int64_t unit = 0;

	/* Every value of each field, with the others at two corners */
	Ref corners[2];
	corners[0] = Ref();
	corners[1].year = 2016; corners[1].month = 12; corners[1].day = 31; corners[1].hour = 23; corners[1].minute = 59; corners[1].second = 59; corners[1].ms = 999; corners[1].offset = -570;
	for (int c = 0; c < 2; ++c) {
		struct { int Ref::* field; int from; int to; } const sweeps[] = {
			{ &Ref::year, 1401, 9998 }, { &Ref::month, 1, 12 }, { &Ref::day, 1, 31 }, { &Ref::hour, 0, 23 }, { &Ref::minute, 0, 59 },
			{ &Ref::second, 0, 59 }, { &Ref::ms, 0, 999 }, { &Ref::offset, -12 * 60 - 59, 14 * 60 + 59 }
		};
		int n = 0;
		for (auto const& s: sweeps) {
			for (int v = s.from; v <= s.to; ++v) {
				if (!mc::mine(unit++) || !mc::at("sweep", { c, n, v })) {
					continue;
				}
				Ref r = corners[c];
				if (s.field == &Ref::month) {
					r.day = std::min(r.day, month_days(r.year, v));
				}
				r.*(s.field) = v;
				round_trip(r);
			}
			++n;
		}
		/* Every time of day to the minute with a few offsets */
		for (int m = 0; m < 1440; ++m) {
			for (int o: { 0, -30, 30, 765, -719 }) {
				if (!mc::mine(unit++) || !mc::at("day", { c, m, o })) {
					continue;
				}
				Ref r = corners[c];
				r.hour = m / 60;
				r.minute = m % 60;
				r.offset = o;
				round_trip(r);
			}
		}
	}

	/* Fractions of a second: every string of up to 4 (5) digits, some longer ones, each with every kind of zone */
	char const* zones[] = { "", "Z", "+04:30", "-09:30", "-00:30", "+00:00" };
	int const digits = mc::thorough() ? 5 : 4;
	for (int z = 0; z < 6; ++z) {
		for (int n = 1; n <= digits; ++n) {
			int limit = 1;
			for (int i = 0; i < n; ++i) {
				limit *= 10;
			}
			for (int v = 0; v < limit; ++v) {
				if (!mc::mine(unit++) || !mc::at("fraction", { z, n, v })) {
					continue;
				}
				mc::state(mc::format("f%d:%d:%d", z, n, v));
				try_text("2011-11-20T01:06:59." + mc::format("%0*d", n, v) + zones[z]);
			}
		}
		for (int n = 0; n < 40; ++n) {
			for (char d: string("059")) {
				if (!mc::mine(unit++) || !mc::at("long", { z, n, d })) {
					continue;
				}
				try_text("2011-11-20T01:06:59." + string(n, d) + zones[z]);
			}
		}
	}

	/* Everything within one (two) edits of a good time */
	vector<string> const templates = {
		"2013-01-05T18:06:59",
		"2013-01-05T18:06:59Z",
		"2013-01-05T18:06:59+04:00",
		"2011-11-20T01:06:59-09:30",
		"2011-11-20T01:06:59.456-09:30",
		"2011-11-20T01:06:59.4Z",
		"2011-11-20T01:06:59.45",
		"2011-11-20T01:06:59.45678901+00:30"
	};
	string const few = "0159-+:.TZ z/";
	for (size_t t = 0; t < templates.size(); ++t) {
		auto const& base = templates[t];
		for (size_t p = 0; p <= base.length(); ++p) {
			if (mc::mine(unit++)) {
				if (p < base.length() && mc::at("delete", { int64_t(t), int64_t(p) })) {
					try_text(base.substr(0, p) + base.substr(p + 1));
				}
				if (mc::at("truncate", { int64_t(t), int64_t(p) })) {
					try_text(base.substr(0, p));
				}
			}
			for (int c = 0; c < 256; ++c) {
				if (!mc::mine(unit++)) {
					continue;
				}
				if (p < base.length() && mc::at("change", { int64_t(t), int64_t(p), c })) {
					auto s = base;
					s[p] = char(c);
					try_text(s);
				}
				if (mc::at("insert", { int64_t(t), int64_t(p), c })) {
					try_text(base.substr(0, p) + char(c) + base.substr(p));
				}
			}
			/* two characters changed to any of a few */
			for (size_t q = p + 1; q < base.length(); ++q) {
				for (size_t a = 0; a < few.length(); ++a) {
					if (!mc::mine(unit++)) {
						continue;
					}
					for (size_t b = 0; b < few.length(); ++b) {
						if (p < base.length() && mc::at("change2", { int64_t(t), int64_t(p), int64_t(q), int64_t(a), int64_t(b) })) {
							auto s = base;
							s[p] = few[a];
							s[q] = few[b];
							try_text(s);
						}
						if (mc::thorough() && p < base.length() && mc::at("change-insert", { int64_t(t), int64_t(p), int64_t(q), int64_t(a), int64_t(b) })) {
							auto s = base;
							s[p] = few[a];
							s.insert(q, 1, few[b]);
							try_text(s);
						}
					}
				}
			}
		}
	}
	mc::finish();
}
