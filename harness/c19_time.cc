/* C19: times within a DCP.  The reference is rational arithmetic in integers. */

#include "dcp_time.h"
#include "exceptions.h"
#include "mc.h"
#include <cmath>
#include <sstream>

using std::string;
using std::vector;
using dcp::Time;
typedef __int128 Wide;

static vector<int> const rates = { 1, 2, 24, 25, 30, 48, 50, 60, 96, 100, 120, 250, 1000 };

static string text(Time const& t)
{
	return mc::format("%d:%d:%d:%d/%d", t.h, t.m, t.s, t.e, t.tcr);
}

/** @return t in seconds times its rate */
static int64_t units(Time const& t)
{
	return t.e + int64_t(t.tcr) * (t.s + 60LL * (t.m + 60LL * t.h));
}

static bool canonical(Time const& t)
{
	return t.tcr > 0 && t.e >= 0 && t.e < t.tcr && t.s >= 0 && t.s < 60 && t.m >= 0 && t.m < 60 && t.h >= 0;
}

static int compare(Time const& a, Time const& b)
{
	Wide const x = Wide(units(a)) * b.tcr;
	Wide const y = Wide(units(b)) * a.tcr;
	return x < y ? -1 : (x > y ? 1 : 0);
}

/** @return numerator and denominator of n/d are the same number as those of t */
static bool is(Time const& t, Wide n, Wide d)
{
	return Wide(units(t)) * d == n * t.tcr;
}

static vector<Time> grid()
{
	vector<Time> all;
	for (int h: { 0, 1, 23 }) {
		for (int m: { 0, 1, 59 }) {
			for (int s: { 0, 1, 59 }) {
				for (int r: rates) {
					vector<int> es = { 0 };
					for (int e: { 1, r / 4, r / 2, r - 1 }) {
						if (e < r && e > es.back()) {
							es.push_back(e);
						}
					}
					for (int e: es) {
						all.push_back(Time(h, m, s, e, r));
					}
				}
			}
		}
	}
	return all;
}

static void pair(Time const& a, Time const& b)
{
	mc::transition();
	int const c = compare(a, b);
	MC_CHECK(
		(a == b) == (c == 0) && (a != b) == (c != 0) && (a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0),
		"%s and %s are not compared as their times", text(a).c_str(), text(b).c_str()
		);

	auto const sum = a + b;
	MC_CHECK(canonical(sum) && is(sum, Wide(units(a)) * b.tcr + Wide(units(b)) * a.tcr, Wide(a.tcr) * b.tcr), "%s plus %s gave %s", text(a).c_str(), text(b).c_str(), text(sum).c_str());
	auto assigned = a;
	assigned += b;
	MC_CHECK(compare(assigned, sum) == 0 && canonical(assigned), "%s += %s gave %s", text(a).c_str(), text(b).c_str(), text(assigned).c_str());
	MC_CHECK(a + b == b + a, "the sum of %s and %s depends on their order", text(a).c_str(), text(b).c_str());

	if (c >= 0) {
		auto const difference = a - b;
		MC_CHECK(
			canonical(difference) && is(difference, Wide(units(a)) * b.tcr - Wide(units(b)) * a.tcr, Wide(a.tcr) * b.tcr),
			"%s minus %s gave %s", text(a).c_str(), text(b).c_str(), text(difference).c_str()
			);
		auto assigned = a;
		assigned -= b;
		MC_CHECK(compare(assigned, difference) == 0, "%s -= %s gave %s", text(a).c_str(), text(b).c_str(), text(assigned).c_str());
	}

	if (units(b) != 0) {
		double const ratio = (double(units(a)) / a.tcr) / (double(units(b)) / b.tcr);
		double const got = a / b;
		MC_CHECK(fabs(got - ratio) <= ratio * 1e-6, "%s divided by %s gave %.9g", text(a).c_str(), text(b).c_str(), got);
	}
}

static void single(Time const& t)
{
	MC_CHECK(t.as_editable_units() == units(t), "%s has %lld units", text(t).c_str(), (long long) t.as_editable_units());
	MC_CHECK(fabs(t.as_seconds() - double(units(t)) / t.tcr) < 1e-6, "%s is %.9g seconds", text(t).c_str(), t.as_seconds());
	for (int r: rates) {
		mc::transition();
		Wide const n = Wide(units(t)) * r;
		int64_t const floor = n / t.tcr;
		int64_t const ceil = (n + t.tcr - 1) / t.tcr;
		MC_CHECK(t.as_editable_units_floor(r) == floor, "%s rounded down to %d is %lld", text(t).c_str(), r, (long long) t.as_editable_units_floor(r));
		MC_CHECK(t.as_editable_units_ceil(r) == ceil, "%s rounded up to %d is %lld", text(t).c_str(), r, (long long) t.as_editable_units_ceil(r));

		auto const b = t.rebase(r);
		Wide const out = Wide(units(b)) * 2 * t.tcr;
		Wide const exact = n * 2;
		Wide const wrong = out > exact ? out - exact : exact - out;
		MC_CHECK(b.tcr == r && canonical(b) && wrong <= t.tcr, "%s at rate %d became %s", text(t).c_str(), r, text(b).c_str());
	}
	auto const smpte = t.as_string(dcp::Standard::SMPTE);
	char expect[64];
	snprintf(expect, sizeof(expect), "%02d:%02d:%02d:%02d", t.h, t.m, t.s, t.e);
	MC_CHECK(smpte == expect, "%s is written as %s", text(t).c_str(), smpte.c_str());
	auto const back = Time(smpte, t.tcr);
	MC_CHECK(back.h == t.h && back.m == t.m && back.s == t.s && back.e == t.e && back.tcr == t.tcr, "%s was read as %s", smpte.c_str(), text(back).c_str());
	auto const interop = t.as_string(dcp::Standard::INTEROP);
	snprintf(expect, sizeof(expect), "%02d:%02d:%02d:%03d", t.h, t.m, t.s, t.e);
	MC_CHECK(interop == expect, "%s is written as %s", text(t).c_str(), interop.c_str());
	if (t.tcr == 250) {
		auto const back = Time(interop, boost::optional<int>());
		MC_CHECK(back.h == t.h && back.m == t.m && back.s == t.s && back.e == t.e && back.tcr == 250, "%s was read as %s", interop.c_str(), text(back).c_str());
	}
	if (t.tcr == 1000) {
		char point[64];
		snprintf(point, sizeof(point), "%02d:%02d:%02d.%03d", t.h, t.m, t.s, t.e);
		auto const back = Time(point, boost::optional<int>());
		MC_CHECK(compare(back, t) == 0, "%s was read as %s", point, text(back).c_str());
	}
	mc::state(text(t));
}

static void frame(int64_t n, int rate)
{
	mc::transition();
	Time const t(int(n), double(rate), rate);
	MC_CHECK(canonical(t) && t.tcr == rate && units(t) == n, "frame %lld at %d was made into %s", (long long) n, rate, text(t).c_str());
}

/** Times of all shapes: 3 to 5 parts, each of 0 to 4 digits, and perhaps a point in the last */
static void shape(vector<int> const& lengths, int point)
{
	string const digits = "1023";
	string s;
	for (size_t i = 0; i < lengths.size(); ++i) {
		if (i) {
			s += (i + 1 == lengths.size() && point) ? '.' : ':';
		}
		s += digits.substr(0, lengths[i]);
	}
	bool short_parts = true;
	for (size_t i = 0; i < 3 && i < lengths.size(); ++i) {
		short_parts = short_parts && lengths[i] >= 1 && lengths[i] <= 2;
	}
	bool const good_end = lengths.size() == 4 && lengths[3] >= 1 && lengths[3] <= 3;
	auto value = [&digits](int length) { return atoi(digits.substr(0, length).c_str()); };
	for (int rate: { 0, 24, 1000 }) {
		mc::transition();
		bool const good = short_parts && good_end && (rate == 0 || !point);
		bool ok = false;
		Time t;
		try {
			t = Time(s, rate ? boost::optional<int>(rate) : boost::optional<int>());
			ok = true;
		} catch (dcp::ReadError&) {
		}
		MC_CHECK(ok == good, "%s is %s as a time of rate %d", s.c_str(), ok ? "accepted" : "refused", rate);
		/* Fewer than three digits after a point are not judged: what they mean is not clear */
		if (good && !(point && lengths[3] != 3)) {
			MC_CHECK(
				t.h == value(lengths[0]) && t.m == value(lengths[1]) && t.s == value(lengths[2]) && t.e == value(lengths[3]) && t.tcr == (rate ? rate : (point ? 1000 : 250)),
				"%s is read as %s", s.c_str(), text(t).c_str()
				);
		}
		mc::outcome(s + (ok ? text(t) : "refused"));
	}
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	auto const all = grid();
	int64_t unit = 0;

	for (size_t i = 0; i < all.size(); ++i) {
		if (!mc::mine(unit++)) {
			continue;
		}
		if (mc::at("one", { int64_t(i) })) {
			single(all[i]);
		}
		for (size_t j = 0; j < all.size(); ++j) {
			if (mc::at("pair", { int64_t(i), int64_t(j) })) {
				pair(all[i], all[j]);
			}
		}
	}
	for (int rate: rates) {
		for (int e = 0; e < rate; ++e) {
			if (mc::mine(unit++) && mc::at("units", { rate, e })) {
				single(Time(0, 59, 59, e, rate));
			}
		}
		for (int64_t second: { 0, 1, 59, 60, 61, 3599, 3600, 3601, 7199, 35999, 86399, 86400 }) {
			for (int64_t e = 0; e < rate; ++e) {
				if (mc::mine(unit++) && mc::at("frame", { second, e, rate })) {
					frame(second * rate + e, rate);
				}
			}
		}
		/* Frames counted at another rate, and fractions of a second */
		for (int from: rates) {
			for (int n = 0; n < 4 * from; ++n) {
				if (mc::mine(unit++) && mc::at("convert", { n, from, rate })) {
					mc::transition();
					Time const t(n, double(from), rate);
					Wide const wrong = Wide(units(t)) * 2 * from - Wide(n) * 2 * rate;
					MC_CHECK(canonical(t) && t.tcr == rate && wrong <= from && -wrong <= from, "frame %d at %d was made into %s", n, from, text(t).c_str());
				}
			}
		}
		for (int n = 0; n < 4000; ++n) {
			if (mc::mine(unit++) && mc::at("seconds", { n, rate })) {
				mc::transition();
				double const seconds = 3599 + n / 2000.0;
				Time const t(seconds, rate);
				MC_CHECK(canonical(t) && t.tcr == rate && fabs(double(units(t)) / rate - seconds) <= 0.5 / rate + 1e-6, "%.4f seconds were made into %s", seconds, text(t).c_str());
				mc::outcome(text(t));
			}
		}
	}
	for (int parts = 1; parts <= 5; ++parts) {
		mc::sequences(5, parts, [&](vector<int> const& v) {
			/* Five parts with a point have one which is not a number, which is not judged */
			for (int point = 0; point < (parts == 5 ? 1 : 2); ++point) {
				string key = "shape";
				for (auto i: v) {
					key += mc::format(":%d", i);
				}
				if (mc::mine(unit++) && mc::at(key + (point ? ":." : "::"))) {
					shape(v, point);
				}
			}
		});
	}
	/* A time put somewhere and taken away again */
	if (mc::mine(unit++) && mc::at("zero")) {
		Time z;
		MC_CHECK(units(z) == 0 && z.as_seconds() == 0 && z == Time(0, 0, 0, 0, 24), "a new time is not zero");
		std::stringstream s;
		s << Time(1, 2, 3, 4, 24);
		MC_CHECK(s.str() == "1:2:3.4", "a time is put in a stream as %s", s.str().c_str());
	}
	mc::finish();
}
