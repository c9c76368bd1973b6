/* C05: look-up tables hold the function they are for, whatever has been asked for before; tables that have been
 * given out stay as they were; and a failure to make one leaves nothing behind.
 */

#include "tf_ref.h"
#include "mc.h"
#include <new>

using std::shared_ptr;
using std::string;
using std::vector;

static int64_t fail_after = -1;
static int64_t allocations = 0;

void* operator new(size_t n)
{
	++allocations;
	if (fail_after >= 0 && fail_after-- == 0) {
		throw std::bad_alloc();
	}
	void* p = malloc(n);
	if (!p) {
		throw std::bad_alloc();
	}
	return p;
}

void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

struct Request
{
	double from, to;
	int bits;
	bool inverse;
	/** 0 for a table of doubles */
	int scale;

	string describe() const
	{
		return mc::format("%s table, %d bits, from %g to %g%s", scale ? mc::format("integer (scale %d)", scale).c_str() : "floating-point", bits, from, to, inverse ? ", inverse" : "");
	}
};

static long double expected(Curve const& c, Request const& r, int64_t i)
{
	long double const x = (static_cast<long double>(i) / ((1LL << r.bits) - 1)) * (static_cast<long double>(r.to) - r.from) + r.from;
	return r.inverse ? c.inverse(x) : c.forward(x);
}

/** Near the knee of a two-part curve rounding may put the argument either side; allow the value on either side */
static bool close(Curve const& c, Request const& r, int64_t i, double got)
{
	auto const e = expected(c, r, i);
	long double const tolerance = 1e-9L + fabsl(e) * 1e-8L;
	if (fabsl(got - e) <= tolerance) {
		return true;
	}
	long double const x = (static_cast<long double>(i) / ((1LL << r.bits) - 1)) * (static_cast<long double>(r.to) - r.from) + r.from;
	for (int d = -1; d <= 1; d += 2) {
		auto const y = x + d * 1e-12L;
		auto const f = r.inverse ? c.inverse(y) : c.forward(y);
		if (fabsl(got - f) <= tolerance) {
			return true;
		}
	}
	return false;
}

static string check_table(Curve const& c, Request const& r, vector<double> const& lut)
{
	if (int64_t(lut.size()) != (1LL << r.bits)) {
		return mc::format("has %d entries", int(lut.size()));
	}
	for (size_t i = 0; i < lut.size(); ++i) {
		if (!close(c, r, i, lut[i])) {
			return mc::format("entry %d is %.12g, not %.12Lg", int(i), lut[i], expected(c, r, i));
		}
	}
	return "";
}

static string check_table(Curve const& c, Request const& r, vector<int> const& lut)
{
	if (int64_t(lut.size()) != (1LL << r.bits)) {
		return mc::format("has %d entries", int(lut.size()));
	}
	for (size_t i = 0; i < lut.size(); ++i) {
		auto const e = expected(c, r, i) * r.scale;
		if (fabsl(lut[i] - e) > 0.5L + 1e-7L * r.scale) {
			return mc::format("entry %d is %d, but the exact value is %.9Lg", int(i), lut[i], e);
		}
	}
	return "";
}

static string ask(Curve const& c, dcp::TransferFunction const& f, Request const& r)
{
	mc::transition();
	if (r.scale) {
		return check_table(c, r, f.int_lut(r.from, r.to, r.bits, r.inverse, r.scale));
	}
	return check_table(c, r, f.double_lut(r.from, r.to, r.bits, r.inverse));
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	auto const all = curves();
	int64_t unit = 0;

	/* Every table on its own, from a new function */
	double const ranges[][2] = { { 0, 1 }, { 0, 0.062 }, { 0.062, 1 }, { 0.25, 0.75 }, { 0.01, 0.02 }, { 0, 0.5 }, { 0, 2 }, { 0.5, 3.5 }, { 1, 0 } };
	for (size_t c = 0; c < all.size(); ++c) {
		for (int range = 0; range < 9; ++range) {
			for (int bits = 1; bits <= 16; ++bits) {
				if (!mc::mine(unit++)) {
					continue;
				}
				for (int inverse = 0; inverse < 2; ++inverse) {
					for (int scale: { 0, 1, 255, 4095, 65535 }) {
						/* Values above 1 may be too big for integers */
						if ((bits > 12 && scale != 0 && scale != 4095) || (scale && ranges[range][1] > 1)) {
							continue;
						}
						if (!mc::at("table", { int64_t(c), range, bits, inverse, scale })) {
							continue;
						}
						Request const r = { ranges[range][0], ranges[range][1], bits, bool(inverse), scale };
						auto f = all[c].make();
						mc::trace();
						mc::state(all[c].name + r.describe());
						auto const bad = ask(all[c], *f, r);
						MC_CHECK(bad.empty(), "%s: %s %s", all[c].name.c_str(), r.describe().c_str(), bad.c_str());
						mc::outcome(all[c].name + r.describe());
						if (mc::want_sample("table")) {
							mc::sample("table", all[c].name + ", " + r.describe());
						}
					}
				}
			}
		}
	}

	/* The table is the function, and the inverse table its inverse: going there and back changes nothing */
	for (size_t c = 0; c < all.size(); ++c) {
		for (int bits = 2; bits <= 12; ++bits) {
			if (!mc::mine(unit++) || !mc::at("inverse", { int64_t(c), bits })) {
				continue;
			}
			auto f = all[c].make();
			auto const& forward = f->double_lut(0, 1, bits, false);
			int const n = 1 << bits;
			for (int i = 0; i < n; ++i) {
				/* a two-entry table whose first entry is the inverse at the value that came out */
				double const y = forward[i];
				if (y < 0 || y >= 0.999) {
					continue;
				}
				auto const back = f->double_lut(y, 1, 1, true)[0];
				double const x = double(i) / (n - 1);
				mc::transition(2);
				MC_CHECK(fabs(back - x) < 5e-5, "%s: %g gives %g, whose inverse is %g", all[c].name.c_str(), x, y, back);
			}
			mc::trace();
			mc::outcome(mc::format("inverse%d:%d", int(c), bits));
		}
	}

	/* Histories of requests to two functions: every sequence, with everything given out checked again at the end */
	{
		vector<Request> const requests = {
			{ 0, 1, 3, false, 0 }, { 0, 1, 3, true, 0 }, { 0, 0.5, 3, false, 0 }, { 0.5, 0, 3, false, 0 }, { 0, 1, 2, false, 0 },
			{ 0, 1, 3, false, 1 }, { 0, 1, 3, false, 255 }, { 0, 1, 3, true, 255 }, { 0.5, 1, 3, false, 255 }, { 0, 1, 2, false, 255 }, { 0, 1, 3, false, 256 }
		};
		vector<std::pair<Curve, Curve>> const pairs = {
			{ gamma_curve(2.6), gamma_curve(2.2) },
			{ modified_curve(2.4, 0.04045, 0.055, 12.92), modified_curve(2.4, 0.3, 0.055, 12.92) },
			{ identity_curve(), gamma_curve(1.5) },
			{ slog3_curve(), gamma_curve(2.6) }
		};
		int const depth = mc::thorough() ? 5 : 3;
		int const n = requests.size() * 2;
		for (size_t p = 0; p < pairs.size(); ++p) {
			for (int first = 0; first < n; ++first) {
				if (!mc::mine(unit++)) {
					continue;
				}
				mc::sequences(n, depth - 1, [&](vector<int> const& rest) {
					string key = mc::format("history:%d:%d", int(p), first);
					for (auto i: rest) {
						key += mc::format(":%d", i);
					}
					if (!mc::at(key)) {
						return;
					}
					vector<int> sequence = rest;
					sequence.insert(sequence.begin(), first);
					Curve const* curve[2] = { &pairs[p].first, &pairs[p].second };
					shared_ptr<dcp::TransferFunction> f[2] = { curve[0]->make(), curve[1]->make() };
					struct Given { int which; Request request; vector<double> const* d; vector<int> const* i; };
					vector<Given> given;
					for (auto s: sequence) {
						int const which = s % 2;
						auto const& r = requests[s / 2];
						Given g = { which, r, nullptr, nullptr };
						if (r.scale) {
							g.i = &f[which]->int_lut(r.from, r.to, r.bits, r.inverse, r.scale);
						} else {
							g.d = &f[which]->double_lut(r.from, r.to, r.bits, r.inverse);
						}
						mc::transition();
						given.push_back(g);
					}
					mc::trace();
					mc::state(key);
					for (auto const& g: given) {
						auto const bad = g.d ? check_table(*curve[g.which], g.request, *g.d) : check_table(*curve[g.which], g.request, *g.i);
						MC_CHECK(bad.empty(), "after %d requests, %s: %s %s", depth, curve[g.which]->name.c_str(), g.request.describe().c_str(), bad.c_str());
					}
					if (mc::want_sample("history")) {
						mc::sample("history", key);
					}
				});
			}
		}
	}

	/* Many tables, with every one that was given out checked again after all have been made */
	for (size_t c = 0; c < all.size(); ++c) {
		if (!mc::mine(unit++) || !mc::at("many", { int64_t(c) })) {
			continue;
		}
		auto f = all[c].make();
		vector<std::pair<Request, vector<double> const*>> doubles;
		vector<std::pair<Request, vector<int> const*>> ints;
		for (int i = 0; i < 300; ++i) {
			Request const r = { i / 400.0, 1, 2 + i % 3, bool(i & 1), 0 };
			doubles.push_back({ r, &f->double_lut(r.from, r.to, r.bits, r.inverse) });
			Request const s = { i / 400.0, 1, 2 + i % 3, bool(i & 1), 100 + i };
			ints.push_back({ s, &f->int_lut(s.from, s.to, s.bits, s.inverse, s.scale) });
			mc::transition(2);
		}
		for (auto const& i: doubles) {
			auto const bad = check_table(all[c], i.first, *i.second);
			MC_CHECK(bad.empty(), "after many requests, %s: %s %s", all[c].name.c_str(), i.first.describe().c_str(), bad.c_str());
		}
		for (auto const& i: ints) {
			auto const bad = check_table(all[c], i.first, *i.second);
			MC_CHECK(bad.empty(), "after many requests, %s: %s %s", all[c].name.c_str(), i.first.describe().c_str(), bad.c_str());
		}
		mc::trace();
		mc::state("many" + all[c].name);
	}

	/* Two tables from one function, over ranges that differ by less and less at one end or the other */
	for (size_t c = 0; c < all.size(); ++c) {
		for (int range = 0; range < 6; ++range) {
			if (!mc::mine(unit++)) {
				continue;
			}
			for (int k = 3; k <= 25; ++k) {
				for (int which = 0; which < 16; ++which) {
					if (!mc::at("near", { int64_t(c), range, k, which })) {
						continue;
					}
					Request a = { ranges[range][0], ranges[range][1], 4, bool(which & 1), which & 2 ? 1000000 : 0 };
					Request b = a;
					double const d = pow(2, -k);
					if (a.to - a.from <= d) {
						continue;
					}
					if (which & 4) {
						b.from += d;
					} else {
						b.to -= d;
					}
					if (which & 8) {
						std::swap(a, b);
					}
					auto f = all[c].make();
					for (auto const& r: { a, b, a }) {
						auto const bad = ask(all[c], *f, r);
						MC_CHECK(bad.empty(), "%s: %s (%.12g to %.12g, after one which is nearly the same) %s", all[c].name.c_str(), r.describe().c_str(), r.from, r.to, bad.c_str());
					}
					mc::trace();
					mc::state(mc::format("near%d:%d:%d:%d", int(c), range, k, which));
				}
			}
		}
	}

	/* Memory running out at each allocation in turn: afterwards the same request, and others, give the right tables */
	for (size_t c = 0; c < all.size(); ++c) {
		for (int kind = 0; kind < 4; ++kind) {
			if (!mc::mine(unit++)) {
				continue;
			}
			Request const r = { 0, 1, 3, kind == 1, kind >= 2 ? 255 : 0 };
			for (int n = 0; ; ++n) {
				if (n > 200) {
					mc::violation("more than 200 allocations for one table");
				}
				auto f = all[c].make();
				if (kind == 3) {
					f->double_lut(0, 1, 3, false);
				}
				bool failed = false;
				bool const wanted = mc::at("memory", { int64_t(c), kind, n });
				fail_after = n;
				try {
					if (r.scale) {
						f->int_lut(r.from, r.to, r.bits, r.inverse, r.scale);
					} else {
						f->double_lut(r.from, r.to, r.bits, r.inverse);
					}
				} catch (std::bad_alloc&) {
					failed = true;
				}
				bool const used = fail_after < 0;
				fail_after = -1;
				if (wanted) {
					mc::trace();
					mc::extra("allocation_failures_injected");
					mc::state(mc::format("memory%d:%d:%d", int(c), kind, n));
					for (int again = 0; again < 2; ++again) {
						auto const bad = ask(all[c], *f, r);
						MC_CHECK(bad.empty(), "after memory ran out at allocation %d, %s: %s %s", n, all[c].name.c_str(), r.describe().c_str(), bad.c_str());
						Request const d = { 0, 1, 3, r.inverse, 0 };
						auto const bad2 = ask(all[c], *f, d);
						MC_CHECK(bad2.empty(), "after memory ran out at allocation %d, %s: %s %s", n, all[c].name.c_str(), d.describe().c_str(), bad2.c_str());
					}
				}
				if (!failed && !used) {
					break;
				}
			}
		}
	}

	mc::finish();
}
