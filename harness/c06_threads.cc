/* C06: tables and presets shared between threads, and separate objects used in separate threads */

#include "bitstream.h"
#include "colour_conversion.h"
#include "content_kind.h"
#include "file.h"
#include "filesystem.h"
#include "fsk.h"
#include "h_align.h"
#include "local_time.h"
#include "mc.h"
#include "name_format.h"
#include "piecewise_lut.h"
#include "schedules.h"
#include "tf_ref.h"
#include "v_align.h"
#include <memory>

using std::function;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;
using dcp::ColourConversion;
using dcp::TransferFunction;

struct Request
{
	bool integer;
	double from, to;
	int bits;
	bool inverse;
	int scale;
};

static vector<Request> const requests = {
	{ false, 0, 1, 2, false, 0 },
	{ false, 0, 1, 2, true, 0 },
	{ false, 0, 0.5, 2, false, 0 },
	{ true, 0, 1, 2, false, 100 },
	{ true, 0, 1, 2, false, 4095 },
	{ false, 0, 1, 1, false, 0 },
};

struct Function
{
	char const* name;
	function<shared_ptr<TransferFunction> ()> make;
	Curve curve;
};

static shared_ptr<TransferFunction> shared;
static Curve const* curve;

static vector<long double> expected(Request const& r, Curve const& c)
{
	vector<long double> v;
	int const n = 1 << r.bits;
	for (int i = 0; i < n; ++i) {
		long double const x = r.from + (r.to - r.from) * i / (n - 1);
		v.push_back((r.inverse ? c.inverse(x) : c.forward(x)) * (r.integer ? r.scale : 1));
	}
	return v;
}

/** A table that a thread was given */
struct Given
{
	vector<double> const* d = nullptr;
	vector<int> const* i = nullptr;
	int request;
};

static void check_table(Given const& g, Curve const& c, char const* when)
{
	auto const& r = requests[g.request];
	auto const want = expected(r, c);
	size_t const n = g.d ? g.d->size() : g.i->size();
	if (n != want.size()) {
		sched::violation("%s, table %d has %d entries", when, g.request, int(n));
	}
	for (size_t k = 0; k < n; ++k) {
		long double const got = g.d ? (*g.d)[k] : (*g.i)[k];
		if (fabsl(got - want[k]) > (g.d ? 1e-9L : 0.50001L)) {
			sched::violation("%s, entry %d of table %d is %Lg rather than %Lg", when, int(k), g.request, got, want[k]);
		}
	}
}

static Given ask(TransferFunction const& f, int request)
{
	auto const& r = requests[request];
	Given g;
	g.request = request;
	sched::count_allocations = true;
	if (r.integer) {
		g.i = &f.int_lut(r.from, r.to, r.bits, r.inverse, r.scale);
	} else {
		g.d = &f.double_lut(r.from, r.to, r.bits, r.inverse);
	}
	sched::count_allocations = false;
	return g;
}

static vector<Given> given[3];

static void do_requests(int thread, vector<int> const& sequence, bool may_fail)
{
	sched::count_allocations = false;
	for (auto i: sequence) {
		try {
			given[thread].push_back(ask(*shared, i));
			check_table(given[thread].back(), *curve, "in a thread");
		} catch (std::bad_alloc&) {
			sched::count_allocations = false;
			if (!may_fail) {
				throw;
			}
		}
	}
	/* what it was given before is still good */
	for (auto const& g: given[thread]) {
		check_table(g, *curve, "at the end of a thread");
	}
}

static vector<Function> functions;

static void make_functions()
{
	functions = {
		{ "gamma", []() { return make_shared<dcp::GammaTransferFunction>(2.2); }, gamma_curve(2.2) },
		{ "modified gamma", []() { return make_shared<dcp::ModifiedGammaTransferFunction>(2.4, 0.04045, 0.055, 12.92); }, modified_curve(2.4, 0.04045, 0.055, 12.92) },
		{ "S-Gamut3", []() { return make_shared<dcp::SGamut3TransferFunction>(); }, slog3_curve() },
		{ "identity", []() { return make_shared<dcp::IdentityTransferFunction>(); }, identity_curve() },
	};
}

static sched::Scenario tables(int f, vector<vector<int>> const& sequences, int fail_thread = -1, int fail_allocation = -1)
{
	sched::Scenario s;
	s.setup = [f]() {
		shared = functions[f].make();
		curve = &functions[f].curve;
		for (auto& g: given) {
			g.reserve(8);
		}
	};
	for (size_t t = 0; t < sequences.size(); ++t) {
		auto const sequence = sequences[t];
		s.threads.push_back([t, sequence, fail_thread]() { do_requests(t, sequence, int(t) == fail_thread); });
	}
	s.finish = []() {
		string o;
		for (auto const& i: given) {
			for (auto const& g: i) {
				check_table(g, *curve, "after the threads have ended");
				/* asking again gives the same thing */
				auto const again = ask(*shared, g.request);
				check_table(again, *curve, "asked for again");
				o += char('0' + g.request);
			}
			o += ',';
		}
		sched::outcome(o);
	};
	s.fail_thread = fail_thread;
	s.fail_allocation = fail_allocation;
	return s;
}

static ColourConversion const& (*const presets[])() = {
	&ColourConversion::srgb_to_xyz, &ColourConversion::rec601_to_xyz, &ColourConversion::rec709_to_xyz, &ColourConversion::p3_dci_to_xyz, &ColourConversion::p3_d65_to_xyz,
	&ColourConversion::p3_d60_to_xyz, &ColourConversion::rec1886_to_xyz, &ColourConversion::rec2020_to_xyz, &ColourConversion::s_gamut3_to_xyz
};

static ColourConversion const* got_preset[3];
static double got_value[3];

static void use_preset(int thread, int preset, bool use)
{
	auto const& c = presets[preset]();
	got_preset[thread] = &c;
	double v = c.red().x + c.white().y;
	if (use) {
		v += c.in()->double_lut(0, 1, 2, false)[2];
		v += c.out()->int_lut(0, 1, 2, true, 1000)[1];
		v += c.rgb_to_xyz()(1, 1) + c.bradford()(0, 0);
		v += c.about_equal(c, 1e-3);
	}
	got_value[thread] = v;
}

/** Things that a thread may do with objects of its own */
static vector<std::pair<char const*, function<string ()>>> own;

static void make_own()
{
	auto const at = [](int n) { return dcp::LocalTime(boost::posix_time::ptime(boost::gregorian::date(2020, 1, 1 + n), boost::posix_time::time_duration(1, 2, 3)), dcp::UTCOffset(n, 30)); };
	own = {
		{ "write a time", [at]() { return at(1).as_string(true, true) + at(2).date() + at(3).time_of_day(true, false); } },
		{ "read a time", []() { return dcp::LocalTime("2014-05-06T07:08:09.123-10:30").as_string(); } },
		{ "do sums with a time", [at]() { auto t = at(4); t.add_days(40); t.add_months(5); t.add_minutes(77); return mc::format("%d%d%d%lld", t.month(), t.day(), t < at(5), (long long) t.as_time_t()); } },
		{ "read a certificate's time", []() { return dcp::LocalTime::from_asn1_utc_time("120304050607Z").as_string(); } },
		{ "ask the time", []() { return mc::format("%d", dcp::LocalTime().year() >= 2000); } },
		{ "make a bit stream", []() { dcp::Bitstream b; b.start_crc(0x1021); b.write_from_word(0x1234, 13); b.write_crc(); string s; for (auto i: b.get()) { s += i ? '1' : '0'; } return s; } },
		{ "modulate", []() { dcp::FSK f; f.set_data({ true, false, true }); string s; for (int i = 0; i < 12; ++i) { s += mc::format("%d,", f.get()); } return s; } },
		{ "make a name", []() { struct N : public dcp::NameFormat { N() : dcp::NameFormat("%a_x %b") {} }; return N().get({ { 'a', "1/2" }, { 'b', "z" } }, ".xml"); } },
		{ "clean a path", []() { return dcp::filesystem::weakly_canonical("/a/./b/../c").string() + dcp::filesystem::extension("x.y"); } },
		{ "use names of kinds", []() { return dcp::ContentKind::from_name("TRAILER").name() + mc::format("%d", int(dcp::ContentKind::all().size())); } },
		{ "use names of alignments", []() { return dcp::halign_to_string(dcp::string_to_halign("left")) + dcp::valign_to_string(dcp::string_to_valign("top")); } },
		{ "list a directory", []() { int n = 0; for (auto i: dcp::filesystem::directory_iterator("/proc/self/task")) { n += !i.path().empty(); } return mc::format("%d", n > 0); } },
		{ "read a file", []() { dcp::File f("/proc/self/stat", "r"); char b[8]; f.checked_read(b, 1); return mc::format("%d", bool(f)); } },
		{ "make tables", []() { dcp::GammaTransferFunction f(2.2); return mc::format("%.6f %d", f.double_lut(0, 1, 2, false)[1], f.int_lut(0, 1, 2, true, 100)[1]); } },
		{ "make a piecewise table", []() { return mc::format("%d", dcp::PiecewiseLUT2(make_shared<dcp::GammaTransferFunction>(2.6), 0.25, 2, 2, false, 4095).lookup(0.3)); } },
		{ "make a conversion", []() {
			ColourConversion c(make_shared<dcp::GammaTransferFunction>(2.2), dcp::YUVToRGB::REC709, { 0.64, 0.33 }, { 0.3, 0.6 }, { 0.15, 0.06 }, { 0.3127, 0.329 }, dcp::Chromaticity(0.31, 0.316), make_shared<dcp::GammaTransferFunction>(2.6));
			return mc::format("%.6f %.6f %.6f", c.rgb_to_xyz()(0, 0), c.xyz_to_rgb()(1, 2), c.bradford()(2, 0)); } },
	};
}

static string own_result[3];

static void go(string const& name, sched::Scenario const& s, int preemptions)
{
	string only;
	if (!mc::s().only.empty()) {
		auto const slash = mc::s().only.find('/');
		if (mc::s().only.substr(0, slash) != name) {
			return;
		}
		only = mc::s().only.substr(slash + 1);
	}
	auto const r = sched::explore(
		s, preemptions,
		[&](string const& schedule) { return mc::at(name + "/" + schedule); },
		[&](string const& o) { mc::outcome(name + o); },
		only
		);
	mc::trace(r.executions);
	mc::transition(r.points);
	mc::extra("schedules", r.executions);
	mc::extra("preemptions", r.switches);
	mc::extra("memory_accesses_checked", r.accesses);
	mc::state(name);
	if (mc::want_sample(name.substr(0, 6))) {
		mc::sample(name.substr(0, 6), mc::format("%s: %lld schedules, %lld accesses", name.c_str(), (long long) r.executions, (long long) r.accesses));
	}
	if (!r.violation.empty()) {
		mc::at(name + "/" + r.schedule);
		mc::violation(name + ", with schedule " + r.schedule + ": " + r.violation);
	}
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	make_functions();
	make_own();
	int64_t unit = 0;
	bool const all = !mc::s().only.empty();
	int const bound = mc::thorough() ? 6 : 4;
	int const N = requests.size();

	/* Two threads, each with one or two requests */
	vector<vector<int>> sequences;
	for (int length = 1; length <= 2; ++length) {
		mc::sequences(N, length, [&](vector<int> const& v) { sequences.push_back(v); });
	}
	auto name = [](vector<vector<int>> const& v) {
		string n;
		for (auto const& i: v) {
			n += ":";
			for (auto j: i) {
				n += char('0' + j);
			}
		}
		return n;
	};
	for (size_t i = 0; i < sequences.size(); ++i) {
		for (size_t j = i; j < sequences.size(); ++j) {
			if (mc::mine(unit++) || all) {
				go("tables:0" + name({ sequences[i], sequences[j] }), tables(0, { sequences[i], sequences[j] }), bound);
			}
		}
	}
	/* Three threads, each with one, or one of them with two */
	for (int i = 0; i < N; ++i) {
		for (int j = i; j < N; ++j) {
			for (int k = j; k < N; ++k) {
				if (mc::mine(unit++) || all) {
					go("tables:0" + name({ { i }, { j }, { k } }), tables(0, { { i }, { j }, { k } }), bound);
				}
			}
		}
		if (mc::mine(unit++) || all) {
			go("tables:0" + name({ { i, (i + 3) % N }, { (i + 3) % N }, { i } }), tables(0, { { i, (i + 3) % N }, { (i + 3) % N }, { i } }), bound);
		}
	}
	/* The other functions */
	for (int f = 1; f < int(functions.size()); ++f) {
		for (int i = 0; i < N; ++i) {
			for (int j = i; j < N; ++j) {
				if (mc::mine(unit++) || all) {
					go(mc::format("tables:%d", f) + name({ { i, j }, { j } }), tables(f, { { i, j }, { j } }), bound);
				}
			}
		}
	}
	/* One thread running out of memory at each of its allocations */
	for (int i = 0; i < N; ++i) {
		for (int j = 0; j < N; ++j) {
			for (int k = 0; k < 10; ++k) {
				if (mc::mine(unit++) || all) {
					go(mc::format("memory:%d", k) + name({ { i }, { j } }), tables(0, { { i }, { j, i } }, 0, k), 2);
				}
			}
		}
	}

	/* Presets, on first use */
	for (int threads = 2; threads <= 3; ++threads) {
		for (int i = 0; i < 9; ++i) {
			for (int j = 0; j < 9; ++j) {
				if ((threads == 3 && i != j) || (!mc::mine(unit++) && !all)) {
					continue;
				}
				sched::Scenario s;
				s.setup = []() {};
				for (int t = 0; t < threads; ++t) {
					int const which = t == 0 ? i : j;
					bool const use = threads == 2;
					s.threads.push_back([t, which, use]() { use_preset(t, which, use); });
				}
				s.finish = [i, j, threads]() {
					for (int t = 0; t < threads; ++t) {
						int const which = t == 0 ? i : j;
						auto const p = got_preset[t];
						auto const v = got_value[t];
						use_preset(t, which, threads == 2);
						if (got_preset[t] != p || got_value[t] != v) {
							sched::violation("thread %d was given a preset which was not the right one, or was not finished", t);
						}
						sched::outcome(mc::format("%.9g", v));
					}
				};
				/* more would take a long time, with the counts of the shared pointers */
				go(mc::format("preset:%d:%d:%d", threads, i, j), s, threads == 2 ? (i == j ? 2 : 1) : 2);
			}
		}
	}

	/* Objects of their own */
	for (int i = 0; i < int(own.size()); ++i) {
		for (int j = i; j < int(own.size()); ++j) {
			if (!mc::mine(unit++) && !all) {
				continue;
			}
			sched::Scenario s;
			int const which[] = { i, j };
			for (int t = 0; t < 2; ++t) {
				int const n = which[t];
				s.threads.push_back([t, n]() { own_result[t] = own[n].second(); });
			}
			s.finish = [i, j]() {
				if (own_result[0] != own[i].second() || own_result[1] != own[j].second()) {
					sched::violation("'%s' and '%s' at once gave %s and %s", own[i].first, own[j].first, own_result[0].c_str(), own_result[1].c_str());
				}
				sched::outcome(own_result[0] + own_result[1]);
			};
			go(mc::format("own:%d:%d", i, j), s, 1);
		}
	}
	mc::finish();
}
