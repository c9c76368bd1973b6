/* C07: looking up x in a two-piece table gives the function's value at a point of the table no more than half a step from x */

#include "piecewise_lut.h"
#include "tf_ref.h"
#include "mc.h"
#include <algorithm>

using std::string;
using std::vector;

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	struct Config { double boundary; int low, high; bool inverse; int scale; };
	vector<Config> configs = {
		/* as used by the conversions */
		{ 0.062, 16, 12, true, 4095 }, { 0.062, 16, 12, false, 65535 }, { 0.018, 12, 10, true, 255 }
	};
	for (double b: { 0.062, 0.5, 0.25, 0.9, 0.1 }) {
		for (int low = 1; low <= 8; ++low) {
			for (int high = 1; high <= 8; high += (mc::thorough() ? 1 : 2)) {
				for (int i = 0; i < 2; ++i) {
					configs.push_back({ b, low, high, bool(i), low % 2 ? 4095 : 255 });
				}
			}
		}
	}
	vector<Curve> const all = { gamma_curve(2.6), gamma_curve(2.2), modified_curve(2.4, 0.04045, 0.055, 12.92), identity_curve(), slog3_curve() };
	int64_t unit = 0;
	for (size_t k = 0; k < configs.size(); ++k) {
		auto const& g = configs[k];
		for (size_t c = 0; c < all.size(); ++c) {
			if (!mc::mine(unit++)) {
				continue;
			}
			if (!mc::at("table", { int64_t(k), int64_t(c) })) {
				continue;
			}
			auto const& curve = all[c];
			dcp::PiecewiseLUT2 const lut(curve.make(), g.boundary, g.low, g.high, g.inverse, g.scale);
			mc::trace();
			mc::state(mc::format("%d:%d", int(k), int(c)));
			auto f = [&](long double x) { return (g.inverse ? curve.inverse(x) : curve.forward(x)) * g.scale; };
			int last = INT32_MIN;
			double last_x = -1;
			vector<double> xs;
			for (int piece = 0; piece < 2; ++piece) {
				int const n = (1 << (piece ? g.high : g.low)) - 1;
				double const from = piece ? g.boundary : 0;
				double const to = piece ? 1 : g.boundary;
				for (int i = 0; i <= n; ++i) {
					for (double d: { -0.49, -0.25, 0.0, 0.25, 0.49 }) {
						double const x = from + (i + d) * (to - from) / n;
						if (x >= 0 && x <= 1) {
							xs.push_back(x);
						}
					}
				}
			}
			for (double e: { 0.0, 1.0, g.boundary, std::nextafter(g.boundary, 0.0), std::nextafter(g.boundary, 1.0), std::nextafter(1.0, 0.0), std::nextafter(0.0, 1.0) }) {
				xs.push_back(e);
			}
			std::sort(xs.begin(), xs.end());
			for (auto x: xs) {
				int const got = lut.lookup(x);
				mc::transition();
				bool const high = x >= g.boundary;
				long double const from = high ? g.boundary : 0;
				long double const to = high ? 1 : g.boundary;
				long double const half = (to - from) / ((1 << (high ? g.high : g.low)) - 1) / 2 * 1.0001L;
				auto const lo = f(std::max(from, x - half));
				auto const hi = f(std::min(to, x + half));
				MC_CHECK(got >= lo - 0.5001L && got <= hi + 0.5001L,
					"%s, pieces of %d and %d bits at %g%s: looking up %.12g gives %d, but the function there is between %.5Lf and %.5Lf",
					curve.name.c_str(), g.low, g.high, g.boundary, g.inverse ? ", inverse" : "", x, got, lo, hi);
				MC_CHECK(got >= last, "%s, pieces of %d and %d bits at %g%s: looking up %.12g gives %d, but %.12g gives more (%d)",
					curve.name.c_str(), g.low, g.high, g.boundary, g.inverse ? ", inverse" : "", x, got, last_x, last);
				last = got;
				last_x = x;
				mc::outcome(uint64_t(got) ^ uint64_t(k) << 32 ^ uint64_t(c) << 24);
			}
			if (mc::want_sample("table")) {
				mc::sample("table", mc::format("%s, %d+%d bits, boundary %g%s, scale %d: %d look-ups", curve.name.c_str(), g.low, g.high, g.boundary, g.inverse ? ", inverse" : "", g.scale, int(xs.size())));
			}
		}
	}
	mc::finish();
}
