/* C09: approximate equality of conversions and transfer functions is what comparing every component says it is */

#include "colour_conversion.h"
#include "tf_ref.h"
#include "mc.h"

using dcp::Chromaticity;
using dcp::ColourConversion;
using dcp::TransferFunction;
using dcp::YUVToRGB;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;

/** A function as its kind and parameters */
struct F
{
	int kind;
	vector<double> p;
	shared_ptr<const TransferFunction> f;
};

static F make(int kind, vector<double> p)
{
	F o = { kind, p, nullptr };
	switch (kind) {
	case 0:
		break;
	case 1:
		o.f = make_shared<dcp::GammaTransferFunction>(p[0]);
		break;
	case 2:
		o.f = make_shared<dcp::ModifiedGammaTransferFunction>(p[0], p[1], p[2], p[3]);
		break;
	case 3:
		o.f = make_shared<dcp::IdentityTransferFunction>();
		break;
	case 4:
		o.f = make_shared<dcp::SGamut3TransferFunction>();
		break;
	}
	return o;
}

static bool same(vector<double> const& a, vector<double> const& b, double e)
{
	for (size_t i = 0; i < a.size(); ++i) {
		if (!(fabs(a[i] - b[i]) < e)) {
			return false;
		}
	}
	return true;
}

static bool same(F const& a, F const& b, double e) { return a.kind == b.kind && same(a.p, b.p, e); }

struct C
{
	F in, out;
	YUVToRGB yuv;
	/** red, green, blue, white, then adjusted white if there is one */
	vector<double> p;

	ColourConversion get() const
	{
		boost::optional<Chromaticity> adjusted;
		if (p.size() > 8) {
			adjusted = Chromaticity(p[8], p[9]);
		}
		return ColourConversion(
			in.f, yuv, Chromaticity(p[0], p[1]), Chromaticity(p[2], p[3]), Chromaticity(p[4], p[5]), Chromaticity(p[6], p[7]), adjusted, out.f
			);
	}
};

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	int64_t unit = 0;

	double const epsilons[] = { 1e-6, 1e-3, 0.05 };
	/* differences, in units of epsilon; none is close enough to 1 for rounding to matter */
	double const steps[] = { 0, 0.5, -0.5, 0.9, -0.9, 1.1, -1.1, 2, -2, 40, -40 };

	for (int e = 0; e < 3; ++e) {
		double const eps = epsilons[e];
		/* Functions: every pair of a set with each parameter moved by each step */
		vector<F> fs = { make(3, {}), make(4, {}) };
		for (double s: steps) {
			fs.push_back(make(1, { 2.6 + s * eps }));
			for (int k = 0; k < 4; ++k) {
				vector<double> p = { 2.4, 0.04045, 0.055, 12.92 };
				p[k] += s * eps;
				fs.push_back(make(2, p));
			}
		}
		for (size_t i = 0; i < fs.size(); ++i) {
			if (!mc::mine(unit++)) {
				continue;
			}
			for (size_t j = 0; j < fs.size(); ++j) {
				bool skip = false;
				/* differences of differences that are very near epsilon */
				for (size_t k = 0; k < fs[i].p.size() && fs[i].kind == fs[j].kind; ++k) {
					auto const d = fabs(fs[i].p[k] - fs[j].p[k]) / eps;
					skip = skip || (d > 0.95 && d < 1.05);
				}
				if (skip || !mc::at("function", { e, int64_t(i), int64_t(j) })) {
					continue;
				}
				bool const got = fs[i].f->about_equal(fs[j].f, eps);
				bool const want = same(fs[i], fs[j], eps);
				mc::trace();
				mc::transition();
				mc::state(mc::format("f%d:%d:%d", e, int(i), int(j)));
				mc::outcome(got);
				MC_CHECK(got == want, "functions of kind %d and %d %s said to be equal to within %g", fs[i].kind, fs[j].kind, got ? "are" : "are not", eps);
			}
		}

		/* Conversions: every pair of a set with one component changed from a common base */
		vector<C> cs;
		for (int adjusted = 0; adjusted < 2; ++adjusted) {
			for (int out = 0; out < 2; ++out) {
				C base = { make(1, { 2.2 }), make(out, { 2.6 }), YUVToRGB::REC709, { 0.64, 0.33, 0.3, 0.6, 0.15, 0.06, 0.3127, 0.329 } };
				if (adjusted) {
					base.p.push_back(0.31);
					base.p.push_back(0.316);
				}
				cs.push_back(base);
				for (auto y: { YUVToRGB::REC601, YUVToRGB::REC2020 }) {
					auto c = base;
					c.yuv = y;
					cs.push_back(c);
				}
				for (double s: steps) {
					for (size_t k = 0; k < base.p.size(); ++k) {
						auto c = base;
						c.p[k] += s * eps;
						cs.push_back(c);
					}
					auto c = base;
					c.in = make(1, { 2.2 + s * eps });
					cs.push_back(c);
					if (out) {
						c = base;
						c.out = make(1, { 2.6 + s * eps });
						cs.push_back(c);
					}
				}
				auto c = base;
				c.in = make(3, {});
				cs.push_back(c);
				c = base;
				c.out = make(4, {});
				cs.push_back(c);
			}
		}
		vector<ColourConversion> made;
		for (auto const& c: cs) {
			made.push_back(c.get());
		}
		for (size_t i = 0; i < cs.size(); ++i) {
			if (!mc::mine(unit++)) {
				continue;
			}
			for (size_t j = 0; j < cs.size(); ++j) {
				auto close = [&](vector<double> const& a, vector<double> const& b) {
					for (size_t k = 0; k < std::min(a.size(), b.size()); ++k) {
						auto const d = fabs(a[k] - b[k]) / eps;
						if (d > 0.95 && d < 1.05) {
							return true;
						}
					}
					return false;
				};
				if (close(cs[i].p, cs[j].p) || close(cs[i].in.p, cs[j].in.p) || close(cs[i].out.p, cs[j].out.p) || !mc::at("conversion", { e, int64_t(i), int64_t(j) })) {
					continue;
				}
				bool const got = made[i].about_equal(made[j], eps);
				bool const want = same(cs[i].in, cs[j].in, eps) && same(cs[i].out, cs[j].out, eps) && cs[i].yuv == cs[j].yuv &&
					cs[i].p.size() == cs[j].p.size() && same(cs[i].p, cs[j].p, eps);
				mc::trace();
				mc::transition();
				mc::state(mc::format("c%d:%d:%d", e, int(i), int(j)));
				mc::outcome(2 + got);
				MC_CHECK(got == want, "conversions %d and %d %s said to be equal to within %g", int(i), int(j), got ? "are" : "are not", eps);
				if (i % 40 == 1 && mc::want_sample(got ? "equal" : "different")) {
					mc::sample(got ? "equal" : "different", mc::current_key());
				}
			}
		}
	}

	/* Every pair of presets */
	if (mc::mine(unit++)) {
		ColourConversion const* presets[] = {
			&ColourConversion::srgb_to_xyz(), &ColourConversion::rec601_to_xyz(), &ColourConversion::rec709_to_xyz(), &ColourConversion::p3_dci_to_xyz(),
			&ColourConversion::p3_d65_to_xyz(), &ColourConversion::p3_d60_to_xyz(), &ColourConversion::rec1886_to_xyz(), &ColourConversion::rec2020_to_xyz(),
			&ColourConversion::s_gamut3_to_xyz()
		};
		for (int i = 0; i < 9; ++i) {
			for (int j = 0; j < 9; ++j) {
				if (mc::at("preset", { i, j })) {
					mc::trace();
					mc::transition();
					bool const got = presets[i]->about_equal(*presets[j], 1e-6);
					MC_CHECK(got == (i == j), "presets %d and %d %s said to be equal", i, j, got ? "are" : "are not");
				}
			}
		}
	}
	mc::finish();
}
