/* C08: colour matrices follow from the chromaticities: each primary has its own chromaticity, equal amounts of the
 * three make the white point at unit luminance, the way back is the inverse, and Bradford adaptation takes one white to
 * the other.  The presets are the standards that they are named after.
 */

#include "colour_conversion.h"
#include "tf_ref.h"
#include "mc.h"

using dcp::Chromaticity;
using dcp::ColourConversion;
using dcp::YUVToRGB;
using std::shared_ptr;
using std::string;
using std::vector;
typedef boost::numeric::ublas::matrix<double> Matrix;

static bool near(double a, double b, double e) { return fabs(a - b) <= e; }

static string check_matrices(ColourConversion const& c)
{
	Matrix const A = c.rgb_to_xyz();
	Matrix const B = c.xyz_to_rgb();
	mc::transition(2);
	if (A.size1() != 3 || A.size2() != 3 || B.size1() != 3 || B.size2() != 3) {
		return "a matrix is not 3x3";
	}
	Chromaticity const p[3] = { c.red(), c.green(), c.blue() };
	double biggest = 0;
	for (int i = 0; i < 3; ++i) {
		for (int j = 0; j < 3; ++j) {
			biggest = std::max(biggest, fabs(A(i, j)));
		}
	}
	for (int i = 0; i < 3; ++i) {
		/* column i is in proportion to the chromaticity of primary i */
		double const sum = A(0, i) + A(1, i) + A(2, i);
		double const want[3] = { p[i].x, p[i].y, 1 - p[i].x - p[i].y };
		for (int j = 0; j < 3; ++j) {
			if (!near(A(j, i), want[j] * sum, 1e-9 * biggest)) {
				return mc::format("primary %d has %c = %.9g rather than %.9g", i, "XYZ"[j], A(j, i), want[j] * sum);
			}
		}
	}
	auto const w = c.white();
	double const want[3] = { w.x / w.y, 1, (1 - w.x - w.y) / w.y };
	for (int j = 0; j < 3; ++j) {
		double const got = A(j, 0) + A(j, 1) + A(j, 2);
		if (!near(got, want[j], 1e-9 * std::max(1.0, biggest))) {
			return mc::format("white has %c = %.9g rather than %.9g", "XYZ"[j], got, want[j]);
		}
	}
	double biggest_back = 0;
	for (int i = 0; i < 3; ++i) {
		for (int j = 0; j < 3; ++j) {
			biggest_back = std::max(biggest_back, fabs(B(i, j)));
		}
	}
	for (int i = 0; i < 3; ++i) {
		for (int j = 0; j < 3; ++j) {
			double v = 0, u = 0;
			for (int k = 0; k < 3; ++k) {
				v += A(i, k) * B(k, j);
				u += B(i, k) * A(k, j);
			}
			if (!near(v, i == j, 1e-9 * std::max(1.0, biggest * biggest_back)) || !near(u, i == j, 1e-9 * std::max(1.0, biggest * biggest_back))) {
				return mc::format("the two matrices are not inverses: (%d, %d) of their product is %.9g", i, j, v);
			}
		}
	}
	mc::outcome(mc::format("%.9g,%.9g,%.9g,%.9g", A(0, 0), A(1, 1), A(2, 2), B(0, 0)));
	return "";
}

static void invert(long double const m[3][3], long double o[3][3])
{
	long double const det =
		m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
	for (int i = 0; i < 3; ++i) {
		for (int j = 0; j < 3; ++j) {
			int const a = (j + 1) % 3, b = (j + 2) % 3, c = (i + 1) % 3, d = (i + 2) % 3;
			o[i][j] = (m[a][c] * m[b][d] - m[a][d] * m[b][c]) / det;
		}
	}
}

static string check_bradford(ColourConversion const& c)
{
	Matrix const B = c.bradford();
	mc::transition();
	if (B.size1() != 3 || B.size2() != 3) {
		return "the matrix is not 3x3";
	}
	long double want[3][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
	auto const to = c.adjusted_white();
	auto const from = c.white();
	if (to && fabs(to->x) > 1e-6 && fabs(to->y) > 1e-6) {
		long double const M[3][3] = { { 0.8951L, 0.2664L, -0.1614L }, { -0.7502L, 1.7135L, 0.0367L }, { 0.0389L, -0.0685L, 1.0296L } };
		long double Mi[3][3];
		invert(M, Mi);
		long double const f[3] = { static_cast<long double>(from.x) / from.y, 1, (1 - static_cast<long double>(from.x) - from.y) / from.y };
		long double const t[3] = { static_cast<long double>(to->x) / to->y, 1, (1 - static_cast<long double>(to->x) - to->y) / to->y };
		long double gain[3];
		for (int i = 0; i < 3; ++i) {
			long double a = 0, b = 0;
			for (int k = 0; k < 3; ++k) {
				a += M[i][k] * f[k];
				b += M[i][k] * t[k];
			}
			gain[i] = b / a;
		}
		for (int i = 0; i < 3; ++i) {
			for (int j = 0; j < 3; ++j) {
				want[i][j] = 0;
				for (int k = 0; k < 3; ++k) {
					want[i][j] += Mi[i][k] * gain[k] * M[k][j];
				}
			}
		}
		for (int i = 0; i < 3; ++i) {
			double const got = B(i, 0) * f[0] + B(i, 1) * f[1] + B(i, 2) * f[2];
			if (!near(got, t[i], 1e-5 * std::max(1.0L, fabsl(t[i])))) {
				return mc::format("the white point is taken to %c = %.9g rather than %.9Lg", "XYZ"[i], got, t[i]);
			}
		}
	}
	for (int i = 0; i < 3; ++i) {
		for (int j = 0; j < 3; ++j) {
			if (!near(B(i, j), want[i][j], 1e-5 * std::max(1.0L, fabsl(want[i][j])))) {
				return mc::format("(%d, %d) is %.9g rather than %.9Lg", i, j, B(i, j), want[i][j]);
			}
		}
	}
	mc::outcome(mc::format("b%.9g,%.9g,%.9g", B(0, 0), B(1, 1), B(2, 2)));
	return "";
}

struct Preset
{
	char const* name;
	ColourConversion const& (*get)();
	Curve in;
	YUVToRGB yuv;
	double p[8];
	Curve out;
};

static string check_curve(shared_ptr<const dcp::TransferFunction> f, Curve const& c)
{
	for (int inverse = 0; inverse < 2; ++inverse) {
		auto const& lut = f->double_lut(0, 1, 8, inverse);
		for (int i = 0; i < 256; ++i) {
			auto const want = inverse ? c.inverse(i / 255.0L) : c.forward(i / 255.0L);
			if (!near(lut[i], want, 1e-8)) {
				return mc::format("%s table has %.9g at %d rather than %.9Lg", inverse ? "inverse" : "forward", lut[i], i, want);
			}
		}
	}
	mc::transition(2);
	return "";
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	int64_t unit = 0;

	auto const srgb = modified_curve(2.4, 0.04045, 0.055, 12.92);
	vector<Preset> const presets = {
		{ "sRGB", &ColourConversion::srgb_to_xyz, srgb, YUVToRGB::REC601, { 0.64, 0.33, 0.3, 0.6, 0.15, 0.06, 0.3127, 0.329 }, gamma_curve(2.6) },
		{ "Rec. 601", &ColourConversion::rec601_to_xyz, gamma_curve(2.2), YUVToRGB::REC601, { 0.64, 0.33, 0.3, 0.6, 0.15, 0.06, 0.3127, 0.329 }, gamma_curve(2.6) },
		{ "Rec. 709", &ColourConversion::rec709_to_xyz, gamma_curve(2.2), YUVToRGB::REC709, { 0.64, 0.33, 0.3, 0.6, 0.15, 0.06, 0.3127, 0.329 }, gamma_curve(2.6) },
		{ "P3 DCI", &ColourConversion::p3_dci_to_xyz, gamma_curve(2.6), YUVToRGB::REC709, { 0.68, 0.32, 0.265, 0.69, 0.15, 0.06, 0.314, 0.351 }, gamma_curve(2.6) },
		{ "P3 D65", &ColourConversion::p3_d65_to_xyz, gamma_curve(2.6), YUVToRGB::REC709, { 0.68, 0.32, 0.265, 0.69, 0.15, 0.06, 0.3127, 0.329 }, gamma_curve(2.6) },
		{ "P3 D60", &ColourConversion::p3_d60_to_xyz, gamma_curve(2.6), YUVToRGB::REC709, { 0.68, 0.32, 0.265, 0.69, 0.15, 0.06, 0.32168, 0.33767 }, gamma_curve(2.6) },
		{ "Rec. 1886", &ColourConversion::rec1886_to_xyz, gamma_curve(2.4), YUVToRGB::REC709, { 0.64, 0.33, 0.3, 0.6, 0.15, 0.06, 0.3127, 0.329 }, gamma_curve(2.6) },
		{ "Rec. 2020", &ColourConversion::rec2020_to_xyz, gamma_curve(2.4), YUVToRGB::REC2020, { 0.708, 0.292, 0.17, 0.797, 0.131, 0.046, 0.3127, 0.329 }, gamma_curve(2.6) },
		{ "S-Gamut3", &ColourConversion::s_gamut3_to_xyz, slog3_curve(), YUVToRGB::REC709, { 0.73, 0.28, 0.14, 0.855, 0.1, -0.05, 0.3127, 0.329 }, identity_curve() }
	};
	/* In two orders, as each preset is made on first use */
	for (int order = 0; order < 2; ++order) {
		for (size_t n = 0; n < presets.size(); ++n) {
			size_t const i = order ? presets.size() - 1 - n : n;
			if (mc::s().shard != order % mc::s().shards || !mc::at("preset", { order, int64_t(i) })) {
				continue;
			}
			auto const& p = presets[i];
			auto const& c = p.get();
			mc::trace();
			mc::state(p.name);
			Chromaticity const got[4] = { c.red(), c.green(), c.blue(), c.white() };
			char const* names[4] = { "red", "green", "blue", "white" };
			for (int k = 0; k < 4; ++k) {
				MC_CHECK(near(got[k].x, p.p[k * 2], 1e-9) && near(got[k].y, p.p[k * 2 + 1], 1e-9), "%s: %s is at (%g, %g)", p.name, names[k], got[k].x, got[k].y);
			}
			MC_CHECK(!c.adjusted_white(), "%s: white point is adjusted", p.name);
			MC_CHECK(c.yuv_to_rgb() == p.yuv, "%s: wrong YUV matrix", p.name);
			MC_CHECK(c.in() && c.out(), "%s: missing function", p.name);
			auto bad = check_curve(c.in(), p.in);
			MC_CHECK(bad.empty(), "%s: input %s", p.name, bad.c_str());
			bad = check_curve(c.out(), p.out);
			MC_CHECK(bad.empty(), "%s: output %s", p.name, bad.c_str());
			bad = check_matrices(c);
			MC_CHECK(bad.empty(), "%s: %s", p.name, bad.c_str());
			bad = check_bradford(c);
			MC_CHECK(bad.empty(), "%s: Bradford %s", p.name, bad.c_str());
			MC_CHECK(&c == &p.get(), "%s: is not always the same object", p.name);
			mc::sample("preset", p.name);
		}
	}

	/* All combinations of some primaries and white points, made by the constructor and by setters */
	vector<Chromaticity> const reds = { { 0.64, 0.33 }, { 0.68, 0.32 }, { 0.73, 0.28 }, { 0.6, 0.35 }, { 0.55, 0.4 }, { 0.7347, 0.2653 }, { 0.78, 0.31 } };
	vector<Chromaticity> const greens = { { 0.3, 0.6 }, { 0.265, 0.69 }, { 0.14, 0.855 }, { 0.21, 0.71 }, { 0.33, 0.55 }, { 0, 1 }, { 0.1, 0.98 } };
	vector<Chromaticity> const blues = { { 0.15, 0.06 }, { 0.131, 0.046 }, { 0.1, -0.05 }, { 0.155, 0.07 }, { 0.2, 0.15 }, { 0.0001, -0.077 }, { -0.05, 0.02 } };
	vector<Chromaticity> const whites = { { 0.3127, 0.329 }, { 0.314, 0.351 }, { 0.32168, 0.33767 }, { 0.34567, 0.3585 }, { 0.3333333, 0.3333333 } };
	vector<boost::optional<Chromaticity>> const adjusted = {
		boost::none, Chromaticity(0, 0), Chromaticity(0.3127, 0), Chromaticity(0, 0.329), Chromaticity(0.447576324, 0.407443172),
		Chromaticity(0.3484, 0.3516), Chromaticity(0.3127, 0.329), Chromaticity(0.31, 0.316)
	};
	for (size_t r = 0; r < reds.size(); ++r) {
		for (size_t g = 0; g < greens.size(); ++g) {
			for (size_t b = 0; b < blues.size(); ++b) {
				if (!mc::mine(unit++)) {
					continue;
				}
				for (size_t w = 0; w < whites.size(); ++w) {
					for (size_t a = 0; a < adjusted.size(); ++a) {
						for (int setters = 0; setters < 2; ++setters) {
							if (!mc::at("combination", { int64_t(r), int64_t(g), int64_t(b), int64_t(w), int64_t(a), setters })) {
								continue;
							}
							ColourConversion c(
								std::make_shared<dcp::GammaTransferFunction>(2.2), YUVToRGB::REC601, reds[r], greens[g], blues[b], whites[w], adjusted[a],
								std::make_shared<dcp::GammaTransferFunction>(2.6)
								);
							if (setters) {
								c = ColourConversion::p3_dci_to_xyz();
								c.set_red(reds[r]);
								c.set_green(greens[g]);
								c.set_blue(blues[b]);
								c.set_white(whites[w]);
								c.set_adjusted_white(Chromaticity(0.2, 0.2));
								if (adjusted[a]) {
									c.set_adjusted_white(*adjusted[a]);
								} else {
									c.unset_adjusted_white();
								}
							}
							mc::trace();
							mc::state(mc::format("%d:%d:%d:%d:%d", int(r), int(g), int(b), int(w), int(a)));
							auto const same = [](Chromaticity x, Chromaticity y) { return near(x.x, y.x, 1e-12) && near(x.y, y.y, 1e-12); };
							MC_CHECK(same(c.red(), reds[r]) && same(c.green(), greens[g]) && same(c.blue(), blues[b]) && same(c.white(), whites[w]) &&
								 bool(c.adjusted_white()) == bool(adjusted[a]) && (!adjusted[a] || same(*c.adjusted_white(), *adjusted[a])),
								"a conversion does not have the chromaticities that it was given");
							auto bad = check_matrices(c);
							MC_CHECK(bad.empty(), "%s", bad.c_str());
							bad = check_bradford(c);
							MC_CHECK(bad.empty(), "Bradford: %s", bad.c_str());
							if (mc::want_sample("combination")) {
								mc::sample("combination", mc::current_key());
							}
						}
					}
				}
			}
		}
	}

	/* Adjustments of every size, in every direction, from a grid of white points */
	double const steps[] = { -0.1, -0.03, -0.01, -3e-3, -1e-3, -3e-4, -1e-4, 0, 1e-4, 3e-4, 1e-3, 3e-3, 0.01, 0.03, 0.1 };
	for (int x = 0; x <= 10; ++x) {
		for (int y = 0; y <= 10; ++y) {
			if (!mc::mine(unit++)) {
				continue;
			}
			for (int i = 0; i < 15; ++i) {
				for (int j = 0; j < 15; ++j) {
					if (!mc::at("white", { x, y, i, j })) {
						continue;
					}
					Chromaticity const white(0.2 + 0.025 * x, 0.2 + 0.025 * y);
					ColourConversion const c(
						std::make_shared<dcp::GammaTransferFunction>(2.2), YUVToRGB::REC601, reds[0], greens[0], blues[0], white,
						Chromaticity(white.x + steps[i], white.y + steps[j]), std::make_shared<dcp::GammaTransferFunction>(2.6)
						);
					mc::trace();
					mc::state(mc::current_key());
					auto const bad = check_bradford(c);
					MC_CHECK(bad.empty(), "Bradford from (%g, %g) to (%g, %g): %s", white.x, white.y, white.x + steps[i], white.y + steps[j], bad.c_str());
				}
			}
		}
	}
	mc::finish();
}
