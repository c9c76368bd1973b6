/* Reference versions of the transfer functions, from their published definitions */

#ifndef TF_REF_H
#define TF_REF_H

#include "gamma_transfer_function.h"
#include "identity_transfer_function.h"
#include "modified_gamma_transfer_function.h"
#include "s_gamut3_transfer_function.h"
#include <cmath>
#include <functional>
#include <memory>
#include <string>
#include <vector>

struct Curve
{
	std::string name;
	std::function<std::shared_ptr<dcp::TransferFunction> ()> make;
	/** x -> linear light */
	std::function<long double (long double)> forward;
	/** linear light -> x */
	std::function<long double (long double)> inverse;
	/** range of x (either way) in which the two are inverses of each other, and in which pow() is given nothing negative */
	long double from, to;
};

inline Curve gamma_curve(double g)
{
	return {
		"gamma " + std::to_string(g),
		[g]() { return std::make_shared<dcp::GammaTransferFunction>(g); },
		[g](long double x) { return powl(x, g); },
		[g](long double x) { return powl(x, 1 / static_cast<long double>(g)); },
		0, 1
	};
}

inline Curve modified_curve(double power, double threshold, double A, double B)
{
	return {
		"modified gamma " + std::to_string(power) + " " + std::to_string(threshold) + " " + std::to_string(A) + " " + std::to_string(B),
		[=]() { return std::make_shared<dcp::ModifiedGammaTransferFunction>(power, threshold, A, B); },
		[=](long double x) -> long double { return x > threshold ? powl((x + A) / (1 + static_cast<long double>(A)), power) : x / B; },
		[=](long double y) -> long double { return y > (static_cast<long double>(threshold) / B) ? (1 + static_cast<long double>(A)) * powl(y, 1 / static_cast<long double>(power)) - A : y * B; },
		0, 1
	};
}

inline Curve identity_curve()
{
	return {
		"identity",
		[]() { return std::make_shared<dcp::IdentityTransferFunction>(); },
		[](long double x) { return x; },
		[](long double x) { return x; },
		0, 1
	};
}

/** S-Log3, from Sony's technical summary for S-Gamut3.Cine/S-Log3 and S-Gamut3/S-Log3 */
inline Curve slog3_curve()
{
	return {
		"S-Log3",
		[]() { return std::make_shared<dcp::SGamut3TransferFunction>(); },
		[](long double x) -> long double {
			return x >= 171.2102946929L / 1023 ? powl(10, (x * 1023 - 420) / 261.5L) * 0.19L - 0.01L : (x * 1023 - 95) * 0.01125L / (171.2102946929L - 95);
		},
		[](long double y) -> long double {
			return y >= 0.01125L ? (420 + log10l((y + 0.01L) / 0.19L) * 261.5L) / 1023 : (y * (171.2102946929L - 95) / 0.01125L + 95) / 1023;
		},
		0, 1
	};
}

inline std::vector<Curve> curves()
{
	return {
		gamma_curve(2.6), gamma_curve(2.2), gamma_curve(1), gamma_curve(0.5),
		modified_curve(2.4, 0.04045, 0.055, 12.92), modified_curve(2.0, 0.08, 0.16, 9.03), identity_curve(), slog3_curve()
	};
}

#endif
