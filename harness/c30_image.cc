/* C30: pictures keep their colours when they are converted between RGB and XYZ, and their contents when they are
 * compressed and decompressed.
 */

#include "mc.h"
#include "array_data.h"
#include "colour_conversion.h"
#include "exceptions.h"
#include "j2k_transcode.h"
#include "openjpeg_image.h"
#include "rgb_xyz.h"
#include "transfer_function.h"
#include <openjpeg.h>
#include <boost/numeric/ublas/matrix.hpp>
#include <cmath>
#include <map>
#include <set>

using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;

typedef std::array<int, 3> Pixel;
typedef std::array<double, 3> Colour;

static double const COMPANDING = 48.0 / 52.37;

static vector<dcp::ColourConversion> conversions()
{
	vector<dcp::ColourConversion> c = {
		dcp::ColourConversion::srgb_to_xyz(), dcp::ColourConversion::rec601_to_xyz(), dcp::ColourConversion::rec709_to_xyz(), dcp::ColourConversion::p3_dci_to_xyz(), dcp::ColourConversion::p3_d65_to_xyz(),
		dcp::ColourConversion::p3_d60_to_xyz(), dcp::ColourConversion::rec1886_to_xyz(), dcp::ColourConversion::rec2020_to_xyz(), dcp::ColourConversion::s_gamut3_to_xyz()
	};
	/* And one which has its white moved */
	auto moved = dcp::ColourConversion::srgb_to_xyz();
	moved.set_adjusted_white(dcp::Chromaticity(0.3457, 0.3585));
	c.push_back(moved);
	return c;
}

/** A transfer function as a curve with many points, and lines between them */
class Curve
{
public:
	Curve(shared_ptr<const dcp::TransferFunction> f, bool inverse)
		: _points(f->double_lut(0, 1, 18, inverse))
	{

	}

	double operator()(double x) const
	{
		auto const p = std::max(0.0, std::min(1.0, x)) * (_points.size() - 1);
		auto const i = std::min(_points.size() - 2, size_t(p));
		return _points[i] + (_points[i + 1] - _points[i]) * (p - i);
	}

private:
	vector<double> _points;
};

typedef boost::numeric::ublas::matrix<double> Matrix;

static Colour multiply(Matrix const& m, Colour const& c)
{
	Colour out;
	for (int i = 0; i < 3; ++i) {
		out[i] = 0;
		for (int j = 0; j < 3; ++j) {
			out[i] += m(i, j) * c[j];
		}
	}
	return out;
}

/** Colours to try, with components from 0 to 4095 */
static vector<Pixel> pixels(int part)
{
	vector<Pixel> p;
	switch (part) {
	case 0: case 1: case 2: case 3: {
		/* Greys and each component alone */
		for (int i = 0; i < 4096; ++i) {
			p.push_back({ part == 0 || part == 1 ? i : 0, part == 0 || part == 2 ? i : 0, part == 0 || part == 3 ? i : 0 });
		}
		break;
	}
	default: {
		vector<int> const steps = { 0, 1, 2, 15, 16, 100, 255, 256, 600, 1000, 1500, 2047, 2048, 2600, 3200, 3700, 4094, 4095 };
		for (auto a: steps) {
			for (auto b: steps) {
				for (auto c: steps) {
					p.push_back({ a, b, c });
				}
			}
		}
		break;
	}
	}
	return p;
}

static int const GUARD = 0x5b;

/** Write over some memory and see that only the pixels are changed */
struct Buffer
{
	Buffer(int width_, int height_, int pixel_, int extra)
		: width(width_)
		, height(height_)
		, pixel(pixel_)
		, stride(width_ * pixel_ + extra)
		, bytes((height_ - 1) * stride + width_ * pixel_ + 64, GUARD)
	{

	}

	void check(string const& what) const
	{
		for (size_t i = 0; i < bytes.size(); ++i) {
			bool const inside = int(i) / stride < height && int(i) % stride < width * pixel;
			if (!inside && bytes[i] != GUARD) {
				mc::violation(mc::format("%s: byte %d, which is outside the picture, is changed", what.c_str(), int(i)));
				return;
			}
		}
	}

	uint16_t* at(int x, int y) { return reinterpret_cast<uint16_t*>(&bytes[y * stride + x * pixel]); }

	int width;
	int height;
	int pixel;
	int stride;
	vector<uint8_t> bytes;
};

static void shape(int n, int which, int& width, int& height)
{
	/* The last row of some may have to be filled up */
	width = vector<int>{ 128, 1, 37 }[which];
	height = (n + width - 1) / width;
}

/** Is a value near what it would be for any in a range around x? */
static bool near(double got, Curve const& curve, double x, double step, double scale, double tolerance)
{
	return got >= curve(x - step) * scale - tolerance && got <= curve(x + step) * scale + tolerance;
}

static void to_xyz(int64_t& unit)
{
	auto const all = conversions();
	for (size_t c = 0; c < all.size(); ++c) {
		for (int part = 0; part < 5; ++part) {
			for (int low: { 0, 15 }) {
				for (int which = 0; which < 3; ++which) {
					if (!mc::mine(unit++) || !mc::at("to_xyz", { int(c), part, low, which })) {
						continue;
					}
					auto const& conversion = all[c];
					auto const in = conversion.in()->double_lut(0, 1, 12, false);
					Curve const in_curve(conversion.in(), false);
					Curve const out(conversion.out(), true);
					Matrix const m = boost::numeric::ublas::prod(conversion.bradford(), conversion.rgb_to_xyz());
					double combined[9];
					dcp::combined_rgb_to_xyz(conversion, combined);
					for (int i = 0; i < 9; ++i) {
						MC_CHECK(fabs(combined[i] - m(i / 3, i % 3) * COMPANDING) < 1e-12, "conversion %d: matrix differs from what its parts give", int(c));
					}
					auto const p = pixels(part);
					int width, height;
					shape(p.size(), which, width, height);
					Buffer buffer(width, height, 6, vector<int>{ 0, 2, 14 }[which]);
					for (size_t i = 0; i < size_t(width) * height; ++i) {
						for (int j = 0; j < 3; ++j) {
							buffer.at(i % width, i / width)[j] = p[i % p.size()][j] * 16 + low;
						}
					}
					auto const before = buffer.bytes;
					auto image = dcp::rgb_to_xyz(buffer.bytes.data(), dcp::Size(width, height), buffer.stride, conversion);
					vector<uint16_t> packed(width * height * 3 + 2, 0xabcd);
					dcp::rgb_to_xyz(buffer.bytes.data(), packed.data(), dcp::Size(width, height), buffer.stride, conversion);
					MC_CHECK(buffer.bytes == before, "conversion changes what it is given");
					MC_CHECK(packed[width * height * 3] == 0xabcd, "conversion writes after the end");
					MC_CHECK(image->size() == dcp::Size(width, height), "a picture changed its size");
					for (size_t i = 0; i < p.size(); ++i) {
						Colour a, b;
						for (int j = 0; j < 3; ++j) {
							a[j] = in[p[i][j]];
							b[j] = in_curve((p[i][j] * 16 + low) / 65535.0);
						}
						a = multiply(m, a);
						b = multiply(m, b);
						for (int j = 0; j < 3; ++j) {
							auto const lower = std::max(0.0, std::min(1.0, std::min(a[j], b[j]) * COMPANDING));
							auto const upper = std::max(0.0, std::min(1.0, std::max(a[j], b[j]) * COMPANDING));
							auto const step = upper < 0.061 ? 2e-6 : 1.3e-4;
							int const got = image->data(j)[i];
							bool const good = got >= out(lower - step) * 4095 - 1 && got <= out(upper + step) * 4095 + 1;
							if (!good || got < 0 || got > 4095 || packed[i * 3 + j] != got) {
								mc::violation(mc::format("conversion %d: RGB %d,%d,%d gives %d and %d for component %d of XYZ; it should be %f to %f", int(c), p[i][0], p[i][1], p[i][2], got, packed[i * 3 + j], j, out(lower) * 4095, out(upper) * 4095));
								return;
							}
						}
					}
					mc::state(mc::format("to_xyz %d %d %d %d", int(c), part, low, which));
					mc::trace();
				}
			}
		}
	}
}

static void to_rgb(int64_t& unit)
{
	auto const all = conversions();
	for (size_t c = 0; c < all.size(); ++c) {
		for (int part = 0; part < 6; ++part) {
			for (int which = 0; which < 3; ++which) {
				if (!mc::mine(unit++) || !mc::at("to_rgb", { int(c), part, which })) {
					continue;
				}
				auto const& conversion = all[c];
				auto const in = conversion.out()->double_lut(0, 1, 12, false);
				Curve const out(conversion.in(), true);
				auto p = pixels(part);
				int outside = 0;
				if (part == 5) {
					/* Values which should not be there */
					p.clear();
					for (int a: { -1, 4096, -100000, 100000, 2000 }) {
						for (int j = 0; j < 3; ++j) {
							Pixel q{ 1000, 2000, 3000 };
							q[j] = a;
							p.push_back(q);
						}
					}
				}
				int width, height;
				shape(p.size(), which, width, height);
				auto image = make_shared<dcp::OpenJPEGImage>(dcp::Size(width, height));
				for (int i = 0; i < width * height; ++i) {
					for (int j = 0; j < 3; ++j) {
						auto const v = p[i % p.size()][j];
						image->data(j)[i] = v;
						outside += v < 0 || v > 4095;
					}
				}
				Buffer wide(width, height, 6, vector<int>{ 0, 2, 14 }[which]);
				Buffer narrow(width, height, 4, vector<int>{ 0, 1, 7 }[which]);
				int notes = 0;
				dcp::NoteHandler const handler = [&notes](dcp::NoteType, string) { ++notes; };
				dcp::xyz_to_rgb(image, conversion, wide.bytes.data(), wide.stride, handler);
				MC_CHECK((notes > 0) == (outside > 0), "conversion %d: %d notes about %d values out of range", int(c), notes, outside);
				auto const with = wide.bytes;
				dcp::xyz_to_rgb(image, conversion, wide.bytes.data(), wide.stride);
				MC_CHECK(with == wide.bytes, "conversion %d: different with and without notes", int(c));
				wide.check("RGB");
				bool bytes = true;
				if (outside) {
					try {
						dcp::xyz_to_rgba(image, conversion, narrow.bytes.data(), narrow.stride);
					} catch (std::exception&) {
						bytes = false;
					}
				} else {
					dcp::xyz_to_rgba(image, conversion, narrow.bytes.data(), narrow.stride);
				}
				narrow.check("RGBA");
				for (size_t i = 0; i < p.size(); ++i) {
					Colour a;
					for (int j = 0; j < 3; ++j) {
						a[j] = in[std::max(0, std::min(4095, p[i][j]))] / COMPANDING;
					}
					a = multiply(conversion.xyz_to_rgb(), a);
					for (int j = 0; j < 3; ++j) {
						int const got = wide.at(i % width, i / width)[j];
						int const byte = narrow.bytes[i / width * narrow.stride + (i % width) * 4 + 2 - j];
						if (!near(got, out, a[j], 1.6e-5, 65535, 1) || (bytes && !near(byte, out, a[j], 1.6e-5, 255, 1.01))) {
							mc::violation(mc::format("conversion %d: XYZ %d,%d,%d gives %d of 65535 and %d of 255 for component %d of RGB; it should be %f of 1", int(c), p[i][0], p[i][1], p[i][2], got, byte, j, out(a[j])));
							return;
						}
					}
					if (bytes) {
						MC_CHECK(narrow.bytes[i / width * narrow.stride + (i % width) * 4 + 3] == 255, "a pixel is not opaque");
					}
				}
				mc::state(mc::format("to_rgb %d %d %d", int(c), part, which));
				mc::trace();
			}
		}
	}
	/* Black and white, and all colours which are inside, come back */
	for (size_t c = 0; c < all.size(); ++c) {
		if (!mc::mine(unit++) || !mc::at("back", { int(c) })) {
			continue;
		}
		vector<Pixel> p;
		for (int a: { 0, 400, 1000, 2000, 3000, 4095 }) {
			for (int b: { 0, 400, 1000, 2000, 3000, 4095 }) {
				for (int d: { 0, 400, 1000, 2000, 3000, 4095 }) {
					p.push_back({ a, b, d });
				}
			}
		}
		Buffer in(p.size(), 1, 6, 0);
		Buffer out(p.size(), 1, 6, 0);
		for (size_t i = 0; i < p.size(); ++i) {
			for (int j = 0; j < 3; ++j) {
				in.at(i, 0)[j] = p[i][j] * 16 + p[i][j] / 256;
			}
		}
		/* There is no white adjustment on the way back, and with S-Gamut3 XYZ has no curve */
		bool const adjusted = bool(all[c].adjusted_white());
		dcp::xyz_to_rgb(dcp::rgb_to_xyz(in.bytes.data(), dcp::Size(p.size(), 1), in.stride, all[c]), all[c], out.bytes.data(), out.stride);
		double worst = 0;
		for (size_t i = 0; i < p.size(); ++i) {
			/* 12 bits of a curve do not go far in the dark */
			bool const grey = p[i][0] == p[i][1] && p[i][1] == p[i][2];
			for (int j = 0; j < 3; ++j) {
				if (grey || *std::min_element(p[i].begin(), p[i].end()) >= 1000) {
					worst = std::max(worst, fabs(double(out.at(i, 0)[j]) - in.at(i, 0)[j]) / 65535);
				}
			}
		}
		MC_CHECK(adjusted || c == 8 || worst < 0.02, "conversion %d: a colour changes by %f in going to XYZ and back", int(c), worst);
		mc::state(mc::format("back %d", int(c)));
		mc::trace();
	}
}

/** Something with detail in it */
static shared_ptr<dcp::OpenJPEGImage> scene(dcp::Size size, int which)
{
	auto image = make_shared<dcp::OpenJPEGImage>(size);
	for (int c = 0; c < 3; ++c) {
		for (int y = 0; y < size.height; ++y) {
			for (int x = 0; x < size.width; ++x) {
				int v = 0;
				switch (which) {
				case 0: v = 4095 * x / size.width; break;
				case 1: v = 4095 * y / size.height; break;
				case 2: v = (x / 8 + y / 8 + c) % 2 ? 3000 : 500; break;
				case 3: v = (x * 7919 + y * 104729 + c * 31) * 2654435761u >> 20; break;
				}
				image->data(c)[y * size.width + x] = v;
			}
		}
	}
	return image;
}

static double difference(shared_ptr<dcp::OpenJPEGImage> a, shared_ptr<dcp::OpenJPEGImage> b)
{
	double total = 0;
	for (int c = 0; c < 3; ++c) {
		for (int i = 0; i < a->size().width * a->size().height; ++i) {
			total += abs(a->data(c)[i] - b->data(c)[i]);
		}
	}
	return total / (3 * a->size().width * a->size().height);
}

/** The planes of an image must be what its size says */
static bool whole(shared_ptr<dcp::OpenJPEGImage> i, int width, int height)
{
	for (int c = 0; c < 3; ++c) {
		auto const& comp = i->opj_image()->comps[c];
		if (!comp.data || int(comp.w) != width || int(comp.h) != height) {
			return false;
		}
	}
	return true;
}

static void compression(int64_t& unit)
{
	vector<dcp::Size> const sizes = { { 64, 64 }, { 99, 67 }, { 65, 70 }, { 200, 86 }, { 128, 135 } };
	for (size_t s = 0; s < sizes.size(); ++s) {
		for (int which = 0; which < 4; ++which) {
			for (int large = 0; large < 2; ++large) {
				for (int threed = 0; threed < 2; ++threed) {
					for (int rate: { 24, 48 }) {
						if (!mc::mine(unit++) || !mc::at("compression", { int(s), which, large, threed, rate })) {
							continue;
						}
						auto const size = sizes[s];
						auto const image = scene(size, which);
						auto copy = make_shared<dcp::OpenJPEGImage>(*image);
						auto const what = mc::format("picture %d of %dx%d", which, size.width, size.height);
						/* As much as it wants */
						auto const best = dcp::compress_j2k(make_shared<dcp::OpenJPEGImage>(*image), 1000000000, rate, threed, large, "a comment");
						MC_CHECK(difference(image, copy) == 0 && copy->size() == size, "%s: a copy is different, or compression changes the picture", what.c_str());
						auto const d = best.data();
						MC_CHECK(best.size() > 40 && d[0] == 0xff && d[1] == 0x4f && d[2] == 0xff && d[3] == 0x51 && d[best.size() - 2] == 0xff && d[best.size() - 1] == 0xd9, "%s: not a codestream", what.c_str());
						MC_CHECK((d[6] << 8 | d[7]) == (large ? 4 : 3), "%s: profile %d", what.c_str(), d[6] << 8 | d[7]);
						auto const text = string(reinterpret_cast<char const*>(d), best.size());
						MC_CHECK(text.find("a comment") != string::npos, "%s: comment is lost", what.c_str());
						/* Each way of giving it */
						auto const full = dcp::decompress_j2k(best, 0);
						auto const shared = dcp::decompress_j2k(make_shared<dcp::ArrayData>(best), 0);
						MC_CHECK(full->size() == size && whole(full, size.width, size.height), "%s: came back as %dx%d", what.c_str(), full->size().width, full->size().height);
						MC_CHECK(shared->size() == size && difference(full, shared) == 0, "%s: different when given in a different way", what.c_str());
						auto const error = difference(image, full);
						MC_CHECK(error < (which == 3 ? 30 : 6), "%s: compression changes samples by a mean of %f", what.c_str(), error);
						/* Smaller pictures from it */
						for (int reduce = 1; reduce <= 4; ++reduce) {
							auto const r = dcp::decompress_j2k(best, reduce);
							int const scale = 1 << reduce;
							dcp::Size const expected((size.width + scale - 1) / scale, (size.height + scale - 1) / scale);
							MC_CHECK(abs(r->size().width * scale - size.width) < scale && abs(r->size().height * scale - size.height) < scale, "%s: reduced to 1/%d has size %dx%d", what.c_str(), scale, r->size().width, r->size().height);
							MC_CHECK(whole(r, r->size().width, r->size().height), "%s: reduced to 1/%d its contents are not of the size %dx%d that it says", what.c_str(), scale, r->size().width, r->size().height);
							/* It looks like the picture */
							if (which < 2 && whole(r, r->size().width, r->size().height)) {
								double worst = 0;
								for (int y = 0; y < r->size().height; ++y) {
									for (int x = 0; x < r->size().width; ++x) {
										double const v = which == 0 ? 4095.0 * x * scale / size.width : 4095.0 * y * scale / size.height;
										worst = std::max(worst, fabs(r->data(0)[y * r->size().width + x] - v));
									}
								}
								MC_CHECK(worst < 4095.0 * scale * 1.5 / (which == 0 ? size.width : size.height) + 40, "%s: reduced to 1/%d is different by %f", what.c_str(), scale, worst);
							}
							mc::transition();
						}
						/* Not too much (the codec does not count everything) */
						for (int limit: { 600, 1500, 4000 }) {
							auto const small = dcp::compress_j2k(make_shared<dcp::OpenJPEGImage>(*image), limit * 8 * rate * (threed ? 2 : 1), rate, threed, large);
							MC_CHECK(small.size() <= limit + 40, "%s: takes %d bytes with %d allowed", what.c_str(), small.size(), limit);
							auto const back = dcp::decompress_j2k(small, 0);
							MC_CHECK(back->size() == size, "%s: came back as %dx%d", what.c_str(), back->size().width, back->size().height);
							MC_CHECK(best.size() * 5 / 4 > limit || difference(full, back) < 50, "%s: loses more than it needs to with %d bytes allowed", what.c_str(), limit);
							mc::transition();
						}
						bool refused = false;
						try {
							dcp::compress_j2k(make_shared<dcp::OpenJPEGImage>(*image), 1000000000, rate, threed, large, "");
						} catch (std::exception&) {
							refused = true;
						}
						MC_CHECK(refused, "an empty comment is accepted");
						mc::state(mc::format("compression %d %d %d %d %d", int(s), which, large, threed, rate));
						mc::trace();
					}
				}
			}
		}
	}
	/* 16-bit data */
	if (mc::mine(unit++) && mc::at("sixteen")) {
		for (int extra: { 0, 2, 10 }) {
			Buffer b(256, 256, 6, extra);
			for (int y = 0; y < 256; ++y) {
				for (int x = 0; x < 256; ++x) {
					b.at(x, y)[0] = y * 256 + x;
					b.at(x, y)[1] = x * 256 + y;
					b.at(x, y)[2] = 65535 - y * 256 - x;
				}
			}
			dcp::OpenJPEGImage const image(b.bytes.data(), dcp::Size(256, 256), b.stride);
			MC_CHECK(image.size() == dcp::Size(256, 256) && image.precision(0) == 12, "wrong size");
			bool good = true;
			for (int y = 0; y < 256; ++y) {
				for (int x = 0; x < 256; ++x) {
					for (int c = 0; c < 3; ++c) {
						good = good && image.data(c)[y * 256 + x] == b.at(x, y)[c] / 16;
					}
				}
			}
			MC_CHECK(good, "16-bit data is not the same in 12 bits");
		}
		mc::trace();
	}
}

/** Codestreams which are damaged give an error, or a whole picture */
static void damage(int64_t& unit)
{
	auto const image = scene(dcp::Size(64, 32), 2);
	auto const good = dcp::compress_j2k(make_shared<dcp::OpenJPEGImage>(*image), 2000 * 8 * 24, 24, false, false);
	auto attempt = [](dcp::ArrayData const& d, string const& what) {
		try {
			auto i = dcp::decompress_j2k(d, 0);
			if (!whole(i, i->size().width, i->size().height)) {
				mc::violation(mc::format("%s: gives a picture which says that it is %dx%d and is not", what.c_str(), i->size().width, i->size().height));
			}
			mc::outcome("picture");
		} catch (dcp::ReadError&) {
			mc::outcome("read error");
		} catch (dcp::MiscError&) {
			mc::outcome("error");
		}
		mc::transition();
	};
	for (int part = 0; part < 64; ++part) {
		if (!mc::mine(unit++) || !mc::at("shortened", { part })) {
			continue;
		}
		for (int n = part; n < good.size(); n += 64) {
			dcp::ArrayData d(good.data(), n);
			attempt(d, mc::format("a codestream of %d bytes with the last %d lost", good.size(), good.size() - n));
		}
		mc::trace();
	}
	for (int part = 0; part < 64; ++part) {
		if (!mc::mine(unit++) || !mc::at("changed", { part })) {
			continue;
		}
		/* All of the headers, and the start of the data */
		for (int n = part; n < std::min(good.size(), mc::thorough() ? 1000 : 300); n += 64) {
			/* Sizes of gigabytes are for the codec to refuse */
			if (n >= 8 && n < 40 && (n - 8) % 4 < 2) {
				continue;
			}
			for (int value: { 0, 1, 2, 3, 4, 127, 128, 255 }) {
				dcp::ArrayData d(good);
				if (d.data()[n] == value) {
					continue;
				}
				d.data()[n] = value;
				attempt(d, mc::format("a codestream with byte %d changed to %d", n, value));
			}
		}
		mc::state(mc::format("changed %d", part));
		mc::trace();
	}
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	int64_t unit = 0;
	auto t0 = time(nullptr);
#define T(x) x(unit); if (getenv("T")) fprintf(stderr, "%s %ld\n", #x, long(time(nullptr) - t0));
	T(to_xyz)
	T(to_rgb)
	T(compression)
	T(damage)
	mc::finish();
}
