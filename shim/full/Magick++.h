/* What tools/dcpdumpimage.cc needs of Magick++, which is not installed: an image is written as its size, the order of its
 * channels, its pixels and then the lines which were drawn on it.
 */

#ifndef VERIF_MAGICK_H
#define VERIF_MAGICK_H

#include <fstream>
#include <sstream>
#include <stdexcept>
#include <string>

namespace Magick {

enum StorageType { CharPixel };

inline void InitializeMagick(char const*) {}

struct DrawableLine
{
	DrawableLine(double x1_, double y1_, double x2_, double y2_)
		: x1(x1_), y1(y1_), x2(x2_), y2(y2_)
	{}

	double x1, y1, x2, y2;
};

class Image
{
public:
	Image(size_t width, size_t height, std::string const& map, StorageType, void const* pixels)
		: _pixels(static_cast<char const*>(pixels), width * height * map.length())
	{
		std::ostringstream s;
		s << width << " " << height << " " << map << "\n";
		_header = s.str();
	}

	void strokeColor(std::string const&) {}
	void strokeWidth(double) {}

	void draw(DrawableLine const& line)
	{
		std::ostringstream s;
		s << "line " << line.x1 << " " << line.y1 << " " << line.x2 << " " << line.y2 << "\n";
		_lines += s.str();
	}

	void write(std::string const& file)
	{
		std::ofstream f(file, std::ios::binary);
		f << _header << _pixels << _lines;
		f.close();
		if (!f) {
			throw std::runtime_error("Magick: unable to open image `" + file + "'");
		}
	}

private:
	std::string _header;
	std::string _pixels;
	std::string _lines;
};

}

#endif
