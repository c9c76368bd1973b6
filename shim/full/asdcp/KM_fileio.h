#ifndef SHIM_KM_FILEIO_H
#define SHIM_KM_FILEIO_H

#include "KM_types.h"
#include "KM_util.h"

namespace Kumu {

class FileReader
{
public:
	FileReader() {}
	~FileReader();
	FileReader(FileReader const&) = delete;
	FileReader& operator=(FileReader const&) = delete;

	Result_t OpenRead(std::string const& filename) const;
	Result_t Close() const;
	fsize_t Size() const;
	Result_t Seek(fpos_t position = 0) const;
	Result_t Read(byte_t* buf, ui32_t len, ui32_t* read_count = nullptr) const;

private:
	mutable int _fd = -1;
};

class IFileReaderFactory
{
public:
	virtual ~IFileReaderFactory() {}
};

class FileReaderFactory : public IFileReaderFactory
{

};

}

#endif
