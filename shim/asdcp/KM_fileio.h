#ifndef SHIM_KM_FILEIO_H
#define SHIM_KM_FILEIO_H

#include "KM_util.h"
#include <string>

namespace Kumu {

typedef ui64_t fsize_t;
typedef i64_t fpos_t;

bool PathExists(std::string const& path);
bool PathIsFile(std::string const& path);
fsize_t FileSize(std::string const& path);

class FileReader
{
public:
	FileReader() {}
	~FileReader();
	FileReader(FileReader const&) = delete;
	FileReader& operator=(FileReader const&) = delete;

	Result_t OpenRead(std::string const& filename) const;
	Result_t Close() const;
	fsize_t Size() const;
	Result_t Seek(fpos_t position = 0) const;
	Result_t Read(byte_t* buf, ui32_t len, ui32_t* read = nullptr) const;
	bool IsOpen() const { return _fd >= 0; }

private:
	mutable int _fd = -1;
	mutable std::string _filename;
};

class IFileReaderFactory
{
public:
	virtual ~IFileReaderFactory() {}
};

class FileReaderFactory : public IFileReaderFactory
{
};

Result_t ReadFileIntoString(std::string const& filename, std::string& out, ui32_t max_size = 8 * Megabyte);

}

#endif
