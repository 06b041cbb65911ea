#include "asdcp/AS_DCP.h"
#include "asdcp/KM_log.h"
#include "asdcp/KM_prng.h"
#include <openssl/aes.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/md5.h>
#include <openssl/rand.h>
#include <openssl/sha.h>
#include <cctype>
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>


/* ======================= Kumu ======================= */

namespace Kumu {

ILogSink&
DefaultLogSink()
{
	static ILogSink sink;
	return sink;
}

i32_t
hex2bin(char const* str, byte_t* buf, ui32_t buf_len, ui32_t* conv_size)
{
	if (!str || !buf || !conv_size) {
		return -1;
	}

	*conv_size = 0;
	if (str[0] == 0) {
		return -1;
	}

	for (int j = 0; str[j]; ++j) {
		if (isxdigit(static_cast<unsigned char>(str[j]))) {
			(*conv_size)++;
		}
	}

	if (*conv_size & 1) {
		(*conv_size)++;
	}
	*conv_size /= 2;

	if (*conv_size > buf_len) {
		return -1;
	}

	*conv_size = 0;
	int phase = 0;
	for (int i = 0; str[i]; ++i) {
		auto const c = static_cast<unsigned char>(str[i]);
		if (!isxdigit(c)) {
			continue;
		}
		byte_t const v = c - (isdigit(c) ? 0x30 : (isupper(c) ? 0x37 : 0x57));
		if (phase == 0) {
			buf[*conv_size] = v << 4;
			phase = 1;
		} else {
			buf[*conv_size] |= v;
			phase = 0;
			(*conv_size)++;
		}
	}

	return 0;
}

static char const hex[] = "0123456789abcdef";

char const*
bin2hex(byte_t const* bin, ui32_t len, char* str, ui32_t str_len)
{
	if (!bin || !str || len * 2 + 1 > str_len) {
		return nullptr;
	}
	char* p = str;
	for (ui32_t i = 0; i < len; ++i) {
		*p++ = hex[bin[i] >> 4];
		*p++ = hex[bin[i] & 15];
	}
	*p = 0;
	return str;
}

char const*
bin2UUIDhex(byte_t const* bin, ui32_t len, char* str, ui32_t str_len)
{
	if (!bin || !str || len * 2 + 5 > str_len || len < 16) {
		return nullptr;
	}
	char* p = str;
	for (ui32_t i = 0; i < len; ++i) {
		if (i == 4 || i == 6 || i == 8 || i == 10) {
			*p++ = '-';
		}
		*p++ = hex[bin[i] >> 4];
		*p++ = hex[bin[i] & 15];
	}
	*p = 0;
	return str;
}

char const*
base64encode(byte_t const* buf, ui32_t len, char* out, ui32_t out_len)
{
	if (!buf || !out || out_len < ((len + 2) / 3) * 4 + 1) {
		return nullptr;
	}
	static char const a[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	char* p = out;
	for (ui32_t i = 0; i < len; i += 3) {
		ui32_t v = buf[i] << 16;
		if (i + 1 < len) {
			v |= buf[i + 1] << 8;
		}
		if (i + 2 < len) {
			v |= buf[i + 2];
		}
		*p++ = a[(v >> 18) & 63];
		*p++ = a[(v >> 12) & 63];
		*p++ = i + 1 < len ? a[(v >> 6) & 63] : '=';
		*p++ = i + 2 < len ? a[v & 63] : '=';
	}
	*p = 0;
	return out;
}

void (*random_source)(byte_t*, ui32_t) = nullptr;

static void
random_bytes(byte_t* buf, ui32_t len)
{
	if (random_source) {
		random_source(buf, len);
	} else {
		RAND_bytes(buf, len);
	}
}

void
GenRandomUUID(byte_t* buf)
{
	random_bytes(buf, 16);
	buf[6] = (buf[6] & 0x0f) | 0x40;
	buf[8] = (buf[8] & 0x3f) | 0x80;
}

void
GenRandomValue(UUID& id)
{
	byte_t b[16];
	GenRandomUUID(b);
	id.Set(b);
}

void
GenRandomValue(SymmetricKey& id)
{
	byte_t b[16];
	random_bytes(b, 16);
	id.Set(b);
}

byte_t const*
FortunaRNG::FillRandom(byte_t* buf, ui32_t len)
{
	random_bytes(buf, len);
	return buf;
}

byte_t const*
FortunaRNG::FillRandom(ByteString& s)
{
	FillRandom(s.Data(), s.Capacity());
	s.Length(s.Capacity());
	return s.Data();
}

bool
PathExists(std::string const& path)
{
	struct stat s;
	return stat(path.c_str(), &s) == 0;
}

bool
PathIsFile(std::string const& path)
{
	struct stat s;
	return stat(path.c_str(), &s) == 0 && S_ISREG(s.st_mode);
}

fsize_t
FileSize(std::string const& path)
{
	struct stat s;
	return stat(path.c_str(), &s) == 0 ? s.st_size : 0;
}

FileReader::~FileReader()
{
	Close();
}

Result_t
FileReader::OpenRead(std::string const& filename) const
{
	Close();
	_filename = filename;
	_fd = open(filename.c_str(), O_RDONLY | O_CLOEXEC);
	return _fd >= 0 ? RESULT_OK : RESULT_FILEOPEN.os(errno);
}

Result_t
FileReader::Close() const
{
	if (_fd >= 0) {
		::close(_fd);
	}
	_fd = -1;
	return RESULT_OK;
}

fsize_t
FileReader::Size() const
{
	return FileSize(_filename);
}

Result_t
FileReader::Seek(fpos_t position) const
{
	return lseek(_fd, position, SEEK_SET) < 0 ? RESULT_BADSEEK.os(errno) : RESULT_OK;
}

Result_t
FileReader::Read(byte_t* buf, ui32_t len, ui32_t* out) const
{
	ui32_t dummy;
	if (!out) {
		out = &dummy;
	}
	*out = 0;
	if (_fd < 0) {
		return RESULT_FILEOPEN;
	}
	auto const r = ::read(_fd, buf, len);
	if (r < 0) {
		return RESULT_READFAIL.os(errno);
	}
	*out = r;
	return r == 0 ? RESULT_ENDOFFILE : RESULT_OK;
}

}


/* ======================= dictionary and metadata ======================= */

namespace ASDCP {

char const*
UL::EncodeString(char* buf, ui32_t len) const
{
	/* 060e2b34.0401010d.03020101.00000000 */
	if (len < 36) {
		return nullptr;
	}
	char* p = buf;
	for (ui32_t i = 0; i < 16; ++i) {
		if (i == 4 || i == 8 || i == 12) {
			*p++ = '.';
		}
		snprintf(p, 3, "%02x", _value[i]);
		p += 2;
	}
	*p = 0;
	return buf;
}

namespace {

struct Labels
{
	byte_t data[MDD_Max][SMPTE_UL_LENGTH];

	Labels()
	{
		static byte_t const base[SMPTE_UL_LENGTH] = {
			0x06, 0x0e, 0x2b, 0x34, 0x04, 0x01, 0x01, 0x0d, 0x03, 0x02, 0x01, 0x01, 0x00, 0x00, 0x00, 0x00
		};
		for (int i = 0; i < MDD_Max; ++i) {
			memcpy(data[i], base, SMPTE_UL_LENGTH);
			data[i][12] = 1 + i;
		}
		/* the registered values of the labels that libdcp knows by number */
		struct { MDD_t t; byte_t a, b, c; } const channels[] = {
			{ MDD_DCAudioChannel_L, 0x01, 0x00, 0x00 },
			{ MDD_DCAudioChannel_R, 0x02, 0x00, 0x00 },
			{ MDD_DCAudioChannel_C, 0x03, 0x00, 0x00 },
			{ MDD_DCAudioChannel_LFE, 0x04, 0x00, 0x00 },
			{ MDD_DCAudioChannel_Ls, 0x05, 0x00, 0x00 },
			{ MDD_DCAudioChannel_Rs, 0x06, 0x00, 0x00 },
			{ MDD_DCAudioChannel_Lss, 0x07, 0x00, 0x00 },
			{ MDD_DCAudioChannel_Rss, 0x08, 0x00, 0x00 },
			{ MDD_DCAudioChannel_Lrs, 0x09, 0x00, 0x00 },
			{ MDD_DCAudioChannel_Rrs, 0x0a, 0x00, 0x00 },
			{ MDD_DCAudioChannel_Lc, 0x0b, 0x00, 0x00 },
			{ MDD_DCAudioChannel_Rc, 0x0c, 0x00, 0x00 },
			{ MDD_DCAudioChannel_Cs, 0x0d, 0x00, 0x00 },
			{ MDD_DCAudioChannel_HI, 0x0e, 0x00, 0x00 },
			{ MDD_DCAudioChannel_VIN, 0x0f, 0x00, 0x00 },
			{ MDD_DCAudioSoundfield_51, 0x20, 0x01, 0x00 },
			{ MDD_DCAudioSoundfield_71, 0x20, 0x02, 0x00 },
		};
		for (auto const& c: channels) {
			data[c.t][11] = 0x02;
			data[c.t][12] = c.a;
			data[c.t][13] = c.b;
			data[c.t][14] = c.c;
		}
	}
};

Labels const& labels()
{
	static Labels const l;
	return l;
}

}

byte_t const*
Dictionary::ul(MDD_t type) const
{
	return labels().data[type];
}

Dictionary const& DefaultSMPTEDict() { static Dictionary const d{}; return d; }
Dictionary const& DefaultInteropDict() { return DefaultSMPTEDict(); }
Dictionary const& DefaultCompositeDict() { return DefaultSMPTEDict(); }

namespace MXF {

static char const*
encode(std::string const& s, char* buf, ui32_t len)
{
	if (s.length() + 1 > len) {
		*buf = 0;
		return nullptr;
	}
	memcpy(buf, s.c_str(), s.length() + 1);
	return buf;
}

char const* UTF16String::EncodeString(char* buf, ui32_t len) const { return encode(*this, buf, len); }
char const* ISO8String::EncodeString(char* buf, ui32_t len) const { return encode(*this, buf, len); }

InterchangeObject::InterchangeObject(Dictionary const*, MDD_t type)
	: _type(type)
{

}

void
OP1aHeader::AddChildObject(InterchangeObject* object)
{
	if (!object->InstanceUID.HasValue()) {
		Kumu::GenRandomValue(object->InstanceUID);
	}
	_objects.push_back(std::shared_ptr<InterchangeObject>(object));
}

Result_t
OP1aHeader::GetMDObjectByType(byte_t const* ul, InterchangeObject** object)
{
	for (auto const& i: _objects) {
		if (memcmp(labels().data[i->type()], ul, SMPTE_UL_LENGTH) == 0) {
			if (object) {
				*object = i.get();
			}
			return RESULT_OK;
		}
	}
	if (object) {
		*object = nullptr;
	}
	return RESULT_FAIL;
}

Result_t
OP1aHeader::GetMDObjectsByType(byte_t const* ul, std::list<InterchangeObject*>& objects)
{
	for (auto const& i: _objects) {
		if (memcmp(labels().data[i->type()], ul, SMPTE_UL_LENGTH) == 0) {
			objects.push_back(i.get());
		}
	}
	return objects.empty() ? RESULT_FAIL : RESULT_OK;
}

}


/* ======================= crypto ======================= */

Result_t
AESContext::InitKey(byte_t const* key)
{
	memcpy(_key, key, CBC_KEY_SIZE);
	_has_key = true;
	return RESULT_OK;
}

Result_t
AESContext::SetIVec(byte_t const* iv)
{
	memcpy(_iv, iv, CBC_BLOCK_SIZE);
	_has_iv = true;
	return RESULT_OK;
}

Result_t
AESContext::GetIVec(byte_t* iv) const
{
	memcpy(iv, _iv, CBC_BLOCK_SIZE);
	return RESULT_OK;
}

static bool
aes_cbc(bool encrypt, byte_t const* key, byte_t const* iv, byte_t const* in, byte_t* out, ui32_t size)
{
	auto ctx = EVP_CIPHER_CTX_new();
	int n = 0, m = 0;
	bool ok = EVP_CipherInit_ex(ctx, EVP_aes_128_cbc(), nullptr, key, iv, encrypt) == 1
		&& EVP_CIPHER_CTX_set_padding(ctx, 0) == 1
		&& EVP_CipherUpdate(ctx, out, &n, in, size) == 1
		&& EVP_CipherFinal_ex(ctx, out + n, &m) == 1;
	EVP_CIPHER_CTX_free(ctx);
	return ok;
}

Result_t
AESEncContext::EncryptBlock(byte_t const* in, byte_t* out, ui32_t size)
{
	if (!ready() || size % CBC_BLOCK_SIZE) {
		return RESULT_CRYPT_INIT;
	}
	if (size == 0) {
		return RESULT_OK;
	}
	if (!aes_cbc(true, _key, _iv, in, out, size)) {
		return RESULT_CRYPT_CTX;
	}
	memcpy(_iv, out + size - CBC_BLOCK_SIZE, CBC_BLOCK_SIZE);
	return RESULT_OK;
}

Result_t
AESDecContext::DecryptBlock(byte_t const* in, byte_t* out, ui32_t size)
{
	if (!ready() || size % CBC_BLOCK_SIZE) {
		return RESULT_CRYPT_INIT;
	}
	if (size == 0) {
		return RESULT_OK;
	}
	byte_t next[CBC_BLOCK_SIZE];
	memcpy(next, in + size - CBC_BLOCK_SIZE, CBC_BLOCK_SIZE);
	if (!aes_cbc(false, _key, _iv, in, out, size)) {
		return RESULT_CRYPT_CTX;
	}
	memcpy(_iv, next, CBC_BLOCK_SIZE);
	return RESULT_OK;
}

Result_t
HMACContext::InitKey(byte_t const* key, LabelSet_t set)
{
	byte_t digest[SHA_DIGEST_LENGTH];
	std::string k(reinterpret_cast<char const*>(key), KeyLen);
	k += set == LS_MXF_SMPTE ? "smpte" : "interop";
	SHA1(reinterpret_cast<byte_t const*>(k.data()), k.size(), digest);
	_key.assign(reinterpret_cast<char*>(digest), KeyLen);
	_data.clear();
	_ready = true;
	return RESULT_OK;
}

Result_t
HMACContext::Update(byte_t const* data, ui32_t size)
{
	_data.append(reinterpret_cast<char const*>(data), size);
	return RESULT_OK;
}

Result_t
HMACContext::Finalize()
{
	if (!_ready) {
		return RESULT_INIT;
	}
	unsigned int len = HMAC_SIZE;
	HMAC(EVP_sha1(), _key.data(), _key.size(), reinterpret_cast<byte_t const*>(_data.data()), _data.size(), _value, &len);
	_data.clear();
	return RESULT_OK;
}

Result_t
HMACContext::GetHMACValue(byte_t* out) const
{
	memcpy(out, _value, HMAC_SIZE);
	return RESULT_OK;
}

Result_t
HMACContext::TestHMACValue(byte_t const* value) const
{
	return memcmp(value, _value, HMAC_SIZE) == 0 ? RESULT_OK : RESULT_HMACFAIL;
}


/* ======================= frame buffer ======================= */

FrameBuffer::~FrameBuffer()
{
	if (_own) {
		free(_data);
	}
}

Result_t
FrameBuffer::SetData(byte_t* data, ui32_t size)
{
	if (_own) {
		free(_data);
	}
	_own = false;
	_data = data;
	_capacity = size;
	_size = size;
	return RESULT_OK;
}

Result_t
FrameBuffer::Capacity(ui32_t capacity)
{
	if (!_own && _data) {
		return RESULT_CAPEXTMEM;
	}
	if (_capacity < capacity) {
		free(_data);
		_data = static_cast<byte_t*>(malloc(capacity));
		if (!_data) {
			_capacity = 0;
			return Kumu::RESULT_ALLOC;
		}
		_own = true;
		_capacity = capacity;
		_size = 0;
	}
	return RESULT_OK;
}


/* ======================= serialisation ======================= */

class Archive
{
public:
	Archive() {}
	explicit Archive(std::string const& data) : _reading(true), _data(data) {}

	bool reading() const { return _reading; }
	bool good() const { return _good; }
	std::string const& data() const { return _data; }

	void bytes(void* p, size_t n) {
		if (_reading) {
			if (_data.size() - _pos < n) {
				_good = false;
				memset(p, 0, n);
				return;
			}
			memcpy(p, _data.data() + _pos, n);
			_pos += n;
		} else {
			_data.append(static_cast<char const*>(p), n);
		}
	}

	template <class T> void num(T& v) {
		ui64_t x = static_cast<ui64_t>(v);
		bytes(&x, sizeof(x));
		v = static_cast<T>(x);
	}

	void str(std::string& s) {
		ui32_t n = s.size();
		num(n);
		if (_reading) {
			if (_data.size() - _pos < n) {
				_good = false;
				return;
			}
			s = _data.substr(_pos, n);
			_pos += n;
		} else {
			_data += s;
		}
	}

	template <class S> void xstr(S& s) {
		std::string t = s;
		str(t);
		s = t;
	}

	void rat(Rational& r) {
		num(r.Numerator);
		num(r.Denominator);
	}

	template <class I> void id(I& i) {
		byte_t b[16];
		memcpy(b, i.Value(), 16);
		bool has = i.HasValue();
		num(has);
		bytes(b, 16);
		if (_reading) {
			if (has) {
				i.Set(b);
			} else {
				i.Reset();
			}
		}
	}

private:
	bool _reading = false;
	bool _good = true;
	std::string _data;
	size_t _pos = 0;
};

static void
serialise(Archive& a, WriterInfo& i)
{
	a.bytes(i.ProductUUID, UUIDlen);
	a.bytes(i.AssetUUID, UUIDlen);
	a.bytes(i.ContextID, UUIDlen);
	a.bytes(i.CryptographicKeyID, UUIDlen);
	a.num(i.EncryptedEssence);
	a.num(i.UsesHMAC);
	a.str(i.ProductVersion);
	a.str(i.CompanyName);
	a.str(i.ProductName);
	a.num(i.LabelSetType);
}

static void
serialise(Archive& a, MPEG2::VideoDescriptor& d)
{
	a.rat(d.EditRate);
	a.num(d.FrameRate);
	a.rat(d.SampleRate);
	a.num(d.FrameLayout);
	a.num(d.StoredWidth);
	a.num(d.StoredHeight);
	a.rat(d.AspectRatio);
	a.num(d.ComponentDepth);
	a.num(d.HorizontalSubsampling);
	a.num(d.VerticalSubsampling);
	a.num(d.ColorSiting);
	a.num(d.CodedContentType);
	a.num(d.LowDelay);
	a.num(d.BitRate);
	a.num(d.ProfileAndLevel);
	a.num(d.ContainerDuration);
}

static void
serialise(Archive& a, PCM::AudioDescriptor& d)
{
	a.rat(d.EditRate);
	a.rat(d.AudioSamplingRate);
	a.num(d.Locked);
	a.num(d.ChannelCount);
	a.num(d.QuantizationBits);
	a.num(d.BlockAlign);
	a.num(d.AvgBps);
	a.num(d.LinkedTrackID);
	a.num(d.ContainerDuration);
	a.num(d.ChannelFormat);
}

static void
serialise(Archive& a, JP2K::PictureDescriptor& d)
{
	a.rat(d.EditRate);
	a.num(d.ContainerDuration);
	a.rat(d.SampleRate);
	a.num(d.StoredWidth);
	a.num(d.StoredHeight);
	a.rat(d.AspectRatio);
	a.num(d.Rsize);
	a.num(d.Xsize);
	a.num(d.Ysize);
	a.num(d.XOsize);
	a.num(d.YOsize);
	a.num(d.XTsize);
	a.num(d.YTsize);
	a.num(d.XTOsize);
	a.num(d.YTOsize);
	a.num(d.Csize);
	for (auto& c: d.ImageComponents) {
		a.num(c.Ssize);
		a.num(c.XRsize);
		a.num(c.YRsize);
	}
}

static void
serialise(Archive& a, TimedText::TimedTextDescriptor& d)
{
	a.rat(d.EditRate);
	a.num(d.ContainerDuration);
	a.bytes(d.AssetID, UUIDlen);
	a.str(d.NamespaceName);
	a.str(d.EncodingName);
	ui32_t n = d.ResourceList.size();
	a.num(n);
	if (a.reading()) {
		d.ResourceList.clear();
		for (ui32_t i = 0; i < n && a.good(); ++i) {
			TimedText::TimedTextResourceDescriptor r;
			a.bytes(r.ResourceID, UUIDlen);
			a.num(r.Type);
			d.ResourceList.push_back(r);
		}
	} else {
		for (auto& r: d.ResourceList) {
			a.bytes(r.ResourceID, UUIDlen);
			a.num(r.Type);
		}
	}
}

static void
serialise(Archive& a, ATMOS::AtmosDescriptor& d)
{
	a.rat(d.EditRate);
	a.num(d.ContainerDuration);
	a.bytes(d.AssetID, UUIDlen);
	a.bytes(d.DataEssenceCoding, UUIDlen);
	a.num(d.FirstFrame);
	a.num(d.MaxChannelCount);
	a.num(d.MaxObjectCount);
	a.bytes(d.AtmosID, UUIDlen);
	a.num(d.AtmosVersion);
}

template <class P, class F>
static void
optional(Archive& a, P& p, F f)
{
	bool has = !p.empty();
	a.num(has);
	if (has) {
		auto v = p.get();
		f(v);
		p = v;
	}
}

static void
serialise(Archive& a, MXF::OP1aHeader& h)
{
	ui32_t n = h.objects().size();
	a.num(n);
	for (ui32_t i = 0; i < n && a.good(); ++i) {
		int type = a.reading() ? 0 : h.objects()[i]->type();
		a.num(type);
		MXF::InterchangeObject* o = nullptr;
		if (a.reading()) {
			switch (type) {
			case MDD_WaveAudioDescriptor:
				o = new MXF::WaveAudioDescriptor(nullptr);
				break;
			case MDD_SoundfieldGroupLabelSubDescriptor:
				o = new MXF::SoundfieldGroupLabelSubDescriptor(nullptr);
				break;
			case MDD_AudioChannelLabelSubDescriptor:
				o = new MXF::AudioChannelLabelSubDescriptor(nullptr);
				break;
			default:
				return;
			}
		} else {
			o = h.objects()[i].get();
		}
		a.id(o->InstanceUID);
		if (type == MDD_WaveAudioDescriptor) {
			auto w = static_cast<MXF::WaveAudioDescriptor*>(o);
			a.id(w->ChannelAssignment);
			ui32_t s = w->SubDescriptors.size();
			a.num(s);
			for (ui32_t j = 0; j < s && a.good(); ++j) {
				UUID id;
				if (!a.reading()) {
					id = w->SubDescriptors[j];
				}
				a.id(id);
				if (a.reading()) {
					w->SubDescriptors.push_back(id);
				}
			}
		} else {
			auto m = static_cast<MXF::MCALabelSubDescriptor*>(o);
			a.id(m->MCALabelDictionaryID);
			a.id(m->MCALinkID);
			a.xstr(m->MCATagSymbol);
			optional(a, m->MCATagName, [&](MXF::UTF16String& s) { a.xstr(s); });
			optional(a, m->MCAChannelID, [&](ui32_t& s) { a.num(s); });
			optional(a, m->RFC5646SpokenLanguage, [&](MXF::ISO8String& s) { a.xstr(s); });
			if (type == MDD_AudioChannelLabelSubDescriptor) {
				optional(a, static_cast<MXF::AudioChannelLabelSubDescriptor*>(m)->SoundfieldGroupLinkID, [&](UUID& id) { a.id(id); });
			}
		}
		if (a.reading()) {
			h.AddChildObject(o);
		}
	}
}


/* ======================= container ======================= */

/* Header: 16 bytes magic, then u64 type, u64 finalised, u64 footer offset, u64 footer length */
static char const magic[] = "MiniMXF-essence\n";
static byte_t const check_value[CBC_BLOCK_SIZE] = { 'C','H','U','K','C','H','U','K','C','H','U','K','C','H','U','K' };

struct RecordHeader
{
	ui32_t magic;
	ui32_t encrypted;
	ui64_t sequence;
	ui32_t source_length;
	ui32_t plaintext_offset;
	ui32_t stored_length;
	ui32_t has_hmac;
	byte_t iv[CBC_BLOCK_SIZE];
	byte_t check[CBC_BLOCK_SIZE];
};

static ui32_t const record_magic = 0x4d524621;
static ui32_t const max_record = 512 * 1024 * 1024;

MiniWriter::MiniWriter() {}

MiniWriter::~MiniWriter()
{
	if (_fd >= 0) {
		::close(_fd);
	}
}

Result_t
MiniWriter::put(std::string const& data)
{
	size_t done = 0;
	while (done < data.size()) {
		auto const r = ::write(_fd, data.data() + done, data.size() - done);
		if (r < 0) {
			if (errno == EINTR) {
				continue;
			}
			return RESULT_WRITEFAIL.os(errno);
		}
		if (r == 0) {
			return RESULT_WRITEFAIL.os(ENOSPC);
		}
		done += r;
		_position += r;
	}
	return RESULT_OK;
}

static std::string
header(EssenceType_t type, bool finalised, ui64_t offset, ui64_t length)
{
	Archive a;
	a.bytes(const_cast<char*>(magic), 16);
	a.num(type);
	a.num(finalised);
	a.num(offset);
	a.num(length);
	return a.data();
}

Result_t
MiniWriter::open(std::string const& filename, WriterInfo const& info, EssenceType_t type, ui32_t header_size, bool overwrite)
{
	if (_fd >= 0) {
		return RESULT_STATE;
	}

	_fd = ::open(filename.c_str(), overwrite ? O_RDWR | O_CLOEXEC : O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0664);
	if (_fd < 0) {
		return RESULT_FILEOPEN.os(errno);
	}

	_info = info;
	_type = type;
	_header_size = std::max<ui32_t>(header_size, 1024);
	auto h = header(type, false, 0, 0);
	h.resize(_header_size);
	return put(h);
}

Result_t
MiniWriter::write(FrameBuffer const& buffer, AESEncContext* ctx, HMACContext* hmac, std::string* hash, bool index)
{
	if (_fd < 0 || _finalized) {
		return RESULT_STATE;
	}

	if (buffer.Size() == 0) {
		return RESULT_EMPTY_FB;
	}

	if (_info.EncryptedEssence && !ctx) {
		return RESULT_CRYPT_CTX;
	}
	if (_info.EncryptedEssence && _info.UsesHMAC && !hmac) {
		return RESULT_HMAC_CTX;
	}

	RecordHeader h;
	memset(&h, 0, sizeof(h));
	h.magic = record_magic;
	h.sequence = ++_sequence;
	h.source_length = buffer.Size();
	std::string payload(reinterpret_cast<char const*>(buffer.RoData()), buffer.Size());

	if (_info.EncryptedEssence) {
		h.encrypted = 1;
		if (buffer.PlaintextOffset() > buffer.Size()) {
			return RESULT_LARGE_PTO;
		}
		h.plaintext_offset = buffer.PlaintextOffset();
		ctx->GetIVec(h.iv);
		auto r = ctx->EncryptBlock(check_value, h.check, CBC_BLOCK_SIZE);
		if (r.Failure()) {
			return r;
		}
		auto secret = payload.substr(h.plaintext_offset);
		auto const pad = CBC_BLOCK_SIZE - (secret.size() % CBC_BLOCK_SIZE);
		secret.append(pad, static_cast<char>(pad));
		std::string cipher(secret.size(), '\0');
		r = ctx->EncryptBlock(reinterpret_cast<byte_t const*>(secret.data()), reinterpret_cast<byte_t*>(&cipher[0]), secret.size());
		if (r.Failure()) {
			return r;
		}
		payload = payload.substr(0, h.plaintext_offset) + cipher;
	}

	h.stored_length = payload.size();
	h.has_hmac = h.encrypted && _info.UsesHMAC;
	std::string record(reinterpret_cast<char const*>(&h), sizeof(h));
	record += payload;

	if (h.has_hmac) {
		hmac->Reset();
		hmac->Update(_info.AssetUUID, UUIDlen);
		hmac->Update(reinterpret_cast<byte_t const*>(record.data()), record.size());
		hmac->Finalize();
		byte_t value[HMAC_SIZE];
		hmac->GetHMACValue(value);
		record.append(reinterpret_cast<char*>(value), HMAC_SIZE);
	}

	if (hash) {
		byte_t digest[MD5_DIGEST_LENGTH];
		MD5(reinterpret_cast<byte_t const*>(record.data()), record.size(), digest);
		char buf[MD5_DIGEST_LENGTH * 2 + 1];
		Kumu::bin2hex(digest, MD5_DIGEST_LENGTH, buf, sizeof(buf));
		*hash = buf;
	}

	if (index) {
		_index.push_back(_position);
	}
	return put(record);
}

Result_t
MiniWriter::fake(ui32_t size, bool index)
{
	if (_fd < 0 || _finalized) {
		return RESULT_STATE;
	}
	if (index) {
		_index.push_back(_position);
	}
	++_sequence;
	_position += size;
	return lseek(_fd, _position, SEEK_SET) < 0 ? RESULT_BADSEEK.os(errno) : RESULT_OK;
}

Result_t
MiniWriter::finalize(std::string const& descriptor, MXF::OP1aHeader const& op1a)
{
	if (_fd < 0 || _finalized) {
		return RESULT_STATE;
	}

	Archive a;
	serialise(a, _info);
	std::string d = descriptor;
	a.str(d);
	serialise(a, const_cast<MXF::OP1aHeader&>(op1a));
	ui64_t n = _index.size();
	a.num(n);
	for (auto i: _index) {
		a.num(i);
	}

	auto const offset = _position;
	auto r = put(a.data());
	if (r.Failure()) {
		return r;
	}
	if (lseek(_fd, 0, SEEK_SET) < 0) {
		return RESULT_BADSEEK.os(errno);
	}
	auto const end = _position;
	r = put(header(_type, true, offset, a.data().size()));
	_position = end;
	if (r.Failure()) {
		return r;
	}
	_finalized = true;
	if (::close(_fd) < 0) {
		_fd = -1;
		return RESULT_WRITEFAIL.os(errno);
	}
	_fd = -1;
	return RESULT_OK;
}

static bool
read_at(int fd, void* p, size_t n, ui64_t offset)
{
	size_t done = 0;
	while (done < n) {
		auto const r = pread(fd, static_cast<char*>(p) + done, n - done, offset + done);
		if (r <= 0) {
			return false;
		}
		done += r;
	}
	return true;
}

MiniReader::MiniReader() {}

MiniReader::~MiniReader()
{
	close();
}

void
MiniReader::close()
{
	if (_fd >= 0) {
		::close(_fd);
	}
	_fd = -1;
}

Result_t
MiniReader::open(std::string const& filename, EssenceType_t wanted, EssenceType_t alternative)
{
	close();
	header.clear();
	_fd = ::open(filename.c_str(), O_RDONLY | O_CLOEXEC);
	if (_fd < 0) {
		return RESULT_FILEOPEN.os(errno);
	}

	std::string h(16 + 4 * 8, '\0');
	if (!read_at(_fd, &h[0], h.size(), 0) || memcmp(h.data(), magic, 16)) {
		return RESULT_FORMAT;
	}

	Archive a(h.substr(16));
	bool finalised = false;
	ui64_t offset = 0;
	ui64_t length = 0;
	a.num(type);
	a.num(finalised);
	a.num(offset);
	a.num(length);
	if (!finalised || length > max_record) {
		return RESULT_FORMAT;
	}
	if (wanted != ESS_UNKNOWN && type != wanted && (alternative == ESS_UNKNOWN || type != alternative)) {
		if (wanted == ESS_JPEG_2000 && type == ESS_JPEG_2000_S) {
			return RESULT_SFORMAT;
		}
		return RESULT_FORMAT;
	}

	std::string f(length, '\0');
	if (length == 0 || !read_at(_fd, &f[0], length, offset)) {
		return RESULT_FORMAT;
	}

	Archive b(f);
	serialise(b, info);
	b.str(descriptor);
	serialise(b, header);
	ui64_t n = 0;
	b.num(n);
	_index.clear();
	for (ui64_t i = 0; i < n && b.good(); ++i) {
		ui64_t o = 0;
		b.num(o);
		_index.push_back(o);
	}

	return b.good() ? RESULT_OK : RESULT_FORMAT;
}

Result_t
MiniReader::read(ui32_t frame, ui32_t following, FrameBuffer& buffer, AESDecContext* ctx, HMACContext* hmac) const
{
	if (_fd < 0) {
		return RESULT_INIT;
	}
	if (frame >= _index.size()) {
		return RESULT_RANGE;
	}

	auto offset = _index[frame];
	RecordHeader h;
	for (ui32_t i = 0; i <= following; ++i) {
		if (!read_at(_fd, &h, sizeof(h), offset) || h.magic != record_magic || h.stored_length > max_record) {
			return RESULT_FORMAT;
		}
		if (i < following) {
			offset += sizeof(h) + h.stored_length + (h.has_hmac ? HMAC_SIZE : 0);
		}
	}

	std::string record(sizeof(h) + h.stored_length, '\0');
	byte_t value[HMAC_SIZE];
	if (!read_at(_fd, &record[0], record.size(), offset) || (h.has_hmac && !read_at(_fd, value, HMAC_SIZE, offset + record.size()))) {
		return RESULT_READFAIL;
	}

	auto const payload = record.substr(sizeof(h));
	if (h.source_length > payload.size() || h.plaintext_offset > h.source_length) {
		return RESULT_FORMAT;
	}
	if (h.encrypted != (info.EncryptedEssence ? 1 : 0) || h.has_hmac != (info.EncryptedEssence && info.UsesHMAC ? 1 : 0)) {
		return RESULT_FORMAT;
	}
	buffer.FrameNumber(frame);
	buffer.SourceLength(h.source_length);
	buffer.PlaintextOffset(h.plaintext_offset);

	if (!h.encrypted || !ctx) {
		/* not encrypted, or encrypted and the caller has no key: hand over what is there */
		if (buffer.Capacity() < payload.size()) {
			return RESULT_SMALLBUF;
		}
		memcpy(buffer.Data(), payload.data(), payload.size());
		buffer.Size(payload.size());
		return RESULT_OK;
	}

	if (h.has_hmac && hmac) {
		hmac->Reset();
		hmac->Update(info.AssetUUID, UUIDlen);
		hmac->Update(reinterpret_cast<byte_t const*>(record.data()), record.size());
		auto r = hmac->Finalize();
		if (r.Failure()) {
			return r;
		}
		r = hmac->TestHMACValue(value);
		if (r.Failure()) {
			return r;
		}
	}

	ctx->SetIVec(h.iv);
	byte_t check[CBC_BLOCK_SIZE];
	auto r = ctx->DecryptBlock(h.check, check, CBC_BLOCK_SIZE);
	if (r.Failure()) {
		return r;
	}
	if (memcmp(check, check_value, CBC_BLOCK_SIZE)) {
		return RESULT_CHECKFAIL;
	}

	auto const cipher = payload.substr(h.plaintext_offset);
	std::string secret(cipher.size(), '\0');
	r = ctx->DecryptBlock(reinterpret_cast<byte_t const*>(cipher.data()), reinterpret_cast<byte_t*>(&secret[0]), cipher.size());
	if (r.Failure()) {
		return r;
	}
	if (buffer.Capacity() < h.source_length) {
		return RESULT_SMALLBUF;
	}
	auto plain = payload.substr(0, h.plaintext_offset) + secret;
	memcpy(buffer.Data(), plain.data(), h.source_length);
	buffer.Size(h.source_length);
	return RESULT_OK;
}

Result_t
ReaderBase::FillWriterInfo(WriterInfo& info) const
{
	if (!_reader.is_open()) {
		return RESULT_INIT;
	}
	info = _reader.info;
	return RESULT_OK;
}

template <class D>
static std::string
pack(D d)
{
	Archive a;
	serialise(a, d);
	return a.data();
}

template <class D>
static Result_t
unpack(MiniReader const& r, D& d)
{
	if (!r.is_open()) {
		return RESULT_INIT;
	}
	Archive a(r.descriptor);
	serialise(a, d);
	return a.good() ? RESULT_OK : RESULT_FORMAT;
}

Result_t
EssenceType(std::string const& filename, EssenceType_t& type, Kumu::IFileReaderFactory const&)
{
	type = ESS_UNKNOWN;
	MiniReader reader;
	auto r = reader.open(filename, ESS_UNKNOWN);
	if (r.Success()) {
		type = reader.type;
	}
	return r;
}


/* ======================= MPEG2 ======================= */

namespace MPEG2 {

Result_t
Parser::OpenRead(byte_t const* data, size_t size) const
{
	_ok = false;
	for (size_t i = 0; i + 8 <= size; ++i) {
		if (data[i] == 0 && data[i + 1] == 0 && data[i + 2] == 1 && data[i + 3] == 0xb3) {
			auto const p = data + i + 4;
			_desc = VideoDescriptor();
			_desc.StoredWidth = (p[0] << 4) | (p[1] >> 4);
			_desc.StoredHeight = ((p[1] & 15) << 8) | p[2];
			switch (p[3] >> 4) {
			case 2: _desc.AspectRatio = Rational(4, 3); break;
			case 3: _desc.AspectRatio = Rational(16, 9); break;
			default: _desc.AspectRatio = Rational(1, 1); break;
			}
			switch (p[3] & 15) {
			case 1: _desc.SampleRate = Rational(24000, 1001); break;
			case 2: _desc.SampleRate = Rational(24, 1); break;
			case 3: _desc.SampleRate = Rational(25, 1); break;
			case 5: _desc.SampleRate = Rational(30, 1); break;
			case 6: _desc.SampleRate = Rational(50, 1); break;
			case 8: _desc.SampleRate = Rational(60, 1); break;
			default: return RESULT_RAW_FORMAT;
			}
			_desc.EditRate = _desc.SampleRate;
			_desc.FrameRate = _desc.SampleRate.Numerator;
			_desc.ComponentDepth = 8;
			_ok = true;
			return RESULT_OK;
		}
	}
	return RESULT_RAW_FORMAT;
}

Result_t
Parser::FillVideoDescriptor(VideoDescriptor& desc) const
{
	if (!_ok) {
		return RESULT_INIT;
	}
	desc = _desc;
	return RESULT_OK;
}

Result_t
MXFWriter::OpenWrite(std::string const& filename, WriterInfo const& info, VideoDescriptor const& desc, ui32_t header_size, bool overwrite)
{
	_desc = desc;
	return _writer.open(filename, info, ESS_MPEG2_VES, header_size, overwrite);
}

Result_t
MXFWriter::WriteFrame(FrameBuffer const& buffer, AESEncContext* ctx, HMACContext* hmac, std::string* hash)
{
	return _writer.write(buffer, ctx, hmac, hash, true);
}

Result_t
MXFWriter::FakeWriteFrame(int size, FrameType_t, bool, bool, ui8_t)
{
	return _writer.fake(size, true);
}

Result_t
MXFWriter::Finalize()
{
	_desc.ContainerDuration = _writer.indexed();
	return _writer.finalize(pack(_desc), _header);
}

Result_t
MXFReader::OpenRead(std::string const& filename) const
{
	return _reader.open(filename, ESS_MPEG2_VES);
}

Result_t
MXFReader::FillVideoDescriptor(VideoDescriptor& desc) const
{
	return unpack(_reader, desc);
}

Result_t
MXFReader::ReadFrame(ui32_t n, FrameBuffer& buffer, AESDecContext* ctx, HMACContext* hmac) const
{
	return _reader.read(n, 0, buffer, ctx, hmac);
}

}


/* ======================= PCM ======================= */

namespace PCM {

ui32_t
CalcSampleSize(AudioDescriptor const& d)
{
	return (d.QuantizationBits / 8) * d.ChannelCount;
}

ui32_t
CalcSamplesPerFrame(AudioDescriptor const& d)
{
	return static_cast<ui32_t>(std::ceil(d.AudioSamplingRate.Quotient() / d.EditRate.Quotient()));
}

ui32_t
CalcFrameBufferSize(AudioDescriptor const& d)
{
	return CalcSampleSize(d) * CalcSamplesPerFrame(d);
}

Result_t
MXFWriter::OpenWrite(std::string const& filename, WriterInfo const& info, AudioDescriptor const& desc, ui32_t header_size)
{
	if (desc.EditRate.Denominator == 0 || desc.EditRate.Numerator == 0) {
		return RESULT_RAW_FORMAT;
	}
	if (desc.AudioSamplingRate != Rational(48000, 1) && desc.AudioSamplingRate != Rational(96000, 1)) {
		return RESULT_RAW_FORMAT;
	}
	_desc = desc;
	_header.AddChildObject(new MXF::WaveAudioDescriptor(&DefaultSMPTEDict()));
	return _writer.open(filename, info, desc.AudioSamplingRate == Rational(96000, 1) ? ESS_PCM_24b_96k : ESS_PCM_24b_48k, header_size, false);
}

Result_t
MXFWriter::WriteFrame(FrameBuffer const& buffer, AESEncContext* ctx, HMACContext* hmac)
{
	return _writer.write(buffer, ctx, hmac, nullptr, true);
}

Result_t
MXFWriter::Finalize()
{
	_desc.ContainerDuration = _writer.indexed();
	return _writer.finalize(pack(_desc), _header);
}

Result_t
MXFReader::OpenRead(std::string const& filename) const
{
	return _reader.open(filename, ESS_PCM_24b_48k, ESS_PCM_24b_96k);
}

Result_t
MXFReader::FillAudioDescriptor(AudioDescriptor& desc) const
{
	return unpack(_reader, desc);
}

Result_t
MXFReader::ReadFrame(ui32_t n, FrameBuffer& buffer, AESDecContext* ctx, HMACContext* hmac) const
{
	return _reader.read(n, 0, buffer, ctx, hmac);
}

}


/* ======================= JPEG2000 ======================= */

namespace JP2K {

bool any_codestream = false;

Result_t
CodestreamParser::OpenReadFrame(byte_t const* data, unsigned int size, FrameBuffer& buffer) const
{
	_ok = false;
	if (buffer.Capacity() < size) {
		return RESULT_SMALLBUF;
	}
	if (any_codestream) {
		memcpy(buffer.Data(), data, size);
		buffer.Size(size);
		buffer.PlaintextOffset(0);
		return RESULT_OK;
	}
	if (size < 4 || data[0] != 0xff || data[1] != 0x4f) {
		return RESULT_RAW_FORMAT;
	}
	memcpy(buffer.Data(), data, size);
	buffer.Size(size);
	buffer.PlaintextOffset(0);

	auto u16 = [&](size_t o) { return ui32_t(data[o]) << 8 | data[o + 1]; };
	auto u32 = [&](size_t o) { return u16(o) << 16 | u16(o + 2); };

	_desc = PictureDescriptor();
	size_t p = 2;
	bool siz = false;
	while (p + 4 <= size) {
		auto const marker = u16(p);
		if (marker == 0xff93) {
			/* start of data */
			buffer.PlaintextOffset(p + 2);
			break;
		}
		if ((marker >> 8) != 0xff) {
			return RESULT_RAW_FORMAT;
		}
		auto const length = u16(p + 2);
		if (length < 2 || p + 2 + length > size) {
			return RESULT_RAW_FORMAT;
		}
		if (marker == 0xff51) {
			if (length < 38) {
				return RESULT_RAW_FORMAT;
			}
			auto const q = p + 4;
			_desc.Rsize = u16(q);
			_desc.Xsize = u32(q + 2);
			_desc.Ysize = u32(q + 6);
			_desc.XOsize = u32(q + 10);
			_desc.YOsize = u32(q + 14);
			_desc.XTsize = u32(q + 18);
			_desc.YTsize = u32(q + 22);
			_desc.XTOsize = u32(q + 26);
			_desc.YTOsize = u32(q + 30);
			_desc.Csize = u16(q + 34);
			if (_desc.Csize != 3 || length < 38 + 9) {
				return RESULT_RAW_FORMAT;
			}
			for (int i = 0; i < 3; ++i) {
				_desc.ImageComponents[i].Ssize = data[q + 36 + i * 3];
				_desc.ImageComponents[i].XRsize = data[q + 37 + i * 3];
				_desc.ImageComponents[i].YRsize = data[q + 38 + i * 3];
			}
			_desc.StoredWidth = _desc.Xsize - _desc.XOsize;
			_desc.StoredHeight = _desc.Ysize - _desc.YOsize;
			_desc.AspectRatio = Rational(_desc.Xsize, _desc.Ysize);
			_desc.EditRate = Rational(24, 1);
			_desc.SampleRate = _desc.EditRate;
			siz = true;
		}
		p += 2 + length;
	}

	if (!siz) {
		return RESULT_RAW_FORMAT;
	}
	_ok = true;
	return RESULT_OK;
}

Result_t
CodestreamParser::FillPictureDescriptor(PictureDescriptor& desc) const
{
	if (!_ok) {
		return RESULT_INIT;
	}
	desc = _desc;
	return RESULT_OK;
}

Result_t
MXFWriter::OpenWrite(std::string const& filename, WriterInfo const& info, PictureDescriptor const& desc, ui32_t header_size, bool overwrite)
{
	_desc = desc;
	_desc.SampleRate = desc.EditRate;
	return _writer.open(filename, info, ESS_JPEG_2000, header_size, overwrite);
}

Result_t
MXFWriter::WriteFrame(FrameBuffer const& buffer, AESEncContext* ctx, HMACContext* hmac, std::string* hash)
{
	return _writer.write(buffer, ctx, hmac, hash, true);
}

Result_t
MXFWriter::FakeWriteFrame(int size)
{
	return _writer.fake(size, true);
}

Result_t
MXFWriter::Finalize()
{
	_desc.ContainerDuration = _writer.indexed();
	return _writer.finalize(pack(_desc), _header);
}

Result_t
MXFReader::OpenRead(std::string const& filename) const
{
	return _reader.open(filename, ESS_JPEG_2000);
}

Result_t
MXFReader::FillPictureDescriptor(PictureDescriptor& desc) const
{
	return unpack(_reader, desc);
}

Result_t
MXFReader::ReadFrame(ui32_t n, FrameBuffer& buffer, AESDecContext* ctx, HMACContext* hmac) const
{
	return _reader.read(n, 0, buffer, ctx, hmac);
}

Result_t
MXFSWriter::OpenWrite(std::string const& filename, WriterInfo const& info, PictureDescriptor const& desc, ui32_t header_size, bool overwrite)
{
	_desc = desc;
	_desc.SampleRate = Rational(desc.EditRate.Numerator * 2, desc.EditRate.Denominator);
	_next = SP_LEFT;
	return _writer.open(filename, info, ESS_JPEG_2000_S, header_size, overwrite);
}

Result_t
MXFSWriter::WriteFrame(FrameBuffer const& buffer, StereoscopicPhase_t phase, AESEncContext* ctx, HMACContext* hmac, std::string* hash)
{
	if (phase != _next) {
		return RESULT_SPHASE;
	}
	auto const r = _writer.write(buffer, ctx, hmac, hash, phase == SP_LEFT);
	if (r.Success()) {
		_next = phase == SP_LEFT ? SP_RIGHT : SP_LEFT;
	}
	return r;
}

Result_t
MXFSWriter::FakeWriteFrame(int size, StereoscopicPhase_t phase)
{
	if (phase != _next) {
		return RESULT_SPHASE;
	}
	_next = phase == SP_LEFT ? SP_RIGHT : SP_LEFT;
	return _writer.fake(size, phase == SP_LEFT);
}

Result_t
MXFSWriter::Finalize()
{
	if (_next != SP_LEFT) {
		return RESULT_SPHASE;
	}
	_desc.ContainerDuration = _writer.indexed();
	return _writer.finalize(pack(_desc), _header);
}

Result_t
MXFSReader::OpenRead(std::string const& filename) const
{
	return _reader.open(filename, ESS_JPEG_2000_S);
}

Result_t
MXFSReader::FillPictureDescriptor(PictureDescriptor& desc) const
{
	return unpack(_reader, desc);
}

Result_t
MXFSReader::ReadFrame(ui32_t n, SFrameBuffer& buffer, AESDecContext* ctx, HMACContext* hmac) const
{
	auto r = _reader.read(n, 0, buffer.Left, ctx, hmac);
	if (r.Success()) {
		r = _reader.read(n, 1, buffer.Right, ctx, hmac);
	}
	return r;
}

Result_t
MXFSReader::ReadFrame(ui32_t n, StereoscopicPhase_t phase, FrameBuffer& buffer, AESDecContext* ctx, HMACContext* hmac) const
{
	return _reader.read(n, phase == SP_LEFT ? 0 : 1, buffer, ctx, hmac);
}

}


/* ======================= timed text ======================= */

namespace TimedText {

Result_t
MXFWriter::OpenWrite(std::string const& filename, WriterInfo const& info, TimedTextDescriptor const& desc, ui32_t header_size)
{
	_desc = desc;
	return _writer.open(filename, info, ESS_TIMED_TEXT, header_size, false);
}

std::string (*edit_xml)(std::string) = nullptr;

Result_t
MXFWriter::WriteTimedTextResource(std::string const& xml, AESEncContext* ctx, HMACContext* hmac)
{
	if (_writer.indexed() != 0) {
		return RESULT_STATE;
	}
	FrameBuffer buffer;
	std::string copy = edit_xml ? edit_xml(xml) : xml;
	buffer.SetData(reinterpret_cast<byte_t*>(&copy[0]), copy.size());
	return _writer.write(buffer, ctx, hmac, nullptr, true);
}

Result_t
MXFWriter::WriteAncillaryResource(FrameBuffer const& buffer, AESEncContext* ctx, HMACContext* hmac)
{
	if (_writer.indexed() == 0) {
		return RESULT_STATE;
	}
	return _writer.write(buffer, ctx, hmac, nullptr, true);
}

Result_t
MXFWriter::Finalize()
{
	return _writer.finalize(pack(_desc), _header);
}

Result_t
MXFReader::OpenRead(std::string const& filename) const
{
	return _reader.open(filename, ESS_TIMED_TEXT);
}

Result_t
MXFReader::FillTimedTextDescriptor(TimedTextDescriptor& desc) const
{
	return unpack(_reader, desc);
}

Result_t
MXFReader::ReadTimedTextResource(std::string& xml, AESDecContext* ctx, HMACContext* hmac) const
{
	FrameBuffer buffer(32 * Kumu::Megabyte);
	auto const r = _reader.read(0, 0, buffer, ctx, hmac);
	if (r.Success()) {
		xml.assign(reinterpret_cast<char const*>(buffer.RoData()), buffer.Size());
	}
	return r;
}

Result_t
MXFReader::ReadAncillaryResource(byte_t const* id, FrameBuffer& buffer, AESDecContext* ctx, HMACContext* hmac) const
{
	TimedTextDescriptor desc;
	auto const f = unpack(_reader, desc);
	if (f.Failure()) {
		return f;
	}
	/* resources are stored in the order of the list */
	int index = 1;
	for (auto const& i: desc.ResourceList) {
		if (memcmp(i.ResourceID, id, UUIDlen) == 0) {
			auto const r = _reader.read(index, 0, buffer, ctx, hmac);
			if (r.Success()) {
				buffer.AssetID(id);
				buffer.MIMEType(i.Type == MT_PNG ? "image/png" : i.Type == MT_OPENTYPE ? "application/x-font-opentype" : "application/octet-stream");
			}
			return r;
		}
		++index;
	}
	return RESULT_RANGE;
}

}


/* ======================= Atmos ======================= */

namespace ATMOS {

Result_t
MXFWriter::OpenWrite(std::string const& filename, WriterInfo const& info, AtmosDescriptor const& desc, ui32_t header_size)
{
	_desc = desc;
	return _writer.open(filename, info, ESS_DCDATA_DOLBY_ATMOS, header_size, false);
}

Result_t
MXFWriter::WriteFrame(DCData::FrameBuffer const& buffer, AESEncContext* ctx, HMACContext* hmac)
{
	return _writer.write(buffer, ctx, hmac, nullptr, true);
}

Result_t
MXFWriter::Finalize()
{
	_desc.ContainerDuration = _writer.indexed();
	return _writer.finalize(pack(_desc), _header);
}

Result_t
MXFReader::OpenRead(std::string const& filename) const
{
	return _reader.open(filename, ESS_DCDATA_DOLBY_ATMOS);
}

Result_t
MXFReader::FillAtmosDescriptor(AtmosDescriptor& desc) const
{
	return unpack(_reader, desc);
}

Result_t
MXFReader::ReadFrame(ui32_t n, DCData::FrameBuffer& buffer, AESDecContext* ctx, HMACContext* hmac) const
{
	return _reader.read(n, 0, buffer, ctx, hmac);
}

}

}
