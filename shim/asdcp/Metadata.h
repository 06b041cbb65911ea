#ifndef SHIM_METADATA_H
#define SHIM_METADATA_H

#include "KLV.h"
#include <list>
#include <memory>
#include <vector>

namespace ASDCP {
namespace MXF {

class UTF16String : public std::string
{
public:
	UTF16String() {}
	UTF16String(char const* s) : std::string(s) {}
	UTF16String(std::string const& s) : std::string(s) {}
	UTF16String& operator=(char const* s) { this->assign(s); return *this; }
	UTF16String& operator=(std::string const& s) { this->assign(s); return *this; }
	char const* EncodeString(char* buf, ui32_t len) const;
};

class ISO8String : public std::string
{
public:
	ISO8String() {}
	ISO8String(char const* s) : std::string(s) {}
	ISO8String(std::string const& s) : std::string(s) {}
	ISO8String& operator=(char const* s) { this->assign(s); return *this; }
	ISO8String& operator=(std::string const& s) { this->assign(s); return *this; }
	char const* EncodeString(char* buf, ui32_t len) const;
};

template <class T>
class optional_property
{
public:
	optional_property() : _set(false) {}
	optional_property& operator=(T const& v) { _value = v; _set = true; return *this; }
	template <class U> optional_property& operator=(U const& v) { _value = v; _set = true; return *this; }
	bool empty() const { return !_set; }
	T& get() { return _value; }
	T const& get() const { return _value; }
	T const& const_get() const { return _value; }
	void set(T const& v) { _value = v; _set = true; }
	void reset() { _set = false; }
private:
	T _value = T();
	bool _set;
};

class InterchangeObject
{
public:
	InterchangeObject(Dictionary const*, MDD_t type);
	virtual ~InterchangeObject() {}
	MDD_t type() const { return _type; }
	UUID InstanceUID;
private:
	MDD_t _type;
};

class WaveAudioDescriptor : public InterchangeObject
{
public:
	explicit WaveAudioDescriptor(Dictionary const* d) : InterchangeObject(d, MDD_WaveAudioDescriptor) {}
	UL ChannelAssignment;
	std::vector<UUID> SubDescriptors;
};

class MCALabelSubDescriptor : public InterchangeObject
{
public:
	MCALabelSubDescriptor(Dictionary const* d, MDD_t type) : InterchangeObject(d, type) {}
	UL MCALabelDictionaryID;
	UUID MCALinkID;
	UTF16String MCATagSymbol;
	optional_property<UTF16String> MCATagName;
	optional_property<ui32_t> MCAChannelID;
	optional_property<ISO8String> RFC5646SpokenLanguage;
};

class AudioChannelLabelSubDescriptor : public MCALabelSubDescriptor
{
public:
	explicit AudioChannelLabelSubDescriptor(Dictionary const* d) : MCALabelSubDescriptor(d, MDD_AudioChannelLabelSubDescriptor) {}
	optional_property<UUID> SoundfieldGroupLinkID;
};

class SoundfieldGroupLabelSubDescriptor : public MCALabelSubDescriptor
{
public:
	explicit SoundfieldGroupLabelSubDescriptor(Dictionary const* d) : MCALabelSubDescriptor(d, MDD_SoundfieldGroupLabelSubDescriptor) {}
};

class OP1aHeader
{
public:
	/** takes ownership */
	void AddChildObject(InterchangeObject* object);
	Result_t GetMDObjectByType(byte_t const* ul, InterchangeObject** object = nullptr);
	Result_t GetMDObjectsByType(byte_t const* ul, std::list<InterchangeObject*>& objects);
	std::vector<std::shared_ptr<InterchangeObject>> const& objects() const { return _objects; }
	void clear() { _objects.clear(); }
private:
	std::vector<std::shared_ptr<InterchangeObject>> _objects;
};

}
}

#endif
