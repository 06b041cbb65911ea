#ifndef SHIM_KLV_H
#define SHIM_KLV_H

#include "KM_fileio.h"

namespace ASDCP {

using Kumu::Result_t;
using Kumu::UUID;
using Kumu::RESULT_OK;

const ui32_t SMPTE_UL_LENGTH = 16;

class UL : public Kumu::Identifier<SMPTE_UL_LENGTH>
{
public:
	UL() {}
	UL(byte_t const* value) : Kumu::Identifier<SMPTE_UL_LENGTH>(value) {}
	char const* EncodeString(char* buf, ui32_t len) const;
	char const* EncodeHex(char* buf, ui32_t len) const { return EncodeString(buf, len); }
};

enum MDD_t {
	MDD_WaveAudioDescriptor,
	MDD_SoundfieldGroupLabelSubDescriptor,
	MDD_AudioChannelLabelSubDescriptor,
	MDD_DCAudioSoundfield_51,
	MDD_DCAudioSoundfield_71,
	MDD_DCAudioChannel_L,
	MDD_DCAudioChannel_R,
	MDD_DCAudioChannel_C,
	MDD_DCAudioChannel_LFE,
	MDD_DCAudioChannel_Ls,
	MDD_DCAudioChannel_Rs,
	MDD_DCAudioChannel_Lss,
	MDD_DCAudioChannel_Rss,
	MDD_DCAudioChannel_Lrs,
	MDD_DCAudioChannel_Rrs,
	MDD_DCAudioChannel_Lc,
	MDD_DCAudioChannel_Rc,
	MDD_DCAudioChannel_Cs,
	MDD_DCAudioChannel_HI,
	MDD_DCAudioChannel_VIN,
	MDD_DCAudioChannelCfg_4_WTF,
	MDD_DCAudioChannelCfg_MCA,
	MDD_DBOXMotionCodePrimaryStream,
	MDD_DBOXMotionCodeSecondaryStream,
	MDD_Max
};

class Dictionary
{
public:
	byte_t const* ul(MDD_t type) const;
};

Dictionary const& DefaultSMPTEDict();
Dictionary const& DefaultInteropDict();
Dictionary const& DefaultCompositeDict();

}

#endif
