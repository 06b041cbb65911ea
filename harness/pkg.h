/* Packages described by plain values, and their construction with the library */
#ifndef PKG_H
#define PKG_H

#include "array_data.h"
#include "content_kind.h"
#include "decrypted_kdm.h"
#include "key.h"
#include "types.h"
#include <boost/optional.hpp>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace dcp {
	class Asset;
	class AtmosAsset;
	class CertificateChain;
	class CPL;
	class DCP;
	class J2KPictureAsset;
	class Reel;
	class SoundAsset;
	class TextAsset;
}

namespace pkg {

/** One of a small number of different small pictures, as JPEG2000 */
dcp::ArrayData const& picture(int which, int shape);
int const pictures = 6;
int const shapes = 2;

struct Crypt
{
	bool on = false;
	std::string key_id;
	std::string key;    ///< as hex
};

struct Text
{
	bool image = false;
	int picture = 0;
	std::string id;     ///< for images
	std::string text;
	bool italic = false;
	bool bold = false;
	bool underline = false;
	int colour = 0xffffff;
	int size = 42;
	int in = 0;         ///< units of 1/24s
	int out = 24;
	int v_align = 0;
	int h_align = 0;
	int v_position = 10; ///< percent
	int h_position = 0;  ///< percent
	int effect = 0;
	int direction = 0;
	int effect_colour = 0;
	int fade = 0;
	int fade_down = 0;
};

enum class Kind { MONO, STEREO, SOUND, ATMOS, TEXT };

/** Something with a file */
struct Asset
{
	Kind kind;
	std::string file;   ///< relative to the package
	Crypt crypt;
	int rate = 24;
	int frames = 1;
	/* picture */
	int shape = 0;
	std::vector<int> content;   ///< picture numbers
	/* sound */
	int channels = 1;
	uint64_t seed = 0;
	int odd_channel = -1;   ///< channel with one sample changed
	int64_t odd_index = 0;
	int odd_by = 1;
	std::string language = "en";
	/* text */
	std::vector<Text> texts;
	std::vector<std::pair<std::string, std::string>> fonts;  ///< ID, data
	std::string title;
	int reel_number = 1;
	int start = 0;
	std::string issue_date = "2020-01-02T03:04:05+00:00";
};

struct Use
{
	int asset = -1;
	int entry = 0;
	int duration = 0;   ///< 0 for none given
	boost::optional<std::string> annotation;
	int role = 0;       ///< for texts: open subtitle, open caption, closed subtitle, closed caption
	std::string language;
};

struct Reel
{
	std::vector<Use> uses;
	std::map<int, int> markers;
	bool has_markers = false;
};

struct Cpl
{
	std::string title;
	int kind = 0;
	boost::optional<std::string> annotation;
	std::vector<Reel> reels;
};

struct Spec
{
	bool smpte = true;
	std::vector<Asset> assets;
	std::vector<Cpl> cpls;
	std::string describe() const;
};

struct Limits
{
	int cpls = 2;
	int reels = 3;
	bool encrypt = true;
	bool awkward_names = true;
	/** only what makes a package which is complete: picture in each reel etc. */
	bool complete = false;
};

Spec random(Limits const& limits);

/** A crypt which is on */
Crypt crypt();

std::vector<dcp::ContentKind> const& kinds();

/** Things that were built from a Spec */
struct Built
{
	std::string dir;
	std::vector<std::shared_ptr<dcp::Asset>> assets;
	std::vector<std::shared_ptr<dcp::CPL>> cpls;
	std::shared_ptr<dcp::DCP> dcp;
};

std::shared_ptr<dcp::Asset> build_asset(Asset const& a, bool smpte, std::string const& dir);
/** Make assets and CPLs in dir (which must exist); write XML if `write` */
Built build(Spec const& spec, std::string const& dir, bool write = true, std::shared_ptr<const dcp::CertificateChain> signer = {});

/** Sample of sound asset */
int32_t sample(Asset const& a, int channel, int64_t index);
dcp::ArrayData atmos_frame(Asset const& a, int frame);

/** Fail (as violations with the given prefix) unless what is in `asset` is what `a` says */
void check_content(Asset const& a, std::shared_ptr<dcp::Asset> asset, std::string const& prefix);

/** Keys of everything encrypted in the spec, for the given CPL */
dcp::DecryptedKDM kdm(Spec const& spec, std::string const& cpl_id);

/** SHA-1 of a file, as base64 */
std::string sha1(std::string const& file);

/** Relative names of all ordinary files in a directory */
std::vector<std::string> files_in(std::string const& dir);

/** Check asset map and packing lists in `dir` against the files which are there. */
void check_lists(std::string const& dir, bool smpte, std::string const& prefix);

}

#endif
