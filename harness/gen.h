/* Generators of legal values shared by the harnesses that use the whole library */
#ifndef GEN_H
#define GEN_H

#include "kit.h"
#include "language_tag.h"
#include "types.h"
#include <boost/optional.hpp>
#include <string>

namespace gen {

/** dcp::init() with the repository's resources; once */
void init();

/** Legal XML text: plain, with special characters, non-ASCII.  May be empty unless `some`. */
std::string text(bool some = true);
/** Text which is safe as a single path component */
std::string file_name(std::string const& extension);
std::string uuid();
/** ISO 8601 date with offset */
std::string date();
dcp::LanguageTag language();
std::string hash();

template <class T>
boost::optional<T> maybe(T const& v, double p = 0.5)
{
	return kit::rng.chance(p) ? boost::optional<T>(v) : boost::optional<T>();
}

/** Escape for XML text or attribute (harness's own) */
std::string escape(std::string const& s);

}

#endif
