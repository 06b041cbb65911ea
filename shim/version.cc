/* what waf generates as src/version.cc */
#include "version.h"

namespace dcp {

char const * git_commit = "verif";
char const * version = "0.0.0";
extern bool const built_with_debug = false;

}
