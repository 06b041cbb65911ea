/* fopen and fclose, watched.  No stdio header here: it would rename fopen. */
#include "interpose.h"
#include <dlfcn.h>
#include <set>
#include <unistd.h>

namespace interpose {
bool tracking = false;
std::set<void*> live;
static std::set<void*> dead;
int double_closes = 0;

void reset()
{
	live.clear();
	dead.clear();
	double_closes = 0;
}
}

using namespace interpose;

static void* next(char const* name)
{
	auto p = dlsym(RTLD_NEXT, name);
	if (!p) {
		_exit(3);
	}
	return p;
}

static void* opened(void* f)
{
	if (tracking && f) {
		live.insert(f);
		dead.erase(f);
	}
	return f;
}

typedef void* (*open_fn)(char const*, char const*);

extern "C" {

void* fopen(char const* p, char const* m)
{
	static auto const f = reinterpret_cast<open_fn>(next("fopen"));
	return opened(f(p, m));
}

void* fopen64(char const* p, char const* m)
{
	static auto const f = reinterpret_cast<open_fn>(next("fopen64"));
	return opened(f(p, m));
}

int fclose(void* f)
{
	static auto const fn = reinterpret_cast<int (*)(void*)>(next("fclose"));
	if (tracking) {
		if (!live.count(f) && dead.count(f)) {
			++double_closes;
			return -1;
		}
		live.erase(f);
		dead.insert(f);
	}
	return fn(f);
}

}
