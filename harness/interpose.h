#include <set>
namespace interpose {
extern bool tracking;
extern std::set<void*> live;
extern int double_closes;
void reset();
}
