// Shared by the specification files; never linked into anything.
#ifndef VP_H
#define VP_H
#include <algorithm>
#include <numeric>
namespace vp
{
void assume(bool);
}
#endif
