// the same bodies of the standard library's out-of-line parts as in the symbolic build, instrumented
#include <map>
#include <list>
#include <unordered_map>
#include <exception>
#include <stdexcept>
#include <string>
#include "rt_std.inc"
