/* Stand-in for TUM-I5/utils (submodule not present): logging has no effect, logError terminates the process */
#ifndef UTILS_LOGGER_H
#define UTILS_LOGGER_H
#include "v.h"
extern "C" void v_fatal();
extern "C" void v_warned();
namespace utils {
struct Null {
	template<typename T> Null& operator<<(const T&) { return *this; }
};
struct Fatal {
	template<typename T> Fatal& operator<<(const T&) { return *this; }
	~Fatal() { v_fatal(); }
};
struct NullEndl {};
inline NullEndl nospace() { return NullEndl(); }
inline NullEndl space() { return NullEndl(); }
}
inline utils::Null logDebug(int = 0, int = -1) { return utils::Null(); }
inline utils::Null logInfo(int = 0, int = -1) { return utils::Null(); }
#ifdef V_COUNT_WARNINGS
inline utils::Null logWarning(int = 0, int = -1) { v_warned(); return utils::Null(); }
#else
inline utils::Null logWarning(int = 0, int = -1) { return utils::Null(); }
#endif
inline utils::Fatal logError() { return utils::Fatal(); }
#ifdef NDEBUG
#define NDBG_UNUSED(x) ((void) x)
#else
#define NDBG_UNUSED(x)
#endif
#endif
