/* Stand-in for TUM-I5/utils (the submodule is not present) */
#ifndef UTILS_LOGGER_H
#define UTILS_LOGGER_H
#include <cstdlib>
namespace utils {
struct Null { template<typename T> Null& operator<<(const T&) { return *this; } };
struct Fatal { template<typename T> Fatal& operator<<(const T&) { return *this; } ~Fatal() { abort(); } };
}
inline utils::Null logDebug(int = 0, int = -1) { return utils::Null(); }
inline utils::Null logInfo(int = 0, int = -1) { return utils::Null(); }
inline utils::Null logWarning(int = 0, int = -1) { return utils::Null(); }
inline utils::Fatal logError() { return utils::Fatal(); }
#define NDBG_UNUSED(x) ((void) x)
#endif
