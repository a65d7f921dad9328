/* Stand-in for TUM-I5/utils (the submodule is not present) */
#ifndef UTILS_STRINGUTILS_H
#define UTILS_STRINGUTILS_H
#include <string>
#include <sstream>
#include <vector>
#include <cctype>
namespace utils {
struct StringUtils {
	static bool startsWith(const std::string &s, const std::string &p) { return s.compare(0, p.size(), p) == 0; }
	static bool endsWith(const std::string &s, const std::string &p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
	static void toUpper(std::string &s) { for (size_t i = 0; i < s.size(); i++) s[i] = toupper(s[i]); }
	static void toLower(std::string &s) { for (size_t i = 0; i < s.size(); i++) s[i] = tolower(s[i]); }
	template<typename T> static std::string toString(T v) { std::ostringstream o; o << v; return o.str(); }
	template<typename T> static T parse(const std::string &s, bool advanced = false) { T r = T(); std::istringstream i(s); i >> r; return r; }
};
template<> inline std::string StringUtils::parse(const std::string &s, bool) { return s; }
template<> inline const char* StringUtils::parse(const std::string &s, bool) { return s.c_str(); }
template<> inline bool StringUtils::parse(const std::string &s, bool advanced) {
	if (advanced) { std::string t = s; toLower(t); if (t == "on" || t == "yes" || t == "true") return true; if (t == "off" || t == "no" || t == "false") return false; }
	return atoi(s.c_str()) != 0;
}
}
#endif
