/* Stand-in for TUM-I5/utils (submodule not present) */
#ifndef UTILS_STRINGUTILS_H
#define UTILS_STRINGUTILS_H
#include <string>
#include <vector>
#include <cstdlib>
#include <cctype>
namespace utils {
struct StringUtils {
	static bool startsWith(const std::string& str, const std::string& prefix) {
		if (str.size() < prefix.size()) return false;
		for (size_t i = 0; i < prefix.size(); i++) if (str[i] != prefix[i]) return false;
		return true;
	}
	static bool endsWith(const std::string& str, const std::string& suffix) {
		if (str.size() < suffix.size()) return false;
		for (size_t i = 0; i < suffix.size(); i++) if (str[str.size()-suffix.size()+i] != suffix[i]) return false;
		return true;
	}
	static void toUpper(std::string& str) { for (size_t i = 0; i < str.size(); i++) str[i] = toupper(str[i]); }
	static void toLower(std::string& str) { for (size_t i = 0; i < str.size(); i++) str[i] = tolower(str[i]); }
	template<typename T> static std::string toString(T v) {
		char b[24]; int n = 0; bool neg = v < 0; unsigned long u = neg ? -(unsigned long)v : (unsigned long)v;
		char r[24]; int k = 0; do { r[k++] = '0' + (int)(u % 10); u /= 10; } while (u);
		if (neg) b[n++] = '-'; while (k) b[n++] = r[--k]; b[n] = 0; return std::string(b);
	}
	/* as std::istringstream >> T: leading digits of a decimal number, 0 if there are none; with `advanced`
	 * also on/yes/true and off/no/false */
	template<typename T> static T parse(const std::string& str, bool advanced = false);
};
inline long v_decimal(const char *s) { /* as >>: no number gives 0 */
	bool neg = false; long r = 0;
	while (*s == ' ') s++;
	if (*s == '-') { neg = true; s++; } else if (*s == '+') s++;
	for (; *s >= '0' && *s <= '9'; s++) r = r * 10 + (*s - '0');
	return neg ? -r : r;
}
template<> inline std::string StringUtils::parse(const std::string& str, bool) { return str; }
template<> inline const char* StringUtils::parse(const std::string& str, bool) { return str.c_str(); }
template<> inline int StringUtils::parse(const std::string& str, bool) { return (int)v_decimal(str.c_str()); }
template<> inline unsigned int StringUtils::parse(const std::string& str, bool) { return (unsigned)v_decimal(str.c_str()); }
template<> inline long StringUtils::parse(const std::string& str, bool) { return v_decimal(str.c_str()); }
template<> inline unsigned long StringUtils::parse(const std::string& str, bool) { return (unsigned long)v_decimal(str.c_str()); }
template<> inline bool StringUtils::parse(const std::string& s, bool advanced) {
	if (advanced) {
		std::string str(s); toLower(str);
		if (str == "on" || str == "yes" || str == "true") return true;
		if (str == "off" || str == "no" || str == "false") return false;
	}
	return v_decimal(s.c_str()) != 0;
}
}
#endif
