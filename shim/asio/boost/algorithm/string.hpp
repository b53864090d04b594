#pragma once
// boost.string_algo for std::string, without locales
#include <string>
#include <vector>
#include <string.h>
namespace boost { namespace algorithm {
inline char sym_lower(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
inline char sym_upper(char c) { return c >= 'a' && c <= 'z' ? (char)(c - 32) : c; }
inline bool sym_space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline void replace_all(std::string &s, std::string const &a, std::string const &b) { if (a.empty()) return; for (size_t p = 0; (p = s.find(a, p)) != std::string::npos; p += b.size()) s.replace(p, a.size(), b); }
inline std::string replace_all_copy(std::string s, std::string const &a, std::string const &b) { replace_all(s, a, b); return s; }
inline void replace_first(std::string &s, std::string const &a, std::string const &b) { if (a.empty()) return; size_t p = s.find(a); if (p != std::string::npos) s.replace(p, a.size(), b); }
inline std::string replace_first_copy(std::string s, std::string const &a, std::string const &b) { replace_first(s, a, b); return s; }
inline void replace_last(std::string &s, std::string const &a, std::string const &b) { if (a.empty()) return; size_t p = s.rfind(a); if (p != std::string::npos) s.replace(p, a.size(), b); }
inline std::string replace_last_copy(std::string s, std::string const &a, std::string const &b) { replace_last(s, a, b); return s; }
inline void replace_head(std::string &s, int n, std::string const &b) { s.replace(0, n < (int)s.size() ? n : s.size(), b); }
inline void erase_all(std::string &s, std::string const &a) { replace_all(s, a, ""); }
inline void erase_first(std::string &s, std::string const &a) { replace_first(s, a, ""); }
inline void erase_last(std::string &s, std::string const &a) { replace_last(s, a, ""); }
inline bool starts_with(std::string const &s, std::string const &a) { return s.size() >= a.size() && !memcmp(s.data(), a.data(), a.size()); }
inline bool ends_with(std::string const &s, std::string const &a) { return s.size() >= a.size() && !memcmp(s.data() + s.size() - a.size(), a.data(), a.size()); }
inline bool contains(std::string const &s, std::string const &a) { return s.find(a) != std::string::npos; }
inline bool equals(std::string const &s, std::string const &a) { return s == a; }
inline void to_lower(std::string &s) { for (size_t i = 0; i < s.size(); ++i) s[i] = sym_lower(s[i]); }
inline void to_upper(std::string &s) { for (size_t i = 0; i < s.size(); ++i) s[i] = sym_upper(s[i]); }
inline std::string to_lower_copy(std::string s) { to_lower(s); return s; }
inline std::string to_upper_copy(std::string s) { to_upper(s); return s; }
inline bool iequals(std::string const &a, std::string const &b) { return to_lower_copy(a) == to_lower_copy(b); }
inline bool istarts_with(std::string const &a, std::string const &b) { return starts_with(to_lower_copy(a), to_lower_copy(b)); }
inline bool iends_with(std::string const &a, std::string const &b) { return ends_with(to_lower_copy(a), to_lower_copy(b)); }
inline bool icontains(std::string const &a, std::string const &b) { return contains(to_lower_copy(a), to_lower_copy(b)); }
struct is_any_of { std::string s; explicit is_any_of(std::string const &x) : s(x) {} bool operator()(char c) const { return s.find(c) != std::string::npos; } };
struct is_space { bool operator()(char c) const { return sym_space(c); } };
struct is_digit { bool operator()(char c) const { return c >= '0' && c <= '9'; } };
template<class P> inline void trim_left_if(std::string &s, P const &p) { size_t i = 0; while (i < s.size() && p(s[i])) ++i; s.erase(0, i); }
template<class P> inline void trim_right_if(std::string &s, P const &p) { size_t i = s.size(); while (i > 0 && p(s[i - 1])) --i; s.resize(i); }
template<class P> inline void trim_if(std::string &s, P const &p) { trim_right_if(s, p); trim_left_if(s, p); }
inline void trim_left(std::string &s) { trim_left_if(s, is_space()); }
inline void trim_right(std::string &s) { trim_right_if(s, is_space()); }
inline void trim(std::string &s) { trim_if(s, is_space()); }
inline std::string trim_copy(std::string s) { trim(s); return s; }
inline std::string trim_left_copy(std::string s) { trim_left(s); return s; }
inline std::string trim_right_copy(std::string s) { trim_right(s); return s; }
enum token_compress_mode_type { token_compress_on, token_compress_off };
template<class C, class P> inline C &split(C &out, std::string const &s, P const &p, token_compress_mode_type m = token_compress_off) { out.clear(); size_t b = 0; for (size_t i = 0; i <= s.size(); ++i) if (i == s.size() || p(s[i])) { out.push_back(s.substr(b, i - b)); if (m == token_compress_on) while (i + 1 < s.size() && p(s[i + 1])) ++i; b = i + 1; } return out; }
template<class C> inline std::string join(C const &c, std::string const &d) { std::string r; bool first = true; for (typename C::const_iterator p = c.begin(); p != c.end(); ++p) { if (!first) r += d; first = false; r += *p; } return r; }
}
using namespace algorithm;
}
