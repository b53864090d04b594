#pragma once
// boost.filesystem over POSIX calls (which the checks redirect to the in-memory file system)
#include <string>
#include <stdexcept>
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
#include <list>
#include <vector>
#include <errno.h>
#include <boost/system/error_code.hpp>
#include <boost/system/system_error.hpp>
namespace boost { namespace filesystem {
class path { std::string s; public: path() {} path(std::string const &x) : s(x) {} path(char const *x) : s(x) {}
  std::string const &string() const { return s; } std::string const &native() const { return s; } char const *c_str() const { return s.c_str(); }
  path parent_path() const { size_t n = s.find_last_of('/'); if (n == std::string::npos) return path(); while (n > 0 && s[n-1] == '/') --n; return path(n == 0 ? std::string("/") : s.substr(0, n)); }
  path filename() const { size_t n = s.find_last_of('/'); return n == std::string::npos ? path(s) : path(s.substr(n + 1)); }
  path &operator/=(path const &o) { if (s.size() && s[s.size()-1] != '/') s += '/'; s += o.s; return *this; } bool empty() const { return s.empty(); }
  bool operator==(path const &o) const { return s == o.s; } bool operator!=(path const &o) const { return s != o.s; } };
inline path operator/(path const &a, path const &b) { path r(a); r /= b; return r; }
template<class O> inline O &operator<<(O &o, path const &p) { o << "\"" << p.string() << "\""; return o; }
class filesystem_error : public std::runtime_error { boost::system::error_code e; path p; public: filesystem_error(std::string const &w, path const &p_, boost::system::error_code const &c) : std::runtime_error(w), e(c), p(p_) {} ~filesystem_error() throw() {} boost::system::error_code const &code() const { return e; } path const &path1() const { return p; } };
inline boost::system::error_code sym_err(int e) { return boost::system::error_code(e, boost::system::system_category()); }
inline bool exists(path const &p) { struct stat st; return ::stat(p.c_str(), &st) == 0; }
inline bool is_directory(path const &p) { struct stat st; return ::stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode); }
inline bool is_regular_file(path const &p) { struct stat st; return ::stat(p.c_str(), &st) == 0 && S_ISREG(st.st_mode); }
inline bool create_directory(path const &p, boost::system::error_code &ec) { ec = boost::system::error_code(); if (::mkdir(p.c_str(), 0777) == 0) return true; int e = errno; if (e == EEXIST && is_directory(p)) return false; ec = sym_err(e); return false; }
inline bool create_directory(path const &p) { boost::system::error_code ec; bool r = create_directory(p, ec); if (!!ec) throw filesystem_error("create_directory", p, ec); return r; }
inline bool create_directories(path const &p, boost::system::error_code &ec) { ec = boost::system::error_code(); if (p.empty() || p.string() == ".") return false; if (is_directory(p)) return false; path q = p.parent_path(); if (!q.empty() && !exists(q)) { create_directories(q, ec); if (!!ec) return false; } 
  std::string s = p.string(); if (s.size() && s[s.size()-1] == '/') { return true; } return create_directory(p, ec); }
inline bool create_directories(path const &p) { boost::system::error_code ec; bool r = create_directories(p, ec); if (!!ec) throw filesystem_error("create_directories", p, ec); return r; }
inline bool remove(path const &p, boost::system::error_code &ec) { ec = boost::system::error_code(); int r = is_directory(p) ? ::rmdir(p.c_str()) : ::unlink(p.c_str()); if (r == 0) return true; if (errno != ENOENT) ec = sym_err(errno); return false; }
inline bool remove(path const &p) { boost::system::error_code ec; bool r = remove(p, ec); if (!!ec) throw filesystem_error("remove", p, ec); return r; }
inline void rename(path const &a, path const &b, boost::system::error_code &ec) { ec = boost::system::error_code(); if (::rename(a.c_str(), b.c_str()) < 0) ec = sym_err(errno); }
inline void rename(path const &a, path const &b) { boost::system::error_code ec; rename(a, b, ec); if (!!ec) throw filesystem_error("rename", a, ec); }
inline void create_hard_link(path const &a, path const &b, boost::system::error_code &ec) { ec = boost::system::error_code(); if (::link(a.c_str(), b.c_str()) < 0) ec = sym_err(errno); }
inline void copy_file(path const &a, path const &b) {
  int i = ::open(a.c_str(), O_RDONLY); if (i < 0) throw filesystem_error("copy_file", a, sym_err(errno));
  int o = ::open(b.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0666); if (o < 0) { int e = errno; ::close(i); throw filesystem_error("copy_file", b, sym_err(e)); }
  char buf[4096]; long n; while ((n = ::read(i, buf, sizeof buf)) > 0) if (::write(o, buf, n) != n) { int e = errno; ::close(i); ::close(o); throw filesystem_error("copy_file", b, sym_err(e)); }
  ::close(i); ::close(o); }
class directory_entry { public: boost::filesystem::path p; boost::filesystem::path const &path() const { return p; } };
class directory_iterator { DIR *d; boost::filesystem::path base; directory_entry e; void step() { while (d) { struct dirent *x = ::readdir(d); if (!x) { ::closedir(d); d = 0; break; } if (!strcmp(x->d_name, ".") || !strcmp(x->d_name, "..")) continue; e.p = base / boost::filesystem::path(x->d_name); break; } }
 public: directory_iterator() : d(0) {} explicit directory_iterator(boost::filesystem::path const &p) : base(p) { d = ::opendir(p.c_str()); if (!d) throw filesystem_error("directory_iterator", p, sym_err(errno)); step(); } directory_iterator(boost::filesystem::path const &p, boost::system::error_code &ec) : base(p) { ec = boost::system::error_code(); d = ::opendir(p.c_str()); if (!d) ec = sym_err(errno); else step(); }
  directory_iterator(directory_iterator const &o) : d(o.d), base(o.base), e(o.e) { const_cast<directory_iterator &>(o).d = 0; } directory_iterator &operator=(directory_iterator const &o) { d = o.d; base = o.base; e = o.e; const_cast<directory_iterator &>(o).d = 0; return *this; } ~directory_iterator() { if (d) ::closedir(d); }
  directory_iterator &operator++() { step(); return *this; } directory_entry const &operator*() const { return e; } directory_entry const *operator->() const { return &e; } bool operator!=(directory_iterator const &o) const { return (d != 0) != (o.d != 0); } bool operator==(directory_iterator const &o) const { return !(*this != o); } };
inline bool is_empty(path const &p) { directory_iterator i(p), e; return i == e; }
inline unsigned long remove_all(path const &p) { unsigned long n = 0; if (is_directory(p)) { while (true) { directory_iterator i(p), e; if (i == e) break; n += remove_all(i->path()); } } if (remove(p)) ++n; return n; }
} }
