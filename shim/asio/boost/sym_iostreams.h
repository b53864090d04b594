#pragma once
// identity "compression": the checks look at what is written, not at zlib
#include <ostream>
#include <sstream>
#include <vector>
#include <string>
namespace boost { namespace iostreams {
namespace gzip { static const int best_speed = 1; } namespace zlib { static const int best_speed = 1; }
struct gzip_params { gzip_params(int) {} }; struct zlib_params { zlib_params(int) {} };
struct gzip_compressor { gzip_compressor(gzip_params const &) {} }; struct zlib_compressor { zlib_compressor(zlib_params const &) {} };
template<class C> struct back_insert_device { C *c; }; template<class C> back_insert_device<C> back_inserter(C &c) { back_insert_device<C> d = {&c}; return d; }
class filtering_ostream : public std::ostringstream { public: std::vector<char> *sink; std::ostream *osink; int filters; static std::string &sym_last() { static std::string s; return s; } filtering_ostream() : sink(0), osink(0), filters(0) {} 
  void push(gzip_compressor const &) { ++filters; sym_last() = "gzip"; } void push(zlib_compressor const &) { ++filters; sym_last() = "deflate"; } void push(std::ostream &o) { osink = &o; } template<class C> void push(back_insert_device<C> const &d) { sink = d.c; }
  void sym_sync() { std::string s = this->str(); this->str(std::string()); if (sink) sink->insert(sink->end(), s.begin(), s.end()); if (osink) osink->write(s.data(), s.size()); } };
inline void close(filtering_ostream &o) { o.sym_sync(); }
} }
