#pragma once
#include <time.h>
extern "C" long sym_now;
namespace boost { namespace posix_time {
struct time_duration { long us; explicit time_duration(long u = 0) : us(u) {} long total_seconds() const { return us / 1000000; } long total_milliseconds() const { return us / 1000; } long total_microseconds() const { return us; } };
struct seconds : time_duration { explicit seconds(long n) : time_duration(n * 1000000) {} };
struct milliseconds : time_duration { explicit milliseconds(long n) : time_duration(n * 1000) {} };
struct microseconds : time_duration { explicit microseconds(long n) : time_duration(n) {} };
struct minutes : time_duration { explicit minutes(long n) : time_duration(n * 60000000) {} };
struct ptime { long us; ptime() : us(0) {} time_duration operator-(ptime const &o) const { return time_duration(us - o.us); } };
inline ptime from_time_t(time_t t) { ptime p; p.us = t * 1000000L; return p; }
struct second_clock { static ptime local_time() { return from_time_t(sym_now); } static ptime universal_time() { return from_time_t(sym_now); } };
typedef second_clock microsec_clock;
} }
