#pragma once
#include <time.h>
namespace boost { namespace date_time { struct c_time { static struct tm *gmtime(const time_t *t, struct tm *r) { return gmtime_r(t, r); } static struct tm *localtime(const time_t *t, struct tm *r) { return localtime_r(t, r); } }; } }
