#pragma once
#include <boost/thread/recursive_mutex.hpp>
