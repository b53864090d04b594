#pragma once
#include <boost/thread/locks.hpp>
