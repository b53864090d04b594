#pragma once
#include <boost/sym_asio.h>
