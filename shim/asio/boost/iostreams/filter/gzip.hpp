#pragma once
#include <boost/sym_iostreams.h>
