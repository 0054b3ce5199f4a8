#define ZPL_IMPLEMENTATION
#include "zpl.h"
