#include "phmap.h"
