#include "../phmap.h"
