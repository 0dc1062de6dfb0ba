// Stand-in for bill (lsils/bill): the part of its SAT interface that fiction uses, on a small CDCL solver.
#pragma once
#include "common.hpp"
