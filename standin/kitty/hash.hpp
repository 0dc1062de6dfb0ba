#include "dynamic_truth_table.hpp"
