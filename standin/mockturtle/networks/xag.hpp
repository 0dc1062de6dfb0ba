#include "standin_graph.hpp"
