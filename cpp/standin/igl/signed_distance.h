#include "point_mesh_squared_distance.h"
#include "parallel_for.h"
