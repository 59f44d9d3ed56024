#include "geodesy/transformations.hpp"
