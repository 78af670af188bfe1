// the other configuration: no compression
#define DO_NOT_USE_BOOST_COMPRESSION
#include "Trajectory.cc"
