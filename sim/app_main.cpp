// The real program. Its entry point is called by the simulator (app.cpp).
#include <cstdlib>
#define main openmps_main
#include "OpenMps/Main.cpp"
#undef main
