// force-included into the engine: ViennaCL's parallelisation threshold becomes a run-time knob
#pragma once
#include <cstddef>
extern std::size_t sim_vcl_min;
