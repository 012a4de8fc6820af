// Profiling is left out of the encoding (wall-clock bookkeeping on long double).
#ifndef CROCODDYL_CORE_UTILS_STOPWATCH_HPP_
#define CROCODDYL_CORE_UTILS_STOPWATCH_HPP_
#include <iostream>
#include <map>
#include <ostream>
#include <string>
#define START_PROFILER(name)
#define STOP_PROFILER(name)
#endif
