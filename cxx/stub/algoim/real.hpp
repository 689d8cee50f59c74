#ifndef ALGOIM_REAL_HPP
#define ALGOIM_REAL_HPP
#include <algoim/uvector.hpp>
#endif
