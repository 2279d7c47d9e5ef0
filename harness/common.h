// Shared environment stubs for the harnesses: what the code under test links against but does not depend on.
#pragma once
#include "symx.h"
#include <random>
#include <string>
#include <vector>
#include <memory>
#include <limits>
#include <iostream>
#include <sstream>
#include <fstream>
#include "utils/Random.h"
#ifndef SX_SEED
#define SX_SEED 1986
#endif
tGenerator startGen(SX_SEED);
extern "C" { __attribute__((weak)) size_t getPeakRSS(){return 0;} __attribute__((weak)) size_t getCurrentRSS(){return 0;} }
__attribute__((weak)) std::string getHostname(){return "";} __attribute__((weak)) std::string getDatetime(){return "";}
__attribute__((weak)) std::string print_stacktrace(const std::string&,const int,const uint){return "";}
namespace sx {
template<class T> inline T nz32(const char*n){ T k=(T)u32(n); assume(k!=0); return k; }
}
