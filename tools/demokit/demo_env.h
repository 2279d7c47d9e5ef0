// what the headers under test link against
#pragma once
#include "demo_rt.h"
#include <random>
#include <string>
#include <memory>
#include <limits>
#include <iostream>
#include <sstream>
#include <fstream>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include "utils/Random.h"
tGenerator startGen(1986);
extern "C" { __attribute__((weak)) size_t getPeakRSS(){return 0;} __attribute__((weak)) size_t getCurrentRSS(){return 0;} }
__attribute__((weak)) std::string getHostname(){return "";} __attribute__((weak)) std::string getDatetime(){return "";}
__attribute__((weak)) std::string print_stacktrace(const std::string&,const int,const uint){return "";}
#define REQUIRE(c) do{ if(!(c)){ std::printf("FAILED: %s (line %d)\n",#c,__LINE__); std::fflush(stdout); std::_Exit(1); } }while(0)
