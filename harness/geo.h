#pragma once
#include "common.h"
#include "Geometry.h"
#include "Triangulator.h"
Logger&Logger::getInstance(){ static Logger l; l.logLevel=Logger::Verbosity::SILENT; return l; }
thread_local uint Logger::indentLevel=0;
std::ostream&Logger::addLogEntry(Verbosity){ static std::stringstream s; return s; }
std::ostream&Logger::printLog(std::ostream&o)const{ return o; } std::ostream&Logger::printLog(std::ostream&o,Verbosity)const{ return o; } std::string Logger::indent()const{ return ""; }
