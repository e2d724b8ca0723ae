#pragma once
#include "sim.h"
#include <string>
struct ModResult { bool failed = false; std::string msg; uint64_t ops = 0, hash = 1469598103934665603ull; bool tracing = false; FILE* tf = nullptr; };
void mod_circ(uint64_t seed, bool thorough, ModResult& r);
void mod_list(uint64_t seed, bool thorough, ModResult& r);
void mod_interval(uint64_t seed, bool thorough, ModResult& r);
void mod_pub(uint64_t seed, bool thorough, ModResult& r);
void mod_sub(uint64_t seed, bool thorough, ModResult& r);
void mod_log(uint64_t seed, bool thorough, ModResult& r);
