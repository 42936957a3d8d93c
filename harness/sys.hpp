#pragma once
#include <algorithm>
#include <cstdint>
#include <string>
extern bool slow; // a sanitizer build: smaller fixed-size workloads
int runDump(uint64_t seed, unsigned long n, unsigned perm, std::string const & file);
int runCold(uint64_t seed, unsigned long n, unsigned perm);
std::string dumpName(uint64_t seed, unsigned long i);
void lookAtStart(); // before anything else in main
void watchStart(); // puts files of our own on descriptors 1 and 2
