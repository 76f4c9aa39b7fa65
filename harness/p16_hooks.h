#pragma once
#include <csetjmp>
#include "proto.h"
namespace p16 {
void built(const tp::CircuitConfig& c);
void connected();
void mark(const char* phase);
void inputs(const std::vector<tp::FF>& v);
void result(const std::vector<tp::FF>& v);
size_t outputs_of_first();
bool first_party();
jmp_buf* end_of_main();
}
int ours_main(int argc, char** argv) __attribute__((weak));   // absent if it no longer fits (Makefile)
int dn07_main(int argc, char** argv) __attribute__((weak));
