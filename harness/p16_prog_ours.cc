// The shipped program experiments/ours.cc, as a function.
#include <bits/stdc++.h>         // whatever the program includes: not inside the namespace
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include "p16_hooks.h"
namespace prog_ours {
#include "p16_shadow.inc"
#define main program_main
#include "experiments/ours.cc"
#undef main
}
// A main without a return statement ends with 0: in a function of another name the compiler
// calls the missing-return handler there (-fsanitize=return, see Makefile and p16_programs.cc).
int ours_main(int argc, char** argv) { if (setjmp(*p16::end_of_main())) return 0; return prog_ours::program_main(argc, argv); }
