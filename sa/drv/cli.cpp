// the command-line program, from its arguments to its result
#ifdef SA_SPEC
#include "common.hpp"
#include "../spec/ref_cli.hpp"
#else
#define main sa_cli_main
#include "main.cpp"
#undef main
#define U extern "C" __attribute__((used))
#endif
U int u_cli(int argc, char** argv) { return sa_cli_main(argc, argv) != 0; }
