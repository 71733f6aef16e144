// Analysis model of <getopt.h>: what an option means depends on the two tables,
// each read as a set of entries.
#ifndef SA_GETOPT_MODEL
#define SA_GETOPT_MODEL
#include <string>
struct option { const char* name; int has_arg; int* flag; int val; };
#define no_argument 0
#define required_argument 1
#define optional_argument 2
extern "C" {
extern long __sa_optpos;
extern char* optarg;
extern int optind, opterr, optopt;
unsigned long __sa_opttable(const option* l) noexcept;
unsigned long __sa_optstring(const char* s) noexcept;
int __sa_opt_char(long pos, unsigned long shrt, unsigned long lng) noexcept;
char* __sa_ptr_optarg(long pos, unsigned long shrt, unsigned long lng) noexcept;
long __sa_h_opt_next(long pos, unsigned long shrt, unsigned long lng) noexcept;
}
static inline __attribute__((always_inline)) int getopt_long(int argc, char* const argv[], const char* s, const option* l, int* ix) {
  const unsigned long h = __sa_opttable(l);
  const unsigned long t = __sa_optstring(s);
  const long p = __sa_optpos;
  optarg = __sa_ptr_optarg(p, t, h);
  __sa_optpos = __sa_h_opt_next(p, t, h);
  return __sa_opt_char(p, t, h);
}
#define getopt_long_only getopt_long
#endif
