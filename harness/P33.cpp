// REAL_RNG: the wrapper around the random generator itself
#include "common.h"
#include <wrappers/rng/rng.h>
#include <unistd.h>
#include <sys/wait.h>
using namespace BFL;
// the standard draw the generator would deliver next, obtained in a child process so that the generator here stays put
static double peek(int kind) { int fd[2]; if (pipe(fd)) return 0; pid_t p = fork(); if (p == 0) { double v = kind ? rnorm(0.0, 1.0) : runif(); ssize_t r = write(fd[1], &v, sizeof v); (void)r; _exit(0); } close(fd[1]); double v = 0; ssize_t r = read(fd[0], &v, sizeof v); (void)r; close(fd[0]); int st; waitpid(p, &st, 0); return v; }
static void burn(int n) { sym_numeric(1); for (int i = 0; i < n; i++) { if (i % 3 == 0) runif(); else if (i % 3 == 1) rnorm(0.0, 1.0); else runif(-1.0, 2.0); } }
static void normals(int first, int n) { burn(first); for (int i = 0; i < n; i++) { double m = sym_real("mu"), s = sym_real("sigma"); ASSUME_GE(s, 0.0); double z = peek(1); CHECK_EQ(rnorm(m, s), m + s * z, "normal draw = mean + deviation * standard draw"); double w = peek(1); CHECK(w != z, "fresh draw"); } REACH("end"); }
static void uniforms(int first, int n) { burn(first); for (int i = 0; i < n; i++) { double u = peek(0); CHECK(u >= 0 && u < 1, "uniform draw in [0,1)"); double a = sym_range("min", -1e9, 1e9), b = sym_range("max", -1e9, 1e9); ASSUME_LT(a, b); double v = runif(a, b); CHECK_EQ(v, a + (b - a) * u, "uniform draw = affine image of the standard draw"); CHECK_GE(v, a, "not below the minimum"); CHECK_LT(v, b, "below the maximum"); double w = peek(0); CHECK(w != u, "fresh draw"); } REACH("end"); }
CASE(normal_first) { normals(0, 6); }
CASE(normal_later) { normals(sym_int("before", 1, 12), 3); }
CASE(uniform_first) { uniforms(0, 6); }
CASE(uniform_later) { uniforms(sym_int("before", 1, 12), 3); }
CASE(mixed) { for (int i = 0; i < 3; i++) { if (sym_int("kind", 0, 1)) normals(0, 1); else uniforms(0, 1); } }
CASE_T(normal_many) { normals(700, 40); }
CASE_T(uniform_many) { uniforms(700, 40); }
