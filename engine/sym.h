// Harness API.  The same harness source is compiled twice: with the symbolic
// runtime (symrt.cpp, solver decides) and natively (native.cpp, replay).
#ifndef SYM_H
#define SYM_H
#include <cstddef>
extern "C" {
double sym_real(const char *name);                          // any real
double sym_range(const char *name, double lo, double hi);   // lo <= v <= hi
int  sym_int(const char *name, int lo, int hi);             // every value, one path each
// sym_cmp ops: 0 '==', 1 '!=', 2 '<', 3 '<=', 4 '>', 5 '>='
void sym_assume_cmp(int op, double a, double b);            // precondition
void sym_check_cmp(int op, double a, double b, const char *what); // obligation
void sym_check_bool(int c, const char *what);               // obligation on a concrete outcome
void sym_reach(const char *label);                          // vacuity witness
void sym_end_path(void);                                    // stop this path (precondition fails)
int  sym_is_symbolic(double a);
int  sym_native(void);
void sym_numeric(int on);                                   // 1: concrete subcomputations in double arithmetic instead of exact reals; 2: also round the coefficients of symbolic terms
void sym_stub_draw_note(const char *);
}
static inline void ASSUME_EQ(double a,double b){sym_assume_cmp(0,a,b);}
static inline void ASSUME_NE(double a,double b){sym_assume_cmp(1,a,b);}
static inline void ASSUME_LT(double a,double b){sym_assume_cmp(2,a,b);}
static inline void ASSUME_LE(double a,double b){sym_assume_cmp(3,a,b);}
static inline void ASSUME_GT(double a,double b){sym_assume_cmp(4,a,b);}
static inline void ASSUME_GE(double a,double b){sym_assume_cmp(5,a,b);}
static inline void CHECK_EQ(double a,double b,const char*w){sym_check_cmp(0,a,b,w);}
static inline void CHECK_LE(double a,double b,const char*w){sym_check_cmp(3,a,b,w);}
static inline void CHECK_LT(double a,double b,const char*w){sym_check_cmp(2,a,b,w);}
static inline void CHECK_GE(double a,double b,const char*w){sym_check_cmp(5,a,b,w);}
static inline void CHECK_GT(double a,double b,const char*w){sym_check_cmp(4,a,b,w);}
static inline void CHECK(bool c,const char*w){sym_check_bool(c?1:0,w);}
static inline void ASSUME(bool c){ if(!c) sym_end_path(); }
static inline void REACH(const char*l){sym_reach(l);}
#endif
