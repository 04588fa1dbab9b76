#ifndef RNGCTL_H
#define RNGCTL_H
void rng_queue(double v);   // value of the next standard draw (normal: N(0,1); uniform: [0,1))
void rng_reset();           // forget queued values and history
int rng_count();            // draws since the last reset
double rng_draw(int i);     // i-th standard draw since the last reset
int rng_unused();           // queued values not consumed
#endif
