#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include "timing_and_stat.h"
static welford_t w[3];
void st_init(int i) { welford_init(&w[i]); }
void st_add(int i, long double x) { welford_update(&w[i], x); }
long double st_mean(int i) { return welford_mean(w[i]); }
long double st_dev(int i) { return welford_stddev(w[i]); }
double st_t(int i, int j) { return welch_t_statistic(w[i], w[j]); }
void st_print(int i) { welford_print(w[i]); fflush(stdout); }
