/* Native replay runtime: feeds the solver's values to the harness. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vh.h"
static FILE *f;
uint64_t vh_next(const char *name)
{
    char nm[128]; unsigned long long v;
    if (!f) { const char *p = getenv("VH_INPUTS"); f = p ? fopen(p, "r") : 0; if (!f) { printf("REPLAY-ERROR no inputs\n"); exit(78); } }
    if (fscanf(f, "%127s %llu", nm, &v) != 2) { printf("REPLAY: inputs exhausted at %s, using 0\n", name); return 0; }
    if (strcmp(nm, name)) printf("REPLAY: input order differs (%s vs %s)\n", nm, name);
    printf("input %s = %llu\n", name, v);
    return v;
}
void vh_fail(const char *msg, const char *file, int line)
{
    printf("REPLAY-VIOLATION %s (%s:%d)\n", msg, file, line); fflush(stdout); exit(1);
}
void vh_assume_fail(const char *file, int line)
{
    printf("REPLAY-ASSUME-FAIL %s:%d\n", file, line); fflush(stdout); exit(77);
}
int main(void) { harness(); printf("REPLAY-OK harness finished without violation\n"); return 0; }
