/* native driver of a harness: feeds it the values of a counterexample */
#include <stdio.h>
#include <stdlib.h>
static FILE *vp_f;
unsigned long long vp_next(void) {
    unsigned long long v = 0;
    if (vp_f && fscanf(vp_f, "%llu", &v) != 1) v = 0;
    return v;
}
void vp_fail(const char *m) { printf("VP-FAIL %s\n", m); fflush(stdout); exit(10); }
void vp_assume_failed(const char *m) { printf("VP-ASSUME %s\n", m); fflush(stdout); exit(11); }
void vp_model(const char *m) { printf("VP-MODEL %s\n", m); fflush(stdout); exit(12); }
void vp_harness(void);
int main(int argc, char **argv) {
    if (argc > 1) { vp_f = fopen(argv[1], "r"); if (!vp_f) { perror(argv[1]); return 13; } }
    vp_harness();
    printf("VP-OK\n");
    return 0;
}
