/* Calls the generated inference function outside of the generated main program.
 * usage: driver inputs.bin outputs.bin n plan.bin
 * plan.bin: int32 records (op, a, b); results are appended to outputs.bin.
 *   op 0: run sample a on context b                 -> outputs
 *   op 1: fill context a with byte b
 *   op 2: run every sample concurrently on a threads -> outputs of the n samples
 *   op 3: copy context a over context b
 */
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "inference.h"
#include "test_dataset.h"

typedef DTYPE T;
static T *in, *keep, *out;
static int n;
static volatile long heap;
static __thread int counting;

void *__real_malloc(size_t s);
void *__real_calloc(size_t a, size_t b);
void *__real_realloc(void *p, size_t s);
void *__wrap_malloc(size_t s) { if (counting) heap++; return __real_malloc(s); }
void *__wrap_calloc(size_t a, size_t b) { if (counting) heap++; return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t s) { if (counting) heap++; return __real_realloc(p, s); }

struct job { int first, step; };

static void one(int sample, int ctx, T *dst)
{
    counting = 1;
    int rc = inference(&Context[ctx], dst, in + (size_t)sample * nn_input_size);
    counting = 0;
    if (rc != 0) { fprintf(stderr, "inference returned %d\n", rc); exit(10); }
}

static void *work(void *p)
{
    struct job *j = p;
    for (int r = 0; r < 3; r++)
        for (int s = j->first; s < n; s += j->step)
            one(s, j->first, out + (size_t)s * nn_output_size);
    return NULL;
}

int main(int argc, char **argv)
{
    n = atoi(argv[3]);
    size_t isz = (size_t)n * nn_input_size;
    in = malloc(isz * sizeof(T)); keep = malloc(isz * sizeof(T));
    out = malloc((size_t)n * nn_output_size * sizeof(T));
    FILE *f = fopen(argv[1], "rb");
    if (fread(in, sizeof(T), isz, f) != isz) { fprintf(stderr, "inputs\n"); return 11; }
    fclose(f);
    memcpy(keep, in, isz * sizeof(T));
    FILE *plan = fopen(argv[4], "rb"), *o = fopen(argv[2], "wb");
    int32_t r[3];
    while (fread(r, sizeof r, 1, plan) == 1) {
        if (r[0] == 0) {
            memset(out, 0xFF, nn_output_size * sizeof(T));
            one(r[1], r[2], out);
            fwrite(out, sizeof(T), nn_output_size, o);
        } else if (r[0] == 1) {
            memset(&Context[r[1]], r[2], sizeof Context[0]);
        } else if (r[0] == 2) {
            pthread_t th[32]; struct job j[32];
            memset(out, 0xFF, (size_t)n * nn_output_size * sizeof(T));
            for (int k = 0; k < r[1]; k++) { j[k].first = k; j[k].step = r[1]; pthread_create(&th[k], NULL, work, &j[k]); }
            for (int k = 0; k < r[1]; k++) pthread_join(th[k], NULL);
            fwrite(out, sizeof(T), (size_t)n * nn_output_size, o);
        } else {
            memcpy(&Context[r[2]], &Context[r[1]], sizeof Context[0]);
        }
        if (memcmp(in, keep, isz * sizeof(T))) { fprintf(stderr, "the inference modified its input\n"); return 12; }
    }
    fclose(o);
    if (heap) { fprintf(stderr, "heap allocation during inference\n"); return 13; }
    return 0;
}
