/* numpy's data allocator (NEP 49) under the simulator: what fresh memory
   holds is decided by the plan. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef struct {
    void *ctx;
    void *(*malloc)(void *, size_t);
    void *(*calloc)(void *, size_t, size_t);
    void *(*realloc)(void *, void *, size_t);
    void (*free)(void *, void *, size_t);
} Allocator;

typedef struct { char name[127]; uint8_t version; Allocator allocator; } Handler;

static int pattern = 0;

static void fill(unsigned char *p, size_t n) {
    size_t i;
    switch (pattern) {
        case 0: memset(p, 0, n); break;
        case 1: memset(p, 0xff, n); break;
        case 2: memset(p, 0x01, n); break;
        default: for (i = 0; i < n; i++) p[i] = (unsigned char)((i * 167 + 13) % 251); break;
    }
}

static void *sim_malloc(void *ctx, size_t n) {
    unsigned char *p;
    p = malloc(n ? n : 1);
    if (p) fill(p, n);
    return p;
}
static void *sim_calloc(void *ctx, size_t a, size_t b) {
    return calloc(a ? a : 1, b ? b : 1);
}
static void *sim_realloc(void *ctx, void *p, size_t n) {
    return realloc(p, n ? n : 1);
}
static void sim_free(void *ctx, void *p, size_t n) { free(p); }

static Handler handler = { "dst", 1, { NULL, sim_malloc, sim_calloc, sim_realloc, sim_free } };

void *sim_handler(void) { return &handler; }
void sim_set(int fillpattern) { pattern = fillpattern; }
