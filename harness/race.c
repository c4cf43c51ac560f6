/* Threads that make their first calls into the library together, under ThreadSanitizer.
   usage: race LIB SEED [plant]   ("plant" adds a race of its own, to see the detector work) */
#include <dlfcn.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef unsigned __int128 u128;
typedef struct { const char *route, *name, *op, *sig; void (*f)(const u128 *, u128 *); } Entry;
static const Entry *T;
static size_t N, calls;
static uint64_t seed;
static pthread_barrier_t B;
static int planted, X;
static uint64_t rnd(uint64_t *s) { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; return *s * 0x2545F4914F6CDD1DULL; }
static int width(char c) { switch (c) { case 'h': return 16; case 's': case 'i': case 'u': return 32; case 'd': case 'l': case 'L': return 64; case 'x': case 'X': return 64; default: return 128; } }
static int skip(const Entry *e) { return !strncmp(e->op, "w_", 2) || !strcmp(e->route, "alg") || !strcmp(e->route, "hook") || !strcmp(e->route, "wide") || strstr(e->op, "fuel"); }
static u128 value(char c, uint64_t *s) {
    int w = width(c);
    u128 r = (u128)rnd(s) << 64 | rnd(s);
    static const int eb[] = { 5, 8, 11, 15 };
    if (c == 'h' || c == 's' || c == 'd' || c == 'q') {
        int e = eb[c == 'h' ? 0 : c == 's' ? 1 : c == 'd' ? 2 : 3], m = w - 1 - e;
        u128 one = (((u128)1 << (e - 1)) - 1) << m;
        if (rnd(s) % 4) return one + ((u128)(rnd(s) % 8) << m) - ((u128)3 << m) + (r & (((u128)1 << m) - 1));
        return r & (w < 128 ? ((u128)1 << w) - 1 : ~(u128)0);
    }
    r >>= rnd(s) % w;
    return w < 128 ? r & (((u128)1 << w) - 1) : r;
}
static void *run(void *p) {
    uint64_t s = seed * 0x9E3779B97F4A7C15ULL | 1;
    size_t start = rnd(&s) % N, n = 0;
    pthread_barrier_wait(&B);
    if (planted) X++;
    for (size_t k = 0; k < 2 * N; k++) {
        const Entry *e = &T[(start + k) % N];
        if (skip(e)) continue;
        u128 in[4] = { 0 }, out[4];
        for (int i = 0; e->sig[i] != '>'; i++) in[i] = value(e->sig[i], &s);
        if (!strncmp(e->op, "idiv", 4) || !strncmp(e->op, "irem", 4)) in[1] |= 1;
        if (!strncmp(e->op, "ish", 3)) in[1] &= width(e->sig[0]) - 1;
        if (!strcmp(e->op, "jn") || !strcmp(e->op, "yn")) in[0] &= 31;
        e->f(in, out);
        n++;
    }
    *(size_t *)p = n;
    return 0;
}
int main(int c, char **v) {
    void *h = dlopen(v[1], RTLD_NOW);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; }
    T = ((const Entry *(*)(void))dlsym(h, "sut_table"))();
    N = ((size_t(*)(void))dlsym(h, "sut_table_len"))();
    seed = strtoull(v[2], 0, 10);
    planted = c > 3;
    pthread_t t[8];
    size_t n[8];
    pthread_barrier_init(&B, 0, 8);
    for (int i = 0; i < 8; i++) pthread_create(&t[i], 0, run, &n[i]);
    for (int i = 0; i < 8; i++) pthread_join(t[i], 0), calls += n[i];
    printf("calls %zu\n", calls);
    return 0;
}
