/* preloaded into the openssl utility: what seeds the engine's generator comes from the case, a hanging run is ended */
#define _GNU_SOURCE
#include <openssl/rand.h>
#include <stdint.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
static uint64_t st;
static uint64_t mix(void) { uint64_t x = st += 0x9e3779b97f4a7c15ULL; x = (x ^ x >> 30) * 0xbf58476d1ce4e5b9ULL; x = (x ^ x >> 27) * 0x94d049bb133111ebULL; return x ^ x >> 31; }
static int bytes(unsigned char *p, int n) { for (int i = 0; i < n; ++i) p[i] = (unsigned char)mix(); return 1; }
static int status(void) { return 1; }
static int seed(const void *b, int n) { (void)b; (void)n; return 1; }
static int add(const void *b, int n, double e) { (void)b; (void)n; (void)e; return 1; }
static RAND_METHOD meth = {seed, bytes, NULL, add, bytes, status};
RAND_METHOD *RAND_OpenSSL(void) { return &meth; }
time_t time(time_t *t) { time_t v = 1700000000 + (time_t)(st & 0xffff); if (t) *t = v; return v; }
__attribute__((constructor)) static void start(void) { const char *s = getenv("DSTU_SHIM_SEED"); st = s ? strtoull(s, NULL, 10) : 1; alarm(60); }
