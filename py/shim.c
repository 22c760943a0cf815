/* Stands where libbitboost.so stands: passes every call on to the real engine, except the calls the
 * plan of the run says fail, which report failure without reaching it. Keeps a log of all calls. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

enum { ALLOC, DEALLOC, REFRESH, SET, CONF, TRAIN, PREDICT };
typedef struct { int32_t fn, arg, failed, injected, unknown, cat; void *ctx; char name[64]; char value[64]; uint64_t hash; } rec;
#define MAXCTX 256
static void *live[MAXCTX];
static int rows[MAXCTX];
#define MAXLOG 4096
static rec logbuf[MAXLOG];
static int nlog, ncalls;
static uint8_t plan[MAXLOG];

rec *shim_log(void) { return logbuf; }
int shim_nlog(void) { return nlog; }
int shim_ncalls(void) { return ncalls; }
void shim_clear(void) { nlog = 0; }
void shim_fail(int call) { if (call >= 0 && call < MAXLOG) plan[call] = 1; }

static void *lib(void)
{
    static void *h;
    if (!h) {
        Dl_info i;
        char p[4096];
        dladdr((void *)lib, &i);
        snprintf(p, sizeof p, "%s.real", i.dli_fname);
        h = dlopen(p, RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "%s\n", dlerror()); abort(); }
    }
    return h;
}
static void *sym(const char *n) { void *f = dlsym(lib(), n); if (!f) { fprintf(stderr, "%s\n", dlerror()); abort(); } return f; }

static rec *enter(int fn, void *ctx, int arg, const char *name)
{
    static rec lost;
    rec *r = nlog < MAXLOG ? &logbuf[nlog++] : &lost;
    memset(r, 0, sizeof *r);
    r->fn = fn; r->ctx = ctx; r->arg = arg;
    if (name) { strncpy(r->name, name, sizeof r->name - 1); }
    r->injected = ncalls < MAXLOG && plan[ncalls];
    ncalls++;
    if (fn != ALLOC) {
        /* a context that is not in use must never reach the engine */
        r->unknown = 1;
        for (int i = 0; i < MAXCTX; i++) if (ctx && live[i] == ctx) { r->unknown = 0; }
    }
    return r;
}
#define PASS(r, call) do { int s = (r)->injected || (r)->unknown ? -1 : (call); (r)->failed = s != 0; return s; } while (0)

int bb_get_numt_nbytes(void) { return ((int (*)(void))sym("bb_get_numt_nbytes"))(); }
void *bb_alloc(int nf)
{
    rec *r = enter(ALLOC, 0, nf, 0);
    void *p = r->injected ? 0 : ((void *(*)(int))sym("bb_alloc"))(nf);
    r->ctx = p; r->failed = p == 0;
    for (int i = 0; p && i < MAXCTX; i++) if (!live[i]) { live[i] = p; rows[i] = 0; break; }
    return p;
}
static int drop(void *c) { for (int i = 0; i < MAXCTX; i++) if (live[i] == c) live[i] = 0; return ((int (*)(void *))sym("bb_dealloc"))(c); }
int bb_dealloc(void *c) { rec *r = enter(DEALLOC, c, 0, 0); PASS(r, drop(c)); }
int bb_refresh_data(void *c, int n)
{
    rec *r = enter(REFRESH, c, n, 0);
    int s = r->injected || r->unknown ? -1 : ((int (*)(void *, int))sym("bb_refresh_data"))(c, n);
    for (int i = 0; s == 0 && i < MAXCTX; i++) if (live[i] == c) rows[i] = n;
    r->failed = s != 0;
    return s;
}
/* what was handed over, position by position; both zeros count as the same value */
static uint64_t content(const void *x, int n)
{
    uint64_t h = 0;
    int wide = bb_get_numt_nbytes() == 8;
    for (int i = 0; i < n; i++) {
        uint64_t b = wide ? ((const uint64_t *)x)[i] : ((const uint32_t *)x)[i];
        if (wide ? b << 1 == 0 : (uint32_t)b << 1 == 0) b = 0;
        h += (b + 1) * ((uint64_t)(i + 1) * 0x9E3779B97F4A7C15ull | 1);
    }
    return h;
}
int bb_set_feature_data(void *c, int f, const void *x, int cat)
{
    rec *r = enter(SET, c, f, 0);
    int s = r->injected || r->unknown ? -1 : ((int (*)(void *, int, const void *, int))sym("bb_set_feature_data"))(c, f, x, cat);
    r->cat = cat != 0;
    for (int i = 0; s == 0 && i < MAXCTX; i++) if (live[i] == c) r->hash = content(x, rows[i]);
    r->failed = s != 0;
    return s;
}
int bb_set_config_field(void *c, const char *n, const char *v)
{
    rec *r = enter(CONF, c, 0, n);
    if (v) strncpy(r->value, v, sizeof r->value - 1);
    PASS(r, ((int (*)(void *, const char *, const char *))sym("bb_set_config_field"))(c, n, v));
}
int bb_train(void *c) { rec *r = enter(TRAIN, c, 0, 0); PASS(r, ((int (*)(void *))sym("bb_train"))(c)); }
int bb_predict(void *c, void *out) { rec *r = enter(PREDICT, c, 0, 0); PASS(r, ((int (*)(void *, void *))sym("bb_predict"))(c, out)); }
