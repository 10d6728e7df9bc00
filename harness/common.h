/* Concrete replay of obligations against the real library, with an oracle that shares no code with it:
 * elements are rational polynomials reduced with FLINT, roots come from FLINT's qqbar. */
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <math.h>
#include <float.h>
#include <limits.h>
#include <gmp.h>
#include <flint/flint.h>
#include <flint/fmpz.h>
#include <flint/fmpz_vec.h>
#include <flint/fmpz_poly.h>
#include <flint/fmpz_poly_factor.h>
#include <flint/fmpq.h>
#include <flint/fmpq_poly.h>
#include <flint/arb.h>
#include <flint/arf.h>
#include <flint/nf.h>
#include <flint/nf_elem.h>
#include <flint/qqbar.h>
#include <e-antic/renf.h>
#include <e-antic/renf_elem.h>
#include <e-antic/fmpz_poly_extra.h>
#include <e-antic/fmpq_poly_extra.h>

static const char *PROP = "P00";
static const char *NOTE = "/dev/null";
static int notefd = -1;
static double T0, BUDGET = 20;
static unsigned long NCASE = 0, NTRIV = 0;
static unsigned long RNG = 88172645463325252UL;
static char CASE[65536];

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9*t.tv_nsec; }
static unsigned long rnd(void) { RNG ^= RNG << 13; RNG ^= RNG >> 7; RNG ^= RNG << 17; return RNG * 2685821657736338717UL; }
static long rn(long n) { return (long)((rnd() >> 11) % (unsigned long) n); }
static int over(void) { return now() - T0 > BUDGET; }

/* the case about to be run goes to a file that survives a crash */
static void newcase(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(CASE, sizeof(CASE) - 2, fmt, ap);
    va_end(ap);
    if (n > (int) sizeof(CASE) - 3) n = sizeof(CASE) - 3;
    NCASE++;
    if (notefd >= 0) { CASE[n] = '\n'; if (pwrite(notefd, CASE, n + 1, 0) >= 0 && ftruncate(notefd, n + 1) == 0) {} CASE[n] = 0; }
    alarm(60);
}
static void failure(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    alarm(0);
    printf("FAIL property=%s\n  input: %s\n  ", PROP, CASE);
    vprintf(fmt, ap);
    printf("\n");
    va_end(ap);
    fflush(stdout);
    _exit(9);
}
static void onalarm(int s) { (void) s; printf("FAIL property=%s\n  input: %s\n  the call does not return within 60 s\n", PROP, CASE); fflush(stdout); _exit(9); }
static void setup(int argc, char **argv)
{
    PROP = argc > 1 ? argv[1] : "P00";
    long seed = argc > 2 ? atol(argv[2]) : 1;
    BUDGET = argc > 3 ? atof(argv[3]) : 10;
    if (argc > 4) NOTE = argv[4];
    notefd = open(NOTE, 02 | 0100 | 01000, 0644);
    RNG ^= (unsigned long) seed * 0x9E3779B97F4A7C15UL;
    for (int i = 0; i < 8; i++) rnd();
    T0 = now();
    signal(SIGALRM, onalarm);
}
static int done(void) { alarm(0); printf("CASES %lu NONTRIVIAL %lu\n", NCASE, NTRIV); fflush(stdout); return 0; }
#define IS(p) (!strcmp(PROP, p))

/* ---------------------------------------------------------------- fields */
typedef struct { renf_t nf; fmpq_poly_t pol; qqbar_t root; char desc[1200]; slong deg; arb_t enc[6]; int have[6]; } Fld;
static const slong LEV[6] = {128, 512, 2048, 8192, 32768, 131072};

static void oroot(arb_t r, Fld *F, slong prec)
{
    int l = 0;
    while (l < 5 && LEV[l] < prec + 64) l++;
    if (!F->have[l]) { arb_init(F->enc[l]); qqbar_get_arb(F->enc[l], F->root, LEV[l]); F->have[l] = 1; }
    arb_set(r, F->enc[l]);
}
/* value of the element at the root, computed with prec bits and radius as good as possible */
static void oeval(arb_t r, const fmpq_poly_t v, Fld *F, slong prec)
{
    arb_t x, y; arb_init(x); arb_init(y);
    slong wp = prec;
    for (int k = 0; k < 10; k++)
    {
        oroot(x, F, wp);
        arb_zero(y);
        for (slong i = v->length - 1; i >= 0; i--) { arb_mul(y, y, x, wp + 64); arb_add_fmpz(y, y, v->coeffs + i, wp + 64); }
        arb_div_fmpz(y, y, v->den, wp + 64);
        if (v->length <= 1 || arb_rel_accuracy_bits(y) >= prec || wp > 120000) break;
        wp *= 2;
    }
    arb_set(r, y);
    arb_clear(x); arb_clear(y);
}
static int osgn(const fmpq_poly_t v, Fld *F)
{
    int s;
    arb_t y;
    if (v->length == 0) return 0;
    if (v->length == 1) return fmpz_sgn(v->coeffs);
    arb_init(y);
    oeval(y, v, F, 64);
    s = arb_contains_zero(y) ? 99 : arf_sgn(arb_midref(y));
    arb_clear(y);
    if (s == 99) { printf("ORACLE undecided\n"); fflush(stdout); _exit(77); }
    return s;
}
static void ofloor(fmpz_t z, const fmpq_poly_t v, Fld *F)
{
    if (v->length == 0) { fmpz_zero(z); return; }
    if (v->length == 1) { fmpz_fdiv_q(z, v->coeffs, v->den); return; }
    arb_t y; arb_init(y);
    for (slong p = 64; ; p *= 4)
    {
        oeval(y, v, F, p);
        arb_floor(y, y, p + 64 + 4096);
        if (arb_get_unique_fmpz(z, y)) break;
        if (p > 120000) { printf("ORACLE floor undecided\n"); fflush(stdout); _exit(77); }
    }
    arb_clear(y);
}
static void oreduce(fmpq_poly_t v, Fld *F) { fmpq_poly_rem(v, v, F->pol); }
static void omul(fmpq_poly_t r, const fmpq_poly_t a, const fmpq_poly_t b, Fld *F) { fmpq_poly_t t; fmpq_poly_init(t); fmpq_poly_mul(t, a, b); oreduce(t, F); fmpq_poly_set(r, t); fmpq_poly_clear(t); }
static void oinv(fmpq_poly_t r, const fmpq_poly_t a, Fld *F)
{
    fmpq_poly_t g, s, t; fmpq_poly_init(g); fmpq_poly_init(s); fmpq_poly_init(t);
    fmpq_poly_xgcd(g, s, t, a, F->pol);
    fmpq_poly_rem(s, s, F->pol);
    fmpq_poly_set(r, s);
    fmpq_poly_clear(g); fmpq_poly_clear(s); fmpq_poly_clear(t);
}
static void opow(fmpq_poly_t r, const fmpq_poly_t a, ulong e, Fld *F)
{
    fmpq_poly_t x, y; fmpq_poly_init(x); fmpq_poly_init(y);
    fmpq_poly_one(x); fmpq_poly_set(y, a);
    while (e) { if (e & 1) omul(x, x, y, F); e >>= 1; if (e) omul(y, y, y, F); }
    fmpq_poly_set(r, x);
    fmpq_poly_clear(x); fmpq_poly_clear(y);
}

/* field from coefficients (as text of fmpz_poly) and the index of a real root, with a ball of given quality */
static int mkfield(Fld *F, const fmpz_poly_t pol, slong idx, slong prec, int ballkind)
{
    slong d = fmpz_poly_degree(pol), i, k = 0;
    if (d < 1) return 0;
    qqbar_ptr rts = _qqbar_vec_init(d);
    qqbar_roots_fmpz_poly(rts, pol, QQBAR_ROOTS_IRREDUCIBLE);
    int ok = 0;
    /* the real roots in decreasing order */
    for (i = 0; i < d; i++) if (qqbar_is_real(rts + i)) { if (k == idx) { ok = 1; break; } k++; }
    if (ok)
    {
        qqbar_init(F->root); qqbar_set(F->root, rts + i);
        fmpq_poly_init(F->pol); fmpq_poly_set_fmpz_poly(F->pol, pol);
        memset(F->have, 0, sizeof(F->have));
        F->deg = d;
        arb_t b; arb_init(b);
        slong isop = 64;
        for (;; isop *= 2)
        {   /* enough bits to isolate the root */
            int clash = 0; arb_t o; arb_init(o);
            qqbar_get_arb(b, F->root, isop);
            for (slong j = 0; j < d && !clash; j++) if (j != i && qqbar_is_real(rts + j)) { qqbar_get_arb(o, rts + j, isop); clash = arb_overlaps(o, b); }
            arb_clear(o);
            if (!clash) break;
        }
        if (ballkind == 1)
        {
            /* as large as possible: up to a quarter of the distance to the other real roots */
            arb_t dd, o; arb_init(dd); arb_init(o);
            mag_t best, t; mag_init(best); mag_init(t);
            mag_set_ui_2exp_si(best, 1, 20);
            for (slong j = 0; j < d; j++) if (j != i && qqbar_is_real(rts + j))
            { qqbar_get_arb(o, rts + j, 2*isop); arb_sub(dd, o, b, 2*isop); arb_get_mag_lower(t, dd); mag_mul_2exp_si(t, t, -1); if (mag_cmp(t, best) < 0) mag_set(best, t); }
            mag_mul_2exp_si(best, best, -1);
            if (mag_cmp(best, arb_radref(b)) > 0) mag_set(arb_radref(b), best);
            arb_clear(dd); arb_clear(o); mag_clear(best); mag_clear(t);
        }
        else if (ballkind == 2) qqbar_get_arb(b, F->root, 4*prec + isop);
        char *s = fmpz_poly_get_str_pretty(pol, "x"), *e = arb_get_str(b, 20, 0);
        if (strlen(s) > 800) s[800] = 0;
        snprintf(F->desc, sizeof(F->desc), "field Q[x]/(%s), root in %s, prec %ld", s, e, prec);
        flint_free(s); flint_free(e);
        newcase("renf_init: %s", F->desc);
        renf_init(F->nf, F->pol, b, prec);
        arb_clear(b);
    }
    _qqbar_vec_clear(rts, d);
    return ok;
}
static void clearfield(Fld *F) { renf_clear(F->nf); fmpq_poly_clear(F->pol); qqbar_clear(F->root); for (int i = 0; i < 6; i++) if (F->have[i]) arb_clear(F->enc[i]); }

static const char *POLYS[] = {
    "2  -2 1", "2  0 1", "2  3 2", "2  -7 3", "2  -1 1000000007", "2  5 -3",
    "3  -2 0 1", "3  -1 -1 1", "3  -2 0 3", "3  7 1 -5", "3  -99999999999999999999999999999999999999 0 1", "3  -1 0 100000000000000000000000000000000000001", "3  1 -3 1",
    "3  -3 6 2", "3  499999999999999999999999999999999999999999999999999999999999 -1000000000000000000000000000000000000000000000000000000000000 500000000000000000000000000000000000000000000000000000000000", "3  -1 0 340282366920938463463374607431768211457",
    "4  -2 0 0 1", "4  1 -3 0 1", "4  -1 -1 0 3", "4  -1000000000000000000000000000000000000000000000000000000000007 0 0 1", "4  -1 0 0 1000000000000000000000000000000000000000000000000000000000007",
    "4  5 -3 -7 6",
    "5  1 0 -10 0 1", "5  2 0 -4 0 1", "5  -3 0 0 0 1", "5  -1 3 0 0 5",
    "6  -1 -1 0 0 0 1", "7  -3 0 0 0 0 0 1", "8  1 -2 0 0 0 3 0 7", "9  2 0 0 -8 0 0 0 0 1", "6  1 0 -5 0 0 1", NULL };
static flint_rand_t FST; static int FINIT = 0;
static void rz(fmpz_t c, int big) { if (!FINIT) { flint_randinit(FST); for (long i = rn(64); i >= 0; i--) n_randint(FST, 100); FINIT = 1; } fmpz_randtest(c, FST, big ? 1 + rn(200) : 1 + rn(5)); }
static void randpoly(fmpz_poly_t p)
{
    fmpz_t z0; fmpz_init(z0); rz(z0, 0); fmpz_clear(z0);
    for (;;)
    {
        fmpz_poly_fit_length(p, 8);
        slong n = 2 + rn(4), bits = 1 + rn(rn(3) ? 6 : 80);
        fmpz_poly_zero(p);
        for (slong i = 0; i <= n; i++) { fmpz_t c; fmpz_init(c); fmpz_randtest(c, FST, bits); fmpz_poly_set_coeff_fmpz(p, i, c); fmpz_clear(c); }
        if (fmpz_poly_degree(p) < 1 || fmpz_is_zero(p->coeffs)) continue;
        fmpz_poly_primitive_part(p, p);
        fmpz_poly_factor_t f; fmpz_poly_factor_init(f); fmpz_poly_factor(f, p);
        int irr = f->num == 1 && f->exp[0] == 1;
        fmpz_poly_factor_clear(f);
        if (irr && fmpz_poly_num_real_roots(p) > 0) return;
    }
}
static int anyfield(Fld *F, int it)
{
    static const slong PR[] = {2, 8, 16, 53, 64, 128, 300};
    fmpz_poly_t p; fmpz_poly_init(p);
    int n = 0; while (POLYS[n]) n++;
    if (it < n) fmpz_poly_set_str(p, POLYS[it]);
    else if (rn(3)) fmpz_poly_set_str(p, POLYS[rn(n)]);
    else randpoly(p);
    slong r = fmpz_poly_degree(p) == 1 ? 1 : fmpz_poly_num_real_roots(p);
    int ok = r > 0 && mkfield(F, p, rn(r), PR[it < n ? 4 : rn(7)], it < n ? 0 : (int) rn(3));
    fmpz_poly_clear(p);
    return ok;
}

/* ---------------------------------------------------------------- elements */
static void rq(fmpq_t q, int kind)
{
    fmpz_t n, d; fmpz_init(n); fmpz_init(d);
    static const slong S[] = {0, 1, -1, 2, -2, 3, -3, 7, 10};
    switch (kind)
    {
        case 0: fmpz_set_si(n, S[rn(9)]); fmpz_one(d); break;
        case 1: rz(n, 0); rz(d, 0); if (fmpz_is_zero(d)) fmpz_one(d); break;
        case 2: rz(n, 1); rz(d, 1); if (fmpz_is_zero(d)) fmpz_one(d); break;
        case 3: rz(n, 1); fmpz_one(d); break;
        case 4: fmpz_set_si(n, rn(2) ? WORD_MAX : WORD_MIN); fmpz_add_si(n, n, rn(5) - 2); fmpz_one(d); break;
        case 5: rz(n, 0); fmpz_one(d); fmpz_mul_2exp(d, d, rn(120)); break;
        default: fmpz_set_ui(n, UWORD_MAX); fmpz_add_si(n, n, rn(5) - 2); if (rn(2)) fmpz_neg(n, n); fmpz_one(d); break;
    }
    fmpq_set_fmpz_frac(q, n, d);
    fmpz_clear(n); fmpz_clear(d);
}
static void relem(fmpq_poly_t v, Fld *F, int kind)
{
    fmpq_t q; fmpq_init(q);
    fmpq_poly_zero(v);
    slong d = F->deg;
    if (d == 1) kind %= 4;
    switch (kind)
    {
        case 0: break;
        case 1: rq(q, 0); fmpq_poly_set_fmpq(v, q); break;
        case 2: rq(q, 1 + rn(2)); fmpq_poly_set_fmpq(v, q); break;
        case 3: rq(q, 3 + rn(4)); fmpq_poly_set_fmpq(v, q); break;
        case 4: fmpq_poly_set_coeff_si(v, 1, rn(2) ? 1 : -1); break;
        case 5: for (slong i = 0; i < d; i++) { rq(q, 0); fmpq_poly_set_coeff_fmpq(v, i, q); } break;
        case 6: for (slong i = 0; i < d; i++) { rq(q, 1); fmpq_poly_set_coeff_fmpq(v, i, q); } break;
        case 7: for (slong i = 0; i < d; i++) { rq(q, 2); fmpq_poly_set_coeff_fmpq(v, i, q); } break;
        case 8: rq(q, 1); if (fmpq_is_zero(q)) fmpq_one(q); fmpq_poly_set_coeff_fmpq(v, rn(d), q); break;
        default:
        {
            /* within 2^-t of an integer or a rational */
            for (slong i = 0; i < d; i++) { rq(q, 0); fmpq_poly_set_coeff_fmpq(v, i, q); }
            if (v->length > 1)
            {
                slong t = kind == 9 ? rn(12) : (kind == 10 ? 20 + rn(100) : 100 + rn(800));
                fmpz_t z, two; fmpz_init(z); fmpz_init(two); fmpz_one(two); fmpz_mul_2exp(two, two, t);
                fmpq_poly_t w; fmpq_poly_init(w);
                fmpq_poly_scalar_mul_fmpz(w, v, two);
                ofloor(z, w, F);
                if (rn(2)) { fmpq_set_fmpz_frac(q, z, two); fmpq_poly_set_fmpq(w, q); fmpq_poly_sub(v, v, w); }
                else { fmpq_poly_set_fmpz(v, z); fmpq_poly_sub(v, w, v); /* 2^t v - floor */ fmpq_poly_scalar_mul_ui(v, v, 1); }
                if (rn(2)) { rq(q, rn(4)); fmpq_poly_set_fmpq(w, q); fmpq_poly_add(v, v, w); }
                fmpq_poly_clear(w); fmpz_clear(z); fmpz_clear(two);
            }
        }
    }
    fmpq_clear(q);
}
#define NKIND 12
typedef struct { renf_elem_t e; fmpq_poly_t v; } El;
/* quality 0 tight, 1 few bits, 2 so coarse that it contains zero, 3 infinite, 4 coarse around an integer */
static void setball(arb_t b, const fmpq_poly_t v, Fld *F, int quality)
{
    oeval(b, v, F, quality == 0 ? 64 : (quality == 1 ? 10 : 30));
    if (quality == 1) arb_set_round(b, b, 6 + rn(8));
    if (quality == 2) { mag_t m; mag_init(m); arb_get_mag(m, b); mag_mul_2exp_si(m, m, 1 + rn(3)); mag_add(arb_radref(b), arb_radref(b), m); mag_clear(m); }
    if (quality == 3) arb_zero_pm_inf(b);
    if (quality == 4) { arb_add_error_2exp_si(b, -3 + rn(6)); }
    if (quality == 5) { oeval(b, v, F, 500); }
}
static void elinit(El *x, Fld *F, const fmpq_poly_t v, int quality)
{
    renf_elem_init(x->e, F->nf);
    fmpq_poly_init(x->v); fmpq_poly_set(x->v, v); oreduce(x->v, F);
    nf_elem_set_fmpq_poly(x->e->elem, x->v, F->nf->nf);
    setball(x->e->emb, x->v, F, quality);
}
static void elclear(El *x, Fld *F) { renf_elem_clear(x->e, F->nf); fmpq_poly_clear(x->v); }
static int elgood(const renf_elem_t e, const fmpq_poly_t v, Fld *F)
{
    fmpq_poly_t w; fmpq_poly_init(w);
    nf_elem_get_fmpq_poly(w, e->elem, F->nf->nf);
    int r = fmpq_poly_equal(w, v);
    if (!fmpq_poly_is_canonical(w)) r = 0;
    fmpq_poly_clear(w);
    return r;
}
static int encl(const arb_t b, const fmpq_poly_t v, Fld *F)
{
    arb_t y; arb_init(y);
    slong acc = arb_rel_accuracy_bits(b);
    if (acc < 0 || acc > 20000) acc = 256;
    oeval(y, v, F, 2*acc + 256);
    int r = arb_overlaps(y, b);
    if (v->length <= 1) { fmpq_t q; fmpq_init(q); if (v->length) { fmpz_set(fmpq_numref(q), v->coeffs); fmpz_set(fmpq_denref(q), v->den); fmpq_canonicalise(q); } r = arb_contains_fmpq(b, q); fmpq_clear(q); }
    arb_clear(y);
    return r;
}
static char *pstr(const fmpq_poly_t v) { static char buf[8][4000]; static int k = 0; k = (k + 1) % 8; char *s = fmpq_poly_get_str_pretty(v, "x"); snprintf(buf[k], 4000, "%s", s); flint_free(s); return buf[k]; }
static char *qstr(const fmpq_t q) { static char buf[4][2000]; static int k = 0; k = (k + 1) % 4; char *s = fmpq_get_str(NULL, 10, q); snprintf(buf[k], 2000, "%s", s); flint_free(s); return buf[k]; }
static char *zstr(const fmpz_t q) { static char buf[4][2000]; static int k = 0; k = (k + 1) % 4; char *s = fmpz_get_str(NULL, 10, q); snprintf(buf[k], 2000, "%s", s); flint_free(s); return buf[k]; }
static char *bstr(const arb_t b) { static char buf[4][2000]; static int k = 0; k = (k + 1) % 4; char *s = arb_get_str(b, 30, ARB_STR_MORE); snprintf(buf[k], 2000, "%s", s); flint_free(s); return buf[k]; }
#include <fcntl.h>
#endif
