/* Searches for concrete failing inputs of the polynomial helpers: P10 P11 P18. */
#include "common.h"
#include <flint/fmpq_vec.h>

static char *zp(const fmpz_poly_t p) { static char b[3][6000]; static int k = 0; k = (k + 1) % 3; char *s = fmpz_poly_get_str_pretty(p, "x"); snprintf(b[k], 6000, "%s", s); flint_free(s); return b[k]; }
/* squarefree polynomial with structure: products of small factors, sparse, clustered, random */
static void anysqf(fmpz_poly_t p)
{
    fmpz_t c; fmpz_init(c);
    do
    {
        fmpz_poly_zero(p);
        int how = rn(60) == 0 ? 6 : rn(6);
        if (how == 0) { slong n = 1 + rn(7); for (slong i = 0; i <= n; i++) { rz(c, rn(4) == 0); fmpz_poly_set_coeff_fmpz(p, i, c); } }
        else if (how == 1)
        {   /* product of linear factors with dyadic and other roots */
            fmpz_poly_t f; fmpz_poly_init(f); fmpz_poly_one(p);
            for (slong n = 1 + rn(6); n > 0; n--) { fmpz_poly_set_coeff_si(f, 0, rn(17) - 8); fmpz_poly_set_coeff_si(f, 1, rn(3) ? 1L << rn(4) : 1 + rn(9)); fmpz_poly_mul(p, p, f); }
            if (rn(3) == 0) { fmpz_poly_set_coeff_si(f, 0, 1 + rn(3)); fmpz_poly_set_coeff_si(f, 1, rn(3) - 1); fmpz_poly_set_coeff_si(f, 2, 1 + rn(2)); fmpz_poly_mul(p, p, f); }
            fmpz_poly_clear(f);
        }
        else if (how == 2) { slong n = 2 + rn(9); fmpz_poly_set_coeff_si(p, n, 1 + rn(9)); fmpz_poly_set_coeff_si(p, 0, rn(19) - 9); for (int k = rn(3); k >= 0; k--) fmpz_poly_set_coeff_si(p, rn(n), rn(2001) - 1000); }
        else if (how == 3) { slong d = 3 + rn(4), a = 2 + rn(1L << (1 + rn(20))); fmpz_poly_set_coeff_si(p, d, 1); fmpz_set_si(c, a); fmpz_mul(c, c, c); fmpz_mul_si(c, c, -2); fmpz_poly_set_coeff_fmpz(p, 2, c); fmpz_poly_set_coeff_si(p, 1, 4*a); fmpz_poly_set_coeff_si(p, 0, -2); }
        else if (how == 4) { slong n = 1 + rn(6); for (slong i = 0; i <= n; i++) fmpz_poly_set_coeff_si(p, i, rn(5) - 2); }
        else if (how == 6)
        {   /* high degree: many real roots of both signs, or many sign changes */
            int kind = rn(3); slong n = 20 + rn(90), i, o = rn(3);
            if (kind == 0) { fmpz_poly_t f; fmpz_poly_init(f); fmpz_poly_one(p); n = 10 + rn(30); for (i = 1; i <= n; i++) { fmpz_poly_zero(f); fmpz_poly_set_coeff_si(f, 2, 1); fmpz_poly_set_coeff_si(f, 0, -i*i); if (o) fmpz_poly_set_coeff_si(f, 1, rn(2)); fmpz_poly_mul(p, p, f); } fmpz_poly_clear(f); }
            else if (kind == 1) { for (i = 0; i <= n; i++) fmpz_poly_set_coeff_si(p, i, ((i & 1) ^ (o && (i & 2))) ? -1 - rn(9) : 1 + rn(9)); }
            else { fmpz_poly_one(p); fmpz_poly_t f; fmpz_poly_init(f); n = 10 + rn(40); for (i = 1; i <= n; i++) { fmpz_poly_set_coeff_si(f, 0, o ? i : -i); fmpz_poly_set_coeff_si(f, 1, 1 + (i % 3)); fmpz_poly_mul(p, p, f); } fmpz_poly_clear(f); }
        }
        else { slong n = 1 + rn(5); for (slong i = 0; i <= n; i++) { rz(c, 0); fmpz_mul_2exp(c, c, rn(40)); fmpz_poly_set_coeff_fmpz(p, i, c); } }
        if (rn(6) == 0 && !fmpz_poly_is_zero(p) && !fmpz_is_zero(p->coeffs)) fmpz_poly_shift_left(p, p, 1);
    }
    while (fmpz_poly_is_zero(p) || !fmpz_poly_is_squarefree(p));
    if (rn(4) == 0) fmpz_poly_neg(p, p);
    fmpz_clear(c);
}
static void countpos(slong *np, slong *nn, const fmpz_poly_t p)
{   /* positive and negative roots of squarefree p */
    slong z = 0; while (fmpz_is_zero(p->coeffs + z)) z++;
    *np = *nn = 0;
    if (p->length - z > 1) _fmpz_poly_num_real_roots_sturm(nn, np, p->coeffs + z, p->length - z);
}
/* roots in the open interval (l, r) */
static slong openroots(const fmpz_poly_t p, const fmpq_t l, const fmpq_t r)
{
    fmpq_poly_t f, g; fmpq_poly_init(f); fmpq_poly_init(g); fmpq_t v; fmpq_init(v);
    slong np = 0, nn = 0;
    fmpq_poly_set_fmpz_poly(f, p);
    fmpq_sub(v, r, l); fmpq_poly_set_coeff_fmpq(g, 1, v); fmpq_poly_set_coeff_fmpq(g, 0, l);
    fmpq_poly_compose(f, f, g);
    fmpq_poly_reverse(f, f, fmpz_poly_length(p));
    fmpq_poly_zero(g); fmpq_poly_set_coeff_ui(g, 1, 1); fmpq_poly_set_coeff_ui(g, 0, 1);
    fmpq_poly_compose(f, f, g);
    fmpz_poly_t h; fmpz_poly_init(h); fmpq_poly_get_numerator(h, f);
    if (!fmpz_poly_is_zero(h)) countpos(&np, &nn, h);
    fmpz_poly_clear(h); fmpq_clear(v); fmpq_poly_clear(f); fmpq_poly_clear(g);
    return np;
}
static void isolate(void)
{
    fmpz_poly_t p; fmpz_poly_init(p); anysqf(p);
    slong n = fmpz_poly_degree(p), ne = 77, ni = 78, i, tot = fmpz_poly_degree(p) ? fmpz_poly_num_real_roots(p) : 0;
    newcase("fmpz_poly_isolate_real_roots of %s", zp(p));
    NTRIV += tot > 1;
    fmpq *e = _fmpq_vec_init(n + 2); fmpz *c = _fmpz_vec_init(n + 2); slong *k = flint_malloc(sizeof(slong)*(n + 2));
    fmpz_poly_isolate_real_roots(e, &ne, c, k, &ni, p);
    if (IS("P10"))
    {
        if (ne + ni != tot) failure("%ld exact roots and %ld intervals, there are %ld real roots", ne, ni, tot);
        fmpq_poly_t f; fmpq_poly_init(f); fmpq_poly_set_fmpz_poly(f, p);
        fmpq_t v, l, r, o; fmpq_init(v); fmpq_init(l); fmpq_init(r); fmpq_init(o);
        for (i = 0; i < ne; i++)
        {
            fmpq_poly_evaluate_fmpq(v, f, e + i);
            if (!fmpq_is_zero(v)) failure("%s is no root", qstr(e + i));
            if (i && fmpq_cmp(e + i - 1, e + i) >= 0) failure("exact roots not increasing");
        }
        for (i = 0; i < ni; i++)
        {
            fmpq_set_fmpz_frac(l, c + i, c + i); fmpz_set(fmpq_numref(l), c + i); fmpz_one(fmpq_denref(l)); fmpz_add_ui(fmpq_numref(r), c + i, 1); fmpz_one(fmpq_denref(r));
            if (k[i] >= 0) { fmpq_mul_2exp(l, l, k[i]); fmpq_mul_2exp(r, r, k[i]); } else { fmpq_div_2exp(l, l, -k[i]); fmpq_div_2exp(r, r, -k[i]); }
            if (openroots(p, l, r) != 1) failure("the interval (%s, %s) contains %ld roots", qstr(l), qstr(r), openroots(p, l, r));
            if (i && fmpq_cmp(o, l) > 0) failure("intervals overlap or are not increasing");
            fmpq_set(o, r);
        }
        fmpq_clear(v); fmpq_clear(l); fmpq_clear(r); fmpq_clear(o); fmpq_poly_clear(f);
        if (fmpz_poly_num_real_roots_vca(p) != tot) failure("num_real_roots_vca gives %ld, there are %ld", fmpz_poly_num_real_roots_vca(p), tot);
        if (n && fmpz_poly_num_real_roots_upper_bound(p) < tot) failure("num_real_roots_upper_bound gives %ld, there are %ld", fmpz_poly_num_real_roots_upper_bound(p), tot);
        if ((fmpz_poly_has_real_root(p) != 0) != (tot > 0)) failure("has_real_root gives %d, there are %ld", fmpz_poly_has_real_root(p), tot);
    }
    else { fmpz_poly_num_real_roots_vca(p); fmpz_poly_num_real_roots_upper_bound(p); fmpz_poly_has_real_root(p); }
    _fmpq_vec_clear(e, n + 2); _fmpz_vec_clear(c, n + 2); flint_free(k); fmpz_poly_clear(p);
}
/* the real roots are known by construction, high degrees */
static void manyroots(void)
{
    fmpz_poly_t p, f; fmpz_poly_init(p); fmpz_poly_init(f); fmpz_poly_one(p);
    slong a = rn(90), b = rn(90), i, den = 1 + rn(3), tot = a + b;
    if (rn(2)) { a = 60 + rn(60); b = rn(2) ? a : 60 + rn(60); tot = a + b; }
    for (i = 1; i <= FLINT_MAX(a, b); i++)
    {
        fmpz_poly_zero(f); fmpz_poly_set_coeff_si(f, 1, den);
        if (i <= a) { fmpz_poly_set_coeff_si(f, 0, -i); fmpz_poly_mul(p, p, f); }
        if (i <= b) { fmpz_poly_set_coeff_si(f, 0, i); fmpz_poly_mul(p, p, f); }
    }
    if (rn(2)) { fmpz_poly_zero(f); fmpz_poly_set_coeff_si(f, 1, 1); fmpz_poly_mul(p, p, f); tot++; }
    if (rn(2)) { fmpz_poly_zero(f); fmpz_poly_set_coeff_si(f, 2, 1); fmpz_poly_set_coeff_si(f, 0, 1 + rn(5)); fmpz_poly_mul(p, p, f); }
    newcase("fmpz_poly_num_real_roots_upper_bound of a polynomial with the roots 1/%ld, ..., %ld/%ld, -1/%ld, ..., -%ld/%ld", den, a, den, den, b, den);
    NTRIV++;
    if (p->length > 1)
    {
        slong u = fmpz_poly_num_real_roots_upper_bound(p);
        if (IS("P10") && u < tot) failure("gives %ld, there are %ld", u, tot);
        if (p->length < 50) { u = fmpz_poly_num_real_roots_vca(p); if (IS("P10") && u != tot) failure("num_real_roots_vca gives %ld, there are %ld", u, tot); }
    }
    fmpz_poly_clear(p); fmpz_poly_clear(f);
}
static void counts01(void)
{
    fmpz_poly_t p; fmpz_poly_init(p); anysqf(p);
    fmpq_t z, o; fmpq_init(z); fmpq_init(o); fmpq_one(o);
    fmpz_t s; fmpz_init(s); _fmpz_vec_sum(s, p->coeffs, p->length);
    slong want = openroots(p, z, o) + fmpz_is_zero(p->coeffs);
    newcase("number of roots in [0,1) of %s", zp(p));
    NTRIV += want > 0;
    slong a = fmpz_poly_num_real_roots_0_1_vca(p), b = fmpz_poly_num_real_roots_0_1(p), c = fmpz_poly_num_real_roots_0_1_sturm(p);
    if (IS("P10") && !fmpz_is_zero(s))   /* whether a root at 1 counts is not documented */
    {
        if (a != want) failure("num_real_roots_0_1_vca gives %ld, should be %ld", a, want);
        if (b != want) failure("num_real_roots_0_1 gives %ld, should be %ld", b, want);
        if (c != want) failure("num_real_roots_0_1_sturm gives %ld, should be %ld", c, want);
    }
    /* Descartes bound on (0,1): sign variations of (1+x)^d p(1/(1+x)) */
    fmpz_poly_t q, l; fmpz_poly_init(q); fmpz_poly_init(l); fmpz_poly_reverse(q, p, p->length); fmpz_poly_set_coeff_ui(l, 0, 1); fmpz_poly_set_coeff_ui(l, 1, 1); fmpz_poly_compose(q, q, l);
    slong V = 0; int sg = 0; for (slong i = 0; i < q->length; i++) { int t = fmpz_sgn(q->coeffs + i); if (t && sg && t != sg) V++; if (t) sg = t; }
    slong bound = rn(4), d;
    newcase("_fmpz_poly_descartes_bound_0_1 of %s with bound %ld", zp(p), bound);
    d = _fmpz_poly_descartes_bound_0_1(p->coeffs, p->length, bound);
    if (IS("P10")) { if (d == WORD_MAX ? V <= bound : (d < openroots(p, z, o) || (d - V) % 2 || d != V)) failure("gives %ld, there are %ld variations", d, V); }
    fmpz_poly_clear(q); fmpz_poly_clear(l); fmpz_clear(s); fmpq_clear(z); fmpq_clear(o); fmpz_poly_clear(p);
}
static void bounds(void)
{
    fmpz_poly_t p; fmpz_poly_init(p); anysqf(p);
    newcase("fmpz_poly_positive_root_upper_bound_2exp of %s", zp(p));
    slong k = fmpz_poly_positive_root_upper_bound_2exp(p), np, nn; countpos(&np, &nn, p);
    NTRIV += np > 0;
    if (IS("P10"))
    {
        if (k == WORD_MIN) { if (np) failure("claims no positive roots, there are %ld", np); }
        else if (np && k < 100000 && k > -100000)
        {
            fmpq_poly_t f, g; fmpq_poly_init(f); fmpq_poly_init(g); fmpq_t v; fmpq_init(v); fmpq_one(v);
            if (k >= 0) fmpq_mul_2exp(v, v, k); else fmpq_div_2exp(v, v, -k);
            fmpq_poly_set_fmpz_poly(f, p); fmpq_poly_set_coeff_fmpq(g, 0, v); fmpq_poly_set_coeff_ui(g, 1, 1);
            fmpq_poly_compose(f, f, g); fmpz_poly_t h; fmpz_poly_init(h); fmpq_poly_get_numerator(h, f);
            countpos(&np, &nn, h);
            if (np || fmpz_is_zero(h->coeffs)) failure("2^%ld is not a strict upper bound of the positive roots", k);
            fmpz_poly_clear(h); fmpq_poly_clear(f); fmpq_poly_clear(g); fmpq_clear(v);
        }
    }
    fmpz_poly_clear(p);
}
static void helpers(void)
{
    fmpz_poly_t p, q; fmpz_poly_init(p); fmpz_poly_init(q);
    int op = rn(6);
    if (op == 0)
    {   /* scaling */
        anysqf(p); slong n = p->length;
        fmpq_t a, b; fmpq_init(a); fmpq_init(b); rq(a, rn(4)); do rq(b, rn(4)); while (fmpq_equal(a, b));
        if (fmpq_cmp(a, b) > 0) fmpq_swap(a, b);
        newcase("_fmpz_poly_scale_0_1_fmpq of %s on [%s, %s]", zp(p), qstr(a), qstr(b));
        fmpq_poly_t f, g, h; fmpq_poly_init(f); fmpq_poly_init(g); fmpq_poly_init(h);
        fmpq_poly_set_fmpz_poly(f, p); fmpq_t d; fmpq_init(d); fmpq_sub(d, b, a); fmpq_poly_set_coeff_fmpq(g, 1, d); fmpq_poly_set_coeff_fmpq(g, 0, a); fmpq_poly_compose(f, f, g);
        fmpq_t a0, b0; fmpq_init(a0); fmpq_init(b0); fmpq_set(a0, a); fmpq_set(b0, b);
        _fmpz_poly_scale_0_1_fmpq(p->coeffs, n, a, b);
        fmpq_poly_set_fmpz_poly(h, p); fmpq_poly_make_monic(f, f); fmpq_poly_make_monic(h, h);
        fmpz_t c; fmpz_init(c); _fmpz_vec_content(c, p->coeffs, n);
        NTRIV += n > 2;
        if (IS("P11")) { if (!fmpq_poly_equal(f, h)) failure("the result %s does not have the transformed roots", zp(p)); if (n > 1 && !fmpz_is_one(c)) failure("not primitive"); if (!fmpq_equal(a, a0) || !fmpq_equal(b, b0)) failure("the interval was changed"); }
        fmpz_clear(c); fmpq_clear(a); fmpq_clear(b); fmpq_clear(a0); fmpq_clear(b0); fmpq_clear(d); fmpq_poly_clear(f); fmpq_poly_clear(g); fmpq_poly_clear(h);
    }
    else if (op == 1)
    {   /* squarefree part */
        fmpz_poly_t f; fmpz_poly_init(f); anysqf(p); 
        if (rn(5) == 0) fmpz_poly_set_si(p, rn(5) - 2);
        fmpz_poly_set(f, p);
        if (rn(2)) { fmpz_poly_mul(p, p, f); } if (rn(2)) { anysqf(f); fmpz_poly_mul(p, p, f); } if (rn(3) == 0) fmpz_poly_scalar_mul_si(p, p, -6);
        int al = rn(2); fmpz_poly_t src; fmpz_poly_init(src); fmpz_poly_set(src, p);
        newcase("fmpz_poly_squarefree_part of %s%s", zp(p), al ? " in place" : "");
        fmpz_poly_set_str(q, "3  5 6 7");
        if (al) fmpz_poly_set(q, p);
        fmpz_poly_squarefree_part(q, al ? q : p);
        NTRIV += p->length > 3;
        if (IS("P11"))
        {
            if (fmpz_poly_is_zero(src)) { if (!fmpz_poly_is_zero(q)) failure("of zero"); }
            else
            {
                if (fmpz_poly_is_zero(q) || (q->length > 1 && !fmpz_poly_is_squarefree(q))) failure("%s is not squarefree", zp(q));
                /* same radical: q | p and p | q^deg over Q */
                fmpz_poly_primitive_part(f, src); fmpz_poly_t g, r; fmpz_poly_init(g); fmpz_poly_init(r); fmpz_poly_primitive_part(g, q);
                if (g->length > 0 && !fmpz_poly_divides(r, f, g)) failure("%s does not divide", zp(q));
                fmpz_poly_pow(r, g, FLINT_MAX(1, src->length)); if (!fmpz_poly_divides(g, r, f)) failure("%s misses a root", zp(q));
                fmpz_poly_clear(g); fmpz_poly_clear(r);
            }
            if (!al && !fmpz_poly_equal(src, p)) failure("the argument was changed");
        }
        fmpz_poly_clear(f); fmpz_poly_clear(src);
    }
    else if (op == 2)
    {   /* abs */
        anysqf(p); if (rn(6) == 0) fmpz_poly_zero(p); fmpz_poly_set_str(q, "9  1 2 3 4 5 6 7 8 9"); int al = rn(2);
        newcase("fmpz_poly_abs of %s%s", zp(p), al ? " in place" : "");
        if (al) fmpz_poly_set(q, p);
        fmpz_poly_abs(q, al ? q : p);
        NTRIV += p->length > 2;
        if (IS("P11")) { if (q->length != p->length) failure("length"); for (slong i = 0; i < p->length; i++) if (fmpz_sgn(q->coeffs + i) < 0 || fmpz_cmpabs(q->coeffs + i, p->coeffs + i)) failure("coefficient %ld", i); }
    }
    else if (op == 3)
    {
        anysqf(p); fmpz_t s, o; fmpz_init(s); fmpz_init(o); fmpz_set_si(o, 3);
        slong len = rn(p->length + 1);
        newcase("fmpz_poly_evaluate_at_one of the first %ld coefficients of %s", len, zp(p));
        for (slong i = 0; i < len; i++) fmpz_add(s, s, p->coeffs + i);
        fmpz_poly_evaluate_at_one(o, p->coeffs, len);
        NTRIV += len > 2;
        if (IS("P11") && !fmpz_equal(s, o)) failure("%s, should be %s", zstr(o), zstr(s));
        fmpz_clear(s); fmpz_clear(o);
    }
    else if (op == 4)
    {   /* exact evaluation at a float */
        anysqf(p); if (rn(8) == 0) fmpz_poly_zero(p);
        fmpq_t x, v, w; fmpq_init(x); fmpq_init(v); fmpq_init(w); rq(x, 5); arf_t a, r; arf_init(a); arf_init(r); arf_set_fmpq(a, x, ARF_PREC_EXACT, ARF_RND_DOWN); arf_set_si(r, 9);
        int al = rn(2), k = rn(2); fmpq_poly_t f; fmpq_poly_init(f); fmpq_poly_set_fmpz_poly(f, p); if (k) fmpq_poly_scalar_div_ui(f, f, 1UL << rn(5));
        newcase("%s_evaluate_arf of %s at %s%s", k ? "fmpq_poly" : "fmpz_poly", pstr(f), qstr(x), al ? " in place" : "");
        fmpq_poly_evaluate_fmpq(v, f, x);
        if (al) arf_set(r, a);
        if (k) fmpq_poly_evaluate_arf(r, f, al ? r : a, 400000); else fmpz_poly_evaluate_arf(r, p, al ? r : a, 400000);
        NTRIV += p->length > 2;
        if (IS("P11")) { arf_get_fmpq(w, r); if (!fmpq_equal(v, w)) failure("%s, should be %s", qstr(w), qstr(v)); }
        arf_clear(a); arf_clear(r); fmpq_clear(x); fmpq_clear(v); fmpq_clear(w); fmpq_poly_clear(f);
    }
    else
    {   /* 2^cond bounds sum |p_i||x|^i at every point of the ball (the points tested are the rational centre and its ends) */
        anysqf(p);
        if (rn(3) == 0) { fmpz_t z; fmpz_init(z); for (slong i = rn(4); i >= 0; i--) { fmpz_set_si(z, rn(2) ? 1 : -1); fmpz_mul_2exp(z, z, rn(120)); if (rn(2)) fmpz_sub_si(z, z, fmpz_sgn(z)*(slong)rn(1000)); fmpz_poly_set_coeff_fmpz(p, rn(6), z); } fmpz_clear(z); }
        int tight = rn(3) == 0;   /* few bits everywhere: roundings in the wrong direction show */
        if (tight) { slong j = 4 + rn(20); fmpz_poly_zero(p); fmpz_poly_set_coeff_si(p, 1 + rn(2), ((WORD(1) << j) + (slong) rn(1 << (j-1)))*(rn(2) ? 1 : -1)); if (rn(2)) fmpz_poly_set_coeff_si(p, 0, ((WORD(1) << j) + (slong) rn(1 << (j-1)))*(rn(2) ? 1 : -1)); }
        if (p->length >= 1)
        {
            fmpq_t x, sum, t; fmpq_init(x); fmpq_init(sum); fmpq_init(t); rq(x, 1 + 4*rn(2)); arb_t b; arb_init(b);
            if (rn(2)) { fmpq_set_si(x, (slong)rn(31) - 15, 1); fmpq_div_2exp(x, x, rn(6)); }
            if (tight) { fmpq_set_si(x, (3 + 2*(slong)rn(3))*(rn(2) ? 1 : -1), 1); fmpq_div_2exp(x, x, rn(6)); }
            slong prec = tight ? 2 + (slong)rn(2) : rn(2) ? 2 + (slong)rn(8) : 64*(1 + (slong)rn(4));
            arb_set_fmpq(b, x, 30 + rn(100));
            slong cond = -77;
            newcase("fmpz_poly_relative_condition_number_2exp of %s at %s with precision %ld", zp(p), qstr(x), (long) prec);
            int err = rn(2) ? fmpz_poly_relative_condition_number_2exp(&cond, p, b, prec) : _fmpz_poly_relative_condition_number_2exp(&cond, p->coeffs, p->length, b, prec);
            NTRIV++;
            fmpq_abs(x, x);
            for (slong i = p->length - 1; i >= 0; i--) { fmpq_mul(sum, sum, x); fmpz_abs(fmpq_numref(t), p->coeffs + i); fmpz_one(fmpq_denref(t)); fmpq_add(sum, sum, t); }
            if (IS("P11"))
            {
                if (err) failure("no condition number");
                fmpq_one(t); if (cond >= 0) fmpq_mul_2exp(t, t, cond); else fmpq_div_2exp(t, t, -cond);
                if (!fmpq_is_zero(sum) && fmpq_cmp(t, sum) <= 0) failure("2^%ld is not a bound of the condition sum %s", (long) cond, qstr(sum));
            }
            arb_clear(b); fmpq_clear(x); fmpq_clear(sum); fmpq_clear(t);
        }
    }
    fmpz_poly_clear(p); fmpz_poly_clear(q);
}
int main(int argc, char **argv)
{
    setup(argc, argv);
    int all = IS("P18");
    while (!over())
    {
        if (all || IS("P10")) { isolate(); counts01(); bounds(); if (rn(30) == 0) manyroots(); }
        if (all || IS("P11")) { helpers(); }
    }
    if (FINIT) flint_randclear(FST);
    flint_cleanup();
    return done();
}
