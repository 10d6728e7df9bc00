/* Searches for concrete failing inputs of the field layer (renf_*): P08 P09 P18. */
#include "common.h"

/* number of roots of squarefree p in the closed interval [l, r] */
static slong rootsin(const fmpz_poly_t p, const fmpq_t l, const fmpq_t r)
{
    fmpq_poly_t f, g; fmpq_poly_init(f); fmpq_poly_init(g);
    fmpq_t v, w; fmpq_init(v); fmpq_init(w);
    slong n = 0, nn = 0, np = 0;
    fmpq_poly_set_fmpz_poly(f, p);
    fmpq_poly_evaluate_fmpq(v, f, l); if (fmpq_is_zero(v)) n++;
    if (!fmpq_equal(l, r))
    {
        fmpq_poly_evaluate_fmpq(v, f, r); if (fmpq_is_zero(v)) n++;
        fmpq_sub(v, r, l);
        fmpq_poly_set_coeff_fmpq(g, 1, v); fmpq_poly_set_coeff_fmpq(g, 0, l);
        fmpq_poly_compose(f, f, g);            /* roots in (0,1) */
        fmpq_poly_reverse(f, f, fmpz_poly_length(p)); /* roots in (1,oo) */
        fmpq_poly_zero(g); fmpq_poly_set_coeff_ui(g, 1, 1); fmpq_poly_set_coeff_ui(g, 0, 1);
        fmpq_poly_compose(f, f, g);            /* roots in (0,oo) */
        slong z = 0; while (z < f->length && fmpz_is_zero(f->coeffs + z)) z++;
        if (f->length - z > 1) { _fmpz_poly_num_real_roots_sturm(&nn, &np, f->coeffs + z, f->length - z); n += np; }
    }
    fmpq_clear(v); fmpq_clear(w); fmpq_poly_clear(f); fmpq_poly_clear(g);
    return n;
}
static int haveroot(Fld *F) { arb_t o; arb_init(o); oroot(o, F, 2*FLINT_MAX(0, FLINT_MIN(20000, arb_rel_accuracy_bits(F->nf->emb))) + 300); int r = arb_overlaps(o, F->nf->emb); arb_clear(o); return r; }
static void anypoly(fmpz_poly_t p)
{
    int n = 0; while (POLYS[n]) n++;
    if (rn(3)) fmpz_poly_set_str(p, POLYS[rn(n)]); else randpoly(p);
    if (rn(4) == 0)
    {   /* clustered roots: (ax-1)^2-type with a huge a, Mignotte x^n - 2(ax-1)^2 */
        slong d = 3 + rn(4), a = 2 + rn(1L << (1 + rn(30)));
        fmpz_poly_zero(p); fmpz_poly_set_coeff_si(p, d, 1);
        fmpz_t c; fmpz_init(c); fmpz_set_si(c, a); fmpz_mul(c, c, c); fmpz_mul_si(c, c, -2); fmpz_poly_set_coeff_fmpz(p, 2, c);
        fmpz_set_si(c, a); fmpz_mul_si(c, c, 4); fmpz_poly_set_coeff_fmpz(p, 1, c);
        fmpz_poly_set_coeff_si(p, 0, -2); fmpz_clear(c);     /* Eisenstein at 2 */
    }
}
static void unique(void)
{
    fmpz_poly_t p; fmpz_poly_init(p); anypoly(p);
    slong d = fmpz_poly_degree(p), prec = 2 + rn(rn(2) ? 20 : 200);
    qqbar_ptr rts = _qqbar_vec_init(d);
    qqbar_roots_fmpz_poly(rts, p, QQBAR_ROOTS_IRREDUCIBLE);
    slong i, j, nr = 0;
    for (i = 0; i < d; i++) if (qqbar_is_real(rts + i)) nr++;
    if (nr)
    {
        do { i = rn(d); } while (!qqbar_is_real(rts + i));
        do { j = rn(d); } while (!qqbar_is_real(rts + j));
        arb_t a, b, c; arb_init(a); arb_init(b); arb_init(c);
        slong q = 2 + rn(300);
        qqbar_get_arb(a, rts + i, q); qqbar_get_arb(b, rts + j, q);
        arf_set(arb_midref(c), arb_midref(a)); mag_set(arb_radref(c), arb_radref(a));
        int how = rn(7);
        if (how == 0) arb_add_error_2exp_si(c, -rn(q));
        if (how == 1) { arb_union(c, a, b, q + 10); }
        if (how == 2) { arb_union(c, a, b, q + 10); mag_mul_2exp_si(arb_radref(c), arb_radref(c), -1); }
        if (how == 3) { arb_add_error_2exp_si(c, -q + rn(4)); arb_t s; arb_init(s); arb_one(s); arb_mul_2exp_si(s, s, -q + rn(6)); arb_add(c, c, s, ARF_PREC_EXACT); arb_clear(s); }
        if (how == 4) { fmpz_t m; fmpz_init(m); rz(m, 0); arb_set_fmpz(c, m); arb_mul_2exp_si(c, c, -rn(5)); mag_set_ui_2exp_si(arb_radref(c), 1 + rn(3), rn(7) - 4); fmpz_clear(m); }
        if (how == 5) { mag_mul_2exp_si(arb_radref(c), arb_radref(c), -1 - rn(3)); }
        if (how == 6) { arf_set_round(arb_midref(c), arb_midref(c), 2 + rn(10), ARF_RND_NEAR); mag_set_ui_2exp_si(arb_radref(c), 1, -rn(30)); }
        fmpq_t l, r; fmpq_init(l); fmpq_init(r);
        arf_t lo, hi; arf_init(lo); arf_init(hi); arb_get_interval_arf(lo, hi, c, ARF_PREC_EXACT);
        if (!arf_is_finite(lo) || !arf_is_finite(hi)) goto skip;
        arf_get_fmpq(l, lo); arf_get_fmpq(r, hi);
        slong n = rootsin(p, l, r);
        fmpq_poly_t f; fmpq_poly_init(f); fmpq_poly_set_fmpz_poly(f, p);
        if (rn(2)) fmpq_poly_scalar_div_ui(f, f, 1 + rn(6));
        char *s = fmpz_poly_get_str_pretty(p, "x");
        newcase("fmpq_poly_check_unique_real_root of %s on %s, precision %ld; the ball contains %ld roots", s, bstr(c), prec, n);
        flint_free(s);
        NTRIV++;
        int ans = fmpq_poly_check_unique_real_root(f, c, prec);
        if (IS("P08"))
        {
            if (n != 1 && ans) failure("accepted");
            if (n == 1 && !ans) failure("refused a ball with exactly one root");
            if (n == 1 && d > 1)
            {
                Fld F; F.deg = d; memset(F.have, 0, sizeof(F.have)); qqbar_init(F.root);
                fmpq_t rt; 
                /* the root in c */
                for (slong k = 0; k < d; k++) if (qqbar_is_real(rts + k)) { qqbar_get_arb(a, rts + k, 2000); arb_sub(b, a, c, 2100); if (arb_overlaps(a, c) && arb_contains(c, a)) { qqbar_set(F.root, rts + k); ans = 2; } }
                (void) rt;
                if (ans == 2)
                {
                    newcase("renf_init of %s with ball %s, precision %ld", CASE, bstr(c), prec);
                    renf_init(F.nf, f, c, prec);
                    if (!haveroot(&F)) failure("the embedding %s excludes the root of the ball", bstr(F.nf->emb));
                    if (arb_rel_accuracy_bits(F.nf->emb) < prec) failure("only %ld bits after creation", arb_rel_accuracy_bits(F.nf->emb));
                    for (int t = 0; t < 3; t++)
                    {
                        slong pp = 2 + rn(t == 2 ? 1500 : 300);
                        newcase("renf_refine_embedding to %ld of the field of %s", pp, CASE);
                        if (strlen(CASE) > 20000) break;
                        renf_refine_embedding(F.nf, pp);
                        if (!haveroot(&F)) failure("the embedding %s excludes the root", bstr(F.nf->emb));
                        if (arb_rel_accuracy_bits(F.nf->emb) < pp) failure("only %ld bits", arb_rel_accuracy_bits(F.nf->emb));
                    }
                    if (F.nf->prec != prec) failure("default precision %ld", F.nf->prec);
                    if (F.nf->immutable) failure("field left immutable");
                    renf_clear(F.nf);
                }
                qqbar_clear(F.root); for (int k = 0; k < 6; k++) if (F.have[k]) arb_clear(F.enc[k]);
            }
        }
        fmpq_poly_clear(f);
skip:
        fmpq_clear(l); fmpq_clear(r); arf_clear(lo); arf_clear(hi);
        arb_clear(a); arb_clear(b); arb_clear(c);
    }
    _qqbar_vec_clear(rts, d); fmpz_poly_clear(p);
}
static void embeddings(void)
{
    fmpz_poly_t p; fmpz_poly_init(p); anypoly(p);
    slong d = fmpz_poly_degree(p), prec = 2 + rn(100), n, i, k = 0, lim = rn(3) ? d : rn(d + 1);
    if (d < 2) { fmpz_poly_clear(p); return; }
    char *s = fmpz_poly_get_str_pretty(p, "x");
    newcase("renf_set_embeddings_fmpz_poly of %s, limit %ld, precision %ld", s, lim, prec);
    flint_free(s);
    renf *v = flint_malloc(sizeof(renf)*(d + 1));
    n = renf_set_embeddings_fmpz_poly(v, p, lim, prec);
    NTRIV++;
    qqbar_ptr rts = _qqbar_vec_init(d);
    qqbar_roots_fmpz_poly(rts, p, QQBAR_ROOTS_IRREDUCIBLE);
    slong nr = 0; for (i = 0; i < d; i++) if (qqbar_is_real(rts + i)) nr++;
    if (IS("P08"))
    {
        if (n != nr) failure("%ld embeddings, the polynomial has %ld real roots", n, nr);
        /* the real roots of rts are in decreasing order */
        for (i = d - 1, k = 0; i >= 0; i--) if (qqbar_is_real(rts + i))
        {
            if (k >= lim) break;
            arb_t o; arb_init(o); qqbar_get_arb(o, rts + i, 2000);
            if (!arb_overlaps(o, v[k].emb)) failure("embedding %ld is %s and excludes the root %s", k, bstr(v[k].emb), bstr(o));
            if (v[k].prec != prec) failure("precision %ld", v[k].prec);
            if (arb_rel_accuracy_bits(v[k].emb) < prec) failure("embedding %ld has only %ld bits", k, arb_rel_accuracy_bits(v[k].emb));
            arb_clear(o); k++;
        }
    }
    for (i = 0; i < FLINT_MIN(n, lim); i++) renf_clear(v + i);
    flint_free(v); _qqbar_vec_clear(rts, d); fmpz_poly_clear(p);
}
static void radical(void)
{
    static const char *Q[] = {"2", "3", "5/2", "7", "1/3", "1000000007", "1/1000000007", "12", "170141183460469231731687303715884105727"};
    fmpq_t q; fmpq_init(q); const char *qs = Q[rn(9)]; fmpq_set_str(q, qs, 10);
    ulong n = 2 + rn(6); slong prec = 2 + rn(rn(2) ? 10 : 200);
    newcase("renf_init_nth_root_fmpq(%s, %lu, %ld)", qs, n, prec);
    renf_t nf; renf_init_nth_root_fmpq(nf, q, n, prec);
    NTRIV++;
    arb_t o; arb_init(o); arb_set_fmpq(o, q, 3000); arb_root_ui(o, o, n, 3000);
    if (IS("P08"))
    {
        if (!arb_overlaps(o, nf->emb)) failure("embedding %s excludes the positive root", bstr(nf->emb));
        if (arb_rel_accuracy_bits(nf->emb) < prec || nf->prec != prec) failure("accuracy %ld precision %ld", arb_rel_accuracy_bits(nf->emb), nf->prec);
        fmpq_poly_t f; fmpq_poly_init(f); fmpq_poly_set_coeff_ui(f, n, 1); fmpq_t m; fmpq_init(m); fmpq_neg(m, q); fmpq_poly_set_coeff_fmpq(f, 0, m); fmpq_clear(m);
        if (!fmpq_poly_equal(f, nf->nf->pol)) failure("wrong defining polynomial");
        fmpq_poly_clear(f);
        renf_t cp; renf_init_set(cp, nf);
        if (!renf_equal(cp, nf) || !arb_overlaps(o, cp->emb) || cp->prec != prec) failure("copy differs");
        renf_refine_embedding(cp, prec + rn(500));
        if (!arb_overlaps(o, cp->emb)) failure("refined copy %s excludes the root", bstr(cp->emb));
        renf_clear(cp);
    }
    arb_clear(o); renf_clear(nf); fmpq_clear(q);
}
/* one step of interval Newton or bisection on an isolating ball */
static void steps(void)
{
    Fld F; if (!anyfield(&F, 1000)) return;
    if (F.deg > 1)
    {
        slong len = F.deg + 1, prec = 8 + rn(200);
        fmpz_poly_t d; fmpz_poly_init(d); fmpz_poly_fit_length(d, len); _fmpz_poly_derivative(d->coeffs, F.pol->coeffs, len); _fmpz_poly_set_length(d, len - 1);
        arb_t a, r; arb_init(a); arb_init(r);
        oroot(a, &F, 64); arf_t z; arf_init(z);
        arb_set_round(a, a, 3 + rn(60)); if (rn(2)) mag_mul_2exp_si(arb_radref(a), arb_radref(a), rn(3));
        /* off centre but still containing the root */
        arf_set_mag(z, arb_radref(a)); arf_mul_2exp_si(z, z, -1 - rn(4)); if (rn(2)) arf_neg(z, z); arf_add(arb_midref(a), arb_midref(a), z, ARF_PREC_EXACT, ARF_RND_DOWN);
        mag_mul_2exp_si(arb_radref(a), arb_radref(a), 1);
        fmpq_t l, h; fmpq_init(l); fmpq_init(h); arf_t lo, hi; arf_init(lo); arf_init(hi); arb_get_interval_arf(lo, hi, a, ARF_PREC_EXACT); arf_get_fmpq(l, lo); arf_get_fmpq(h, hi);
        fmpz_poly_t p; fmpz_poly_init(p); fmpq_poly_get_numerator(p, F.pol);
        if (rootsin(p, l, h) == 1)
        {
            int op = rn(2);
            newcase("%s; %s step on %s with precision %ld", F.desc, op ? "bisection" : "Newton", bstr(a), prec);
            NTRIV++;
            int ok = op ? _fmpz_poly_bisection_step_arb(r, p->coeffs, len, a, prec) : _fmpz_poly_newton_step_arb(r, p->coeffs, d->coeffs, len, a, prec);
            if (IS("P08") && ok)
            {
                arb_t o; arb_init(o); oroot(o, &F, 2000);
                if (!arb_overlaps(o, r)) failure("the new ball %s lost the root", bstr(r));
                if (!arb_contains(a, r)) failure("the new ball %s leaves the old one", bstr(r));
                arb_clear(o);
            }
        }
        if (rootsin(p, l, h) == 1 && rn(3) == 0)
        {
            fmpq_t v, w; fmpq_init(v); fmpq_init(w); fmpz_poly_evaluate_fmpq(v, p, l); fmpz_poly_evaluate_fmpq(w, p, h);
            int sl = fmpq_sgn(v), sr = fmpq_sgn(w);
            if (sl * sr == -1)
            {
                newcase("%s; interval bisection step on %s with precision %ld", F.desc, bstr(a), prec);
                NTRIV++;
                arf_t L0, H0; arf_init(L0); arf_init(H0); arf_set(L0, lo); arf_set(H0, hi);
                _fmpz_poly_bisection_step_arf(lo, hi, p->coeffs, len, sl, sr, prec);
                if (IS("P08"))
                {
                    if (arf_cmp(lo, L0) < 0 || arf_cmp(hi, H0) > 0) failure("the new interval leaves the old one");
                    arf_get_fmpq(l, lo); arf_get_fmpq(h, hi);
                    fmpz_poly_evaluate_fmpq(v, p, l); fmpz_poly_evaluate_fmpq(w, p, h);
                    if (fmpq_sgn(v) != sl || fmpq_sgn(w) != sr) failure("the new interval lost the root");
                }
                arf_clear(L0); arf_clear(H0);
            }
            fmpq_clear(v); fmpq_clear(w);
        }
        fmpz_poly_clear(p); fmpz_poly_clear(d); arb_clear(a); arb_clear(r); arf_clear(z); arf_clear(lo); arf_clear(hi); fmpq_clear(l); fmpq_clear(h);
    }
    clearfield(&F);
}
static void equality(void)
{
    fmpz_poly_t p, q; fmpz_poly_init(p); fmpz_poly_init(q); anypoly(p);
    int otherpoly = rn(6) == 0; if (otherpoly) anypoly(q); else fmpz_poly_set(q, p);
    slong r1 = fmpz_poly_degree(p) == 1 ? 1 : fmpz_poly_num_real_roots(p), r2 = fmpz_poly_degree(q) == 1 ? 1 : fmpz_poly_num_real_roots(q);
    if (r1 && r2)
    {
        slong i = rn(r1), j = rn(3) ? rn(r2) : FLINT_MIN(i, r2 - 1);
        static const slong PR[] = {2, 2, 3, 4, 6, 8, 16, 64, 200};
        Fld F, G;
        slong p1 = PR[rn(9)], p2 = PR[rn(9)];
        int o1 = mkfield(&F, p, i, p1, rn(3)), o2 = mkfield(&G, q, j, p2, rn(3));
        if (o1 && o2)
        {
            if (rn(4) == 0) renf_refine_embedding(F.nf, 2 + rn(200));
            int ov = arb_overlaps(F.nf->emb, G.nf->emb);
            int want = fmpz_poly_equal(p, q) && qqbar_equal(F.root, G.root);
            NTRIV += ov && !want;
            newcase("renf_equal of %s, embedding %s and %s, embedding %s", F.desc, bstr(F.nf->emb), G.desc, bstr(G.nf->emb));
            int got = renf_equal(F.nf, G.nf) != 0, got2 = renf_equal(G.nf, F.nf) != 0;
            if (IS("P09") && (got != want || got2 != want)) failure("returned %d and %d, should be %d", got, got2, want);
            renf_t c; renf_init_set(c, F.nf);
            if (rn(2)) renf_refine_embedding(c, 2 + rn(300));
            if (IS("P09") && !renf_equal(c, F.nf)) failure("a copy is not equal to the original");
            renf_clear(c);
        }
        if (o1) clearfield(&F);
        if (o2) clearfield(&G);
    }
    fmpz_poly_clear(p); fmpz_poly_clear(q);
}
int main(int argc, char **argv)
{
    setup(argc, argv);
    int all = IS("P18");
    while (!over())
    {
        if (all || IS("P08")) { unique(); embeddings(); radical(); steps(); }
        if (all || IS("P09")) equality();
    }
    if (FINIT) flint_randclear(FST);
    flint_cleanup();
    return done();
}
