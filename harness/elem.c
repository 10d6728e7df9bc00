/* Searches for concrete failing inputs of the element layer (renf_elem_*): P01 P02 P03 P04 P05 P06 P07 P18 P19. */
#include "common.h"

static int all;                     /* P18: run every group, the sanitizers judge */
#define DO(p) (all || IS(p))

static const char *al2[] = {"distinct", "res=arg"};
static const char *al3[] = {"distinct", "res=b", "res=c", "b=c", "res=b=c"};

typedef void (*bin_t)(renf_elem_t, const renf_elem_t, const renf_elem_t, const renf_t);
static void binops(Fld *F)
{
    static const bin_t fn[] = {renf_elem_add, renf_elem_sub, renf_elem_mul, renf_elem_div};
    static const char *nm[] = {"add", "sub", "mul", "div"};
    El x, y, r;
    fmpq_poly_t vx, vy, ex; fmpq_poly_init(vx); fmpq_poly_init(vy); fmpq_poly_init(ex);
    int op = rn(4), al = rn(5), kx = rn(NKIND), ky = rn(NKIND), qx = rn(6), qy = rn(6), spec = rn(12);
    relem(vx, F, kx); relem(vy, F, ky);
    if (al >= 3) { fmpq_poly_set(vy, vx); }
    if (spec == 0 && al < 3) fmpq_poly_set(vy, vx);
    if (spec == 1 && al < 3) fmpq_poly_neg(vy, vx);
    if (op == 3 && fmpq_poly_is_zero(vy)) { fmpq_poly_set_si(vy, 3); if (al >= 3) fmpq_poly_set_si(vx, 3); }
    if (spec == 2 && op == 3 && al < 3) omul(vx, vx, vy, F);
    newcase("%s; renf_elem_%s(res, b, c) with b = %s, c = %s, aliasing %s, enclosure qualities %d %d", F->desc, nm[op], pstr(vx), pstr(vy), al3[al], qx, qy);
    if (op == 0) fmpq_poly_add(ex, vx, vy); else if (op == 1) fmpq_poly_sub(ex, vx, vy);
    else if (op == 2) omul(ex, vx, vy, F); else { oinv(ex, vy, F); omul(ex, ex, vx, F); }
    oreduce(ex, F);
    elinit(&x, F, vx, qx); elinit(&y, F, vy, al >= 3 ? qx : qy); elinit(&r, F, vy, 0);
    if (op == 3 && qy >= 2) { setball(y.e->emb, vy, F, 0); if (al >= 3) setball(x.e->emb, vx, F, 0); }
    renf_elem *pa, *pb = x.e, *pc = al >= 3 ? x.e : y.e;
    pa = al == 0 || al == 3 ? r.e : (al == 2 ? y.e : x.e);
    fn[op](pa, pb, pc, F->nf);
    if (fmpq_poly_length(vx) > 1 || fmpq_poly_length(vy) > 1) NTRIV++;
    if (IS("P01") || IS("P19"))
    {
        if (!elgood(pa, ex, F)) failure("result is not %s", pstr(ex));
        if (pb != pa && !elgood(pb, vx, F)) failure("the operand b was changed");
        if (pc != pa && !elgood(pc, vy, F)) failure("the operand c was changed");
    }
    if (IS("P02"))
    {
        fmpq_poly_t w; fmpq_poly_init(w); nf_elem_get_fmpq_poly(w, pa->elem, F->nf->nf);
        if (!encl(pa->emb, w, F)) failure("enclosure %s of the result %s excludes it", bstr(pa->emb), pstr(w));
        if (pb != pa && !encl(pb->emb, vx, F)) failure("enclosure of operand b excludes it");
        if (pc != pa && !encl(pc->emb, vy, F)) failure("enclosure of operand c excludes it");
        fmpq_poly_clear(w);
    }
    elclear(&x, F); elclear(&y, F); elclear(&r, F);
    fmpq_poly_clear(vx); fmpq_poly_clear(vy); fmpq_poly_clear(ex);
}
static void after(const renf_elem *pa, const fmpq_poly_t ex, const renf_elem *pb, const fmpq_poly_t vb, Fld *F)
{
    if (IS("P01") || IS("P07") || IS("P19"))
    {
        if (!elgood(pa, ex, F)) failure("result is not %s", pstr(ex));
        if (pb && pb != pa && !elgood(pb, vb, F)) failure("the operand was changed");
    }
    if (IS("P02"))
    {
        fmpq_poly_t w; fmpq_poly_init(w); nf_elem_get_fmpq_poly(w, pa->elem, F->nf->nf);
        if (!encl(pa->emb, w, F)) failure("enclosure %s of the result %s excludes it", bstr(pa->emb), pstr(w));
        if (pb && pb != pa && !encl(pb->emb, vb, F)) failure("enclosure of the operand excludes it");
        fmpq_poly_clear(w);
    }
}
static slong rsi(void) { static const slong S[] = {0, 1, -1, 2, -3, WORD_MAX, WORD_MIN, WORD_MIN + 1, INT_MAX, INT_MIN, 1L << 62, -(1L << 62), 4294967296L}; if (rn(3) == 0) return (slong) rnd(); if (rn(3) == 0) return rn(2000) - 1000; return S[rn(13)]; }
static ulong rui(void) { static const ulong S[] = {0, 1, 2, 3, UWORD_MAX, (ulong) WORD_MAX + 1, WORD_MAX, UINT_MAX, 1UL << 62, 4294967296UL}; if (rn(3) == 0) return rnd(); if (rn(3) == 0) return rn(1000); return S[rn(10)]; }
static void scalarops(Fld *F)
{
    static const char *nm[] = {"add", "sub", "mul", "div"};
    static const char *ty[] = {"si", "ui", "fmpz", "fmpq"};
    int op = rn(4), t = rn(5), al = rn(2), kx = rn(NKIND), qx = rn(6), left = 0;
    slong si = rsi(); ulong ui = rui();
    fmpq_t q; fmpq_init(q);
    El x, r;
    fmpq_poly_t vx, ex, c; fmpq_poly_init(vx); fmpq_poly_init(ex); fmpq_poly_init(c);
    relem(vx, F, kx);
    if (t == 4) { left = 1; op = rn(2) ? 1 : 3; t = 3; }
    if (t == 0) { fmpz_set_si(fmpq_numref(q), si); fmpz_one(fmpq_denref(q)); }
    else if (t == 1) { fmpz_set_ui(fmpq_numref(q), ui); fmpz_one(fmpq_denref(q)); }
    else if (t == 2) { rq(q, 3 + rn(2)); if (rn(3) == 0) rq(q, 0); if (rn(4) == 0) rq(q, 6); }
    else rq(q, rn(7));
    if (rn(8) == 0 && t == 3 && fmpq_poly_length(vx) == 1) fmpq_poly_get_coeff_fmpq(q, vx, 0);
    if (rn(8) == 0 && t >= 2) { fmpq_poly_set_fmpq(vx, q); }
    if (op == 3 && !left && fmpq_is_zero(q)) { fmpq_one(q); si = 1; ui = 1; }
    if (left && op == 3 && fmpq_poly_is_zero(vx)) fmpq_poly_set_si(vx, -2);
    fmpq_poly_set_fmpq(c, q);
    if (left) newcase("%s; renf_elem_fmpq_%s(res, c, b) with b = %s, c = %s, aliasing %s, enclosure quality %d", F->desc, nm[op], pstr(vx), qstr(q), al2[al], qx);
    else newcase("%s; renf_elem_%s_%s(res, b, c) with b = %s, c = %s, aliasing %s, enclosure quality %d", F->desc, nm[op], ty[t], pstr(vx), qstr(q), al2[al], qx);
    if (op == 0) fmpq_poly_add(ex, vx, c);
    else if (op == 1) { fmpq_poly_sub(ex, vx, c); if (left) fmpq_poly_neg(ex, ex); }
    else if (op == 2) fmpq_poly_mul(ex, vx, c);
    else if (!left) { fmpq_t qi; fmpq_init(qi); fmpq_inv(qi, q); fmpq_poly_scalar_mul_fmpq(ex, vx, qi); fmpq_clear(qi); }
    else { oinv(ex, vx, F); fmpq_poly_scalar_mul_fmpq(ex, ex, q); }
    oreduce(ex, F);
    elinit(&x, F, vx, left && op == 3 && qx >= 2 ? 0 : qx); elinit(&r, F, vx, 0);
    renf_elem *pb = x.e, *pa = al ? x.e : r.e;
    fmpz *z = fmpq_numref(q);
    if (left) { if (op == 1) renf_elem_fmpq_sub(pa, q, pb, F->nf); else renf_elem_fmpq_div(pa, q, pb, F->nf); }
    else switch (4*op + t)
    {
        case 0: renf_elem_add_si(pa, pb, si, F->nf); break;
        case 1: renf_elem_add_ui(pa, pb, ui, F->nf); break;
        case 2: renf_elem_add_fmpz(pa, pb, z, F->nf); break;
        case 3: renf_elem_add_fmpq(pa, pb, q, F->nf); break;
        case 4: renf_elem_sub_si(pa, pb, si, F->nf); break;
        case 5: renf_elem_sub_ui(pa, pb, ui, F->nf); break;
        case 6: renf_elem_sub_fmpz(pa, pb, z, F->nf); break;
        case 7: renf_elem_sub_fmpq(pa, pb, q, F->nf); break;
        case 8: renf_elem_mul_si(pa, pb, si, F->nf); break;
        case 9: renf_elem_mul_ui(pa, pb, ui, F->nf); break;
        case 10: renf_elem_mul_fmpz(pa, pb, z, F->nf); break;
        case 11: renf_elem_mul_fmpq(pa, pb, q, F->nf); break;
        case 12: renf_elem_div_si(pa, pb, si, F->nf); break;
        case 13: renf_elem_div_ui(pa, pb, ui, F->nf); break;
        case 14: renf_elem_div_fmpz(pa, pb, z, F->nf); break;
        case 15: renf_elem_div_fmpq(pa, pb, q, F->nf); break;
    }
    if (fmpq_poly_length(vx) > 1) NTRIV++;
    after(pa, ex, pb, vx, F);
    fmpq_poly_t cc; fmpq_poly_init(cc); fmpq_poly_set_fmpq(cc, q);
    if (!fmpq_poly_equal(c, cc)) failure("the scalar operand was changed");
    fmpq_poly_clear(cc);
    elclear(&x, F); elclear(&r, F); fmpq_clear(q);
    fmpq_poly_clear(vx); fmpq_poly_clear(ex); fmpq_poly_clear(c);
}
static void unops(Fld *F)
{
    static const char *nm[] = {"neg", "inv", "pow", "set", "swap"};
    int op = rn(5), al = rn(2), kx = rn(NKIND), qx = rn(6);
    ulong e = rn(6) == 0 ? (ulong) rn(40) : (ulong) rn(9);
    El x, r;
    fmpq_poly_t vx, ex; fmpq_poly_init(vx); fmpq_poly_init(ex);
    relem(vx, F, kx);
    if (op == 2 && rn(5) == 0 && e) { fmpq_poly_zero(vx); if (rn(2)) fmpq_poly_set_si(vx, rn(2) ? 1 : -1); e = rn(2) ? e : UWORD_MAX - rn(3); }
    if (op == 1 && fmpq_poly_is_zero(vx)) fmpq_poly_set_si(vx, -5);
    if (op == 1 && qx >= 2) qx = 0;
    newcase("%s; renf_elem_%s(res, b) with b = %s, exponent %lu, aliasing %s, enclosure quality %d", F->desc, nm[op], pstr(vx), e, al2[al], qx);
    if (op == 0) fmpq_poly_neg(ex, vx); else if (op == 1) oinv(ex, vx, F); else if (op == 2) opow(ex, vx, e, F); else fmpq_poly_set(ex, vx);
    oreduce(ex, F);
    elinit(&x, F, vx, qx); fmpq_poly_t o; fmpq_poly_init(o); fmpq_poly_set_si(o, 7); elinit(&r, F, o, 0);
    renf_elem *pb = x.e, *pa = al ? x.e : r.e;
    if (op == 0) renf_elem_neg(pa, pb, F->nf);
    else if (op == 1) renf_elem_inv(pa, pb, F->nf);
    else if (op == 2) renf_elem_pow(pa, pb, e, F->nf);
    else if (op == 3) renf_elem_set(pa, pb, F->nf);
    else renf_elem_swap(pa, pb);
    if (fmpq_poly_length(vx) > 1) NTRIV++;
    if (op == 4 && !al) after(pa, ex, pb, o, F); else after(pa, ex, pb, vx, F);
    elclear(&x, F); elclear(&r, F);
    fmpq_poly_clear(vx); fmpq_poly_clear(ex); fmpq_poly_clear(o);
}
static void setters(Fld *F)
{
    static const char *nm[] = {"zero", "one", "gen", "si", "ui", "fmpz", "fmpq", "mpz", "mpq", "fmpq_poly", "nf_elem"};
    int op = rn(11);
    slong si = rsi(), prec = rn(4) ? F->nf->prec : 2 + rn(400); ulong ui = rui();
    fmpq_t q; fmpq_init(q); rq(q, op == 5 || op == 7 ? 3 + rn(2) : rn(7));
    if (op == 5 || op == 7) fmpz_one(fmpq_denref(q));
    fmpq_poly_t ex, w; fmpq_poly_init(ex); fmpq_poly_init(w);
    El r; relem(w, F, rn(NKIND)); elinit(&r, F, w, rn(6));
    relem(w, F, rn(NKIND));
    if (op == 3) fmpz_set_si(fmpq_numref(q), si), fmpz_one(fmpq_denref(q));
    if (op == 4) fmpz_set_ui(fmpq_numref(q), ui), fmpz_one(fmpq_denref(q));
    if (op == 0) fmpq_zero(q);
    if (op == 1) fmpq_one(q);
    fmpq_poly_set_fmpq(ex, q);
    if (op == 2) { fmpq_poly_zero(ex); fmpq_poly_set_coeff_ui(ex, 1, 1); }
    if (op >= 9) fmpq_poly_set(ex, w);
    newcase("%s; renf_elem_set_%s to %s, precision %ld", F->desc, nm[op], pstr(ex), prec);
    oreduce(ex, F);
    switch (op)
    {
        case 0: renf_elem_zero(r.e, F->nf); break;
        case 1: renf_elem_one(r.e, F->nf); break;
        case 2: renf_elem_gen(r.e, F->nf); break;
        case 3: renf_elem_set_si(r.e, si, F->nf); break;
        case 4: renf_elem_set_ui(r.e, ui, F->nf); break;
        case 5: renf_elem_set_fmpz(r.e, fmpq_numref(q), F->nf); break;
        case 6: renf_elem_set_fmpq(r.e, q, F->nf); break;
        case 7: { mpz_t z; mpz_init(z); fmpz_get_mpz(z, fmpq_numref(q)); renf_elem_set_mpz(r.e, z, F->nf); mpz_clear(z); break; }
        case 8: { mpq_t z; mpq_init(z); fmpq_get_mpq(z, q); renf_elem_set_mpq(r.e, z, F->nf); mpq_clear(z); break; }
        case 9: renf_elem_set_fmpq_poly(r.e, ex, F->nf); break;
        case 10: { nf_elem_t e; nf_elem_init(e, F->nf->nf); nf_elem_set_fmpq_poly(e, ex, F->nf->nf); renf_elem_set_nf_elem(r.e, e, F->nf, prec); nf_elem_clear(e, F->nf->nf); break; }
    }
    if (fmpq_poly_length(ex) > 1 || op == 2) NTRIV++;
    after(r.e, ex, NULL, NULL, F);
    if (IS("P07") && !encl(r.e->emb, ex, F)) failure("the enclosure excludes the value");
    elclear(&r, F); fmpq_clear(q); fmpq_poly_clear(ex); fmpq_poly_clear(w);
}
static int sg(int x) { return x > 0 ? 1 : (x < 0 ? -1 : 0); }
static int equalballs(Fld *F) { arb_t o; arb_init(o); oroot(o, F, 1000); int r = arb_overlaps(o, F->nf->emb); arb_clear(o); return r; }
static void checkfield(Fld *F, slong prec)
{
    fmpq_poly_t p; fmpq_poly_init(p); fmpq_poly_set(p, F->nf->nf->pol);
    fmpq_t l, m; fmpq_init(l); fmpq_init(m);
    fmpq_poly_get_coeff_fmpq(l, p, F->deg); fmpq_poly_get_coeff_fmpq(m, F->pol, F->deg);
    if (!fmpq_is_zero(l)) { fmpq_div(m, m, l); fmpq_poly_scalar_mul_fmpq(p, p, m); }
    if (!fmpq_poly_equal(p, F->pol)) failure("the defining polynomial of the field was changed");
    if (!equalballs(F)) failure("the field lost its root");
    if (F->nf->prec != prec) failure("the default precision of the field was changed from %ld to %ld", prec, F->nf->prec);
    fmpq_poly_clear(p); fmpq_clear(l); fmpq_clear(m);
}
static void queries(Fld *F)
{
    static const char *nm[] = {"sgn", "cmp", "cmp_si", "cmp_ui", "cmp_fmpz", "cmp_fmpq", "is_zero", "is_one", "is_integer", "is_rational", "equal", "equal_si", "equal_ui", "equal_fmpz", "equal_fmpq"};
    int op = rn(15), k = rn(5), qx = rn(6), qy = rn(6), same = 0;
    slong si = rsi(), fp = F->nf->prec; ulong ui = rui();
    fmpq_t q; fmpq_init(q);
    fmpq_poly_t vx, vy, d; fmpq_poly_init(vx); fmpq_poly_init(vy); fmpq_poly_init(d);
    relem(vx, F, rn(NKIND));
    rq(q, rn(7));
    relem(vy, F, rn(NKIND));
    if (op == 1 || op == 10)
    {
        if (k == 0) fmpq_poly_set(vy, vx);
        if (k == 1) { relem(d, F, 9 + rn(3)); fmpq_poly_add(vy, vx, d); }
        if (k == 2) { rq(q, 5); fmpq_poly_set_fmpq(d, q); fmpq_poly_add(vy, vx, d); }
        if (k == 3) { same = 1; fmpq_poly_set(vy, vx); }
    }
    else if ((op >= 2 && op <= 5) || op >= 11)
    {
        int t = op >= 11 ? op - 11 : op - 2;      /* si ui fmpz fmpq */
        if (t == 0) { fmpz_set_si(fmpq_numref(q), si); fmpz_one(fmpq_denref(q)); }
        if (t == 1) { fmpz_set_ui(fmpq_numref(q), ui); fmpz_one(fmpq_denref(q)); }
        if (t == 2) { fmpz_one(fmpq_denref(q)); }
        if (k == 0) fmpq_poly_set_fmpq(vx, q);
        if (k == 1) { relem(d, F, 9 + rn(3)); fmpq_poly_set_fmpq(vx, q); fmpq_poly_add(vx, vx, d); }
        if (k == 2 && fmpq_poly_length(vx) > 1)
        {   /* scalar next to the element */
            fmpz_t z; fmpz_init(z); ofloor(z, vx, F); fmpz_add_ui(z, z, rn(2));
            if (t == 0 && fmpz_fits_si(z)) si = fmpz_get_si(z);
            if (t == 1 && fmpz_sgn(z) >= 0 && fmpz_abs_fits_ui(z)) ui = fmpz_get_ui(z);
            if (t == 0) fmpz_set_si(z, si);
            if (t == 1) fmpz_set_ui(z, ui);
            fmpz_set(fmpq_numref(q), z); fmpz_one(fmpq_denref(q)); fmpz_clear(z);
        }
        fmpq_poly_set_fmpq(vy, q);
    }
    newcase("%s; renf_elem_%s on a = %s and b = %s, enclosure qualities %d %d%s", F->desc, nm[op], pstr(vx), (op == 0 || (op >= 6 && op <= 9)) ? "-" : pstr(vy), qx, qy, same ? " (same object)" : "");
    fmpq_poly_sub(d, vx, vy);
    int want = 0, got = 0;
    El x, y; elinit(&x, F, vx, qx); elinit(&y, F, vy, qy);
    fmpz *z = fmpq_numref(q);
    switch (op)
    {
        case 0: want = osgn(vx, F); got = renf_elem_sgn(x.e, F->nf); break;
        case 1: want = osgn(d, F); got = sg(renf_elem_cmp(x.e, same ? x.e : y.e, F->nf)); break;
        case 2: want = osgn(d, F); got = sg(renf_elem_cmp_si(x.e, si, F->nf)); break;
        case 3: want = osgn(d, F); got = sg(renf_elem_cmp_ui(x.e, ui, F->nf)); break;
        case 4: want = osgn(d, F); got = sg(renf_elem_cmp_fmpz(x.e, z, F->nf)); break;
        case 5: want = osgn(d, F); got = sg(renf_elem_cmp_fmpq(x.e, q, F->nf)); break;
        case 6: want = fmpq_poly_is_zero(vx); got = renf_elem_is_zero(x.e, F->nf) != 0; break;
        case 7: want = fmpq_poly_is_one(vx); got = renf_elem_is_one(x.e, F->nf) != 0; break;
        case 8: want = fmpq_poly_length(vx) <= 1 && fmpz_is_one(vx->den); got = renf_elem_is_integer(x.e, F->nf) != 0; break;
        case 9: want = fmpq_poly_length(vx) <= 1; got = renf_elem_is_rational(x.e, F->nf) != 0; break;
        case 10: want = fmpq_poly_is_zero(d); got = renf_elem_equal(x.e, same ? x.e : y.e, F->nf) != 0; break;
        case 11: want = fmpq_poly_is_zero(d); got = renf_elem_equal_si(x.e, si, F->nf) != 0; break;
        case 12: want = fmpq_poly_is_zero(d); got = renf_elem_equal_ui(x.e, ui, F->nf) != 0; break;
        case 13: want = fmpq_poly_is_zero(d); got = renf_elem_equal_fmpz(x.e, z, F->nf) != 0; break;
        case 14: want = fmpq_poly_is_zero(d); got = renf_elem_equal_fmpq(x.e, q, F->nf) != 0; break;
    }
    if (fmpq_poly_length(vx) > 1) NTRIV++;
    if (IS("P03") && got != want) failure("returned %d, should be %d", got, want);
    if (IS("P02")) { if (!encl(x.e->emb, vx, F) || !encl(y.e->emb, vy, F)) failure("enclosure of an operand excludes it after the query"); if (!equalballs(F)) failure("the field lost its root"); }
    if (IS("P19")) { if (!elgood(x.e, vx, F) || !elgood(y.e, vy, F)) failure("a query changed its operand"); checkfield(F, fp); }
    elclear(&x, F); elclear(&y, F); fmpq_clear(q);
    fmpq_poly_clear(vx); fmpq_poly_clear(vy); fmpq_poly_clear(d);
}
static void roundings(Fld *F)
{
    static const char *nm[] = {"floor", "ceil", "fdiv"};
    int op = rn(3), qx = rn(6), qy = rn(6), k = rn(4), same = 0;
    slong fp = F->nf->prec;
    fmpq_poly_t vx, vy, q; fmpq_poly_init(vx); fmpq_poly_init(vy); fmpq_poly_init(q);
    relem(vx, F, rn(NKIND)); relem(vy, F, rn(NKIND));
    if (fmpq_poly_is_zero(vy)) fmpq_poly_set_si(vy, -3);
    if (op == 2)
    {
        if (k == 0) { fmpq_t c; fmpq_init(c); rq(c, rn(4)); fmpq_poly_scalar_mul_fmpq(vx, vy, c); fmpq_clear(c); }
        if (k == 1) { relem(q, F, 9 + rn(3)); omul(vx, q, vy, F); }
        if (k == 2 && rn(3) == 0) { fmpq_poly_set(vx, vy); same = 1; }
        oinv(q, vy, F); omul(q, q, vx, F);
    }
    else fmpq_poly_set(q, vx);
    newcase("%s; renf_elem_%s of a = %s, b = %s, enclosure qualities %d %d%s", F->desc, nm[op], pstr(vx), op == 2 ? pstr(vy) : "-", qx, qy, same ? " (same object)" : "");
    fmpz_t w, g, t; fmpz_init(w); fmpz_init(g); fmpz_init(t); fmpz_set_si(g, 12345);
    if (rn(2)) fmpz_mul_2exp(g, g, 100);
    El x, y; elinit(&x, F, vx, qx); elinit(&y, F, vy, op == 2 && (qy == 3) ? 0 : qy);
    if (op == 1) { fmpq_poly_neg(q, q); ofloor(w, q, F); fmpz_neg(w, w); } else ofloor(w, q, F);
    if (op == 0) renf_elem_floor(g, x.e, F->nf);
    else if (op == 1) renf_elem_ceil(g, x.e, F->nf);
    else renf_elem_fdiv(g, x.e, same ? x.e : y.e, F->nf);
    if (fmpq_poly_length(vx) > 1) NTRIV++;
    if (IS("P04") && !fmpz_equal(g, w)) failure("returned %s, should be %s", zstr(g), zstr(w));
    if (IS("P02")) { if (!encl(x.e->emb, vx, F) || !encl(y.e->emb, vy, F)) failure("enclosure of an operand excludes it after the query"); if (!equalballs(F)) failure("the field lost its root"); }
    if (IS("P19")) { if (!elgood(x.e, vx, F) || !elgood(y.e, vy, F)) failure("a query changed its operand"); checkfield(F, fp); }
    elclear(&x, F); elclear(&y, F); fmpz_clear(w); fmpz_clear(g); fmpz_clear(t);
    fmpq_poly_clear(vx); fmpq_poly_clear(vy); fmpq_poly_clear(q);
}
/* compares the element with a double exactly */
static int ocmpd(const fmpq_poly_t v, double d, Fld *F)
{
    if (isinf(d)) return d > 0 ? -1 : 1;
    arf_t a; arf_init(a); arf_set_d(a, d);
    fmpq_t q; fmpq_init(q); arf_get_fmpq(q, a);
    fmpq_poly_t w; fmpq_poly_init(w); fmpq_poly_set_fmpq(w, q); fmpq_poly_sub(w, v, w);
    int s = osgn(w, F);
    fmpq_clear(q); arf_clear(a); fmpq_poly_clear(w);
    return s;
}
static int ocmpmid(const fmpq_poly_t v, double d, double e, Fld *F)
{
    arf_t a, b; arf_init(a); arf_init(b); arf_set_d(a, d); arf_set_d(b, e); arf_add(a, a, b, ARF_PREC_EXACT, ARF_RND_DOWN); arf_mul_2exp_si(a, a, -1);
    fmpq_t q; fmpq_init(q); arf_get_fmpq(q, a);
    fmpq_poly_t w; fmpq_poly_init(w); fmpq_poly_set_fmpq(w, q); fmpq_poly_sub(w, v, w);
    int s = osgn(w, F);
    fmpq_clear(q); arf_clear(a); arf_clear(b); fmpq_poly_clear(w);
    return s;
}
static void numeric(Fld *F)
{
    int op = rn(2), qx = rn(6);
    slong fp = F->nf->prec;
    fmpq_poly_t vx; fmpq_poly_init(vx);
    relem(vx, F, rn(NKIND));
    if (rn(4) == 0)
    {   /* next to a double or a midpoint of doubles */
        fmpq_poly_t w; fmpq_poly_init(w); fmpq_t q; fmpq_init(q);
        double d = rn(5) ? ((double) rnd()) * pow(2, rn(200) - 100) : (rn(2) ? 4.9406564584124654e-324 * rn(8) : DBL_MAX);
        arf_t a; arf_init(a); arf_set_d(a, d);
        if (rn(2)) { arf_t b; arf_init(b); arf_set_d(b, nextafter(d, rn(2) ? INFINITY : 0)); if (arf_is_finite(b)) { arf_add(a, a, b, ARF_PREC_EXACT, ARF_RND_DOWN); arf_mul_2exp_si(a, a, -1); } arf_clear(b); }
        if (rn(2)) arf_neg(a, a);
        arf_get_fmpq(q, a); arf_clear(a);
        fmpq_poly_set_fmpq(w, q);
        if (rn(3)) { relem(vx, F, 9 + rn(3)); fmpq_poly_add(vx, vx, w); } else fmpq_poly_set(vx, w);
        fmpq_poly_clear(w); fmpq_clear(q);
    }
    else if (rn(6) == 0) { fmpq_t q; fmpq_init(q); fmpq_set_si(q, 1, 1); if (rn(2)) fmpq_mul_2exp(q, q, 900 + rn(300)); else fmpq_div_2exp(q, q, 900 + rn(300)); fmpq_poly_scalar_mul_fmpq(vx, vx, q); fmpq_clear(q); }
    El x; elinit(&x, F, vx, qx);
    if (fmpq_poly_length(vx) > 1) NTRIV++;
    if (op == 0)
    {
        slong prec = rn(3) ? 1 + rn(200) : 1 + rn(1000);
        newcase("%s; renf_elem_get_arb of %s with %ld bits, enclosure quality %d", F->desc, pstr(vx), prec, qx);
        arb_t b; arb_init(b); arb_set_si(b, 17);
        renf_elem_get_arb(b, x.e, F->nf, prec);
        if (IS("P05") || IS("P02"))
        {
            if (!encl(b, vx, F)) failure("the ball %s excludes the value", bstr(b));
            if (fmpq_poly_is_zero(vx) && !arb_is_zero(b)) failure("ball of zero is %s", bstr(b));
            if (!fmpq_poly_is_zero(vx) && arb_rel_accuracy_bits(b) < prec) failure("the ball has only %ld bits", arb_rel_accuracy_bits(b));
        }
        arb_clear(b);
    }
    else
    {
        static const arf_rnd_t R[] = {ARF_RND_DOWN, ARF_RND_UP, ARF_RND_FLOOR, ARF_RND_CEIL, ARF_RND_NEAR};
        static const char *RN[] = {"DOWN", "UP", "FLOOR", "CEIL", "NEAR"};
        int r = rn(5);
        newcase("%s; renf_elem_get_d of %s rounding %s, enclosure quality %d", F->desc, pstr(vx), RN[r], qx);
        double d = renf_elem_get_d(x.e, F->nf, R[r]);
        if (IS("P05"))
        {
            int s = osgn(vx, F), big = 0;
            if (isnan(d)) failure("NaN");
            if (s == 0) { if (d != 0) failure("zero gives %g", d); }
            else if (s > 0 ? ocmpd(vx, DBL_MAX, F) > 0 : ocmpd(vx, -DBL_MAX, F) < 0) big = 1;
            if (big)
            {
                if (!(s > 0 ? d >= DBL_MAX : d <= -DBL_MAX) || (fmpq_poly_length(vx) > 1 && !isinf(d))) failure("%g for a number beyond the largest double", d);
            }
            else if (s)
            {
                int mode = r; /* reduce to floor / ceil / near */
                if (r == 0) mode = s > 0 ? 2 : 3;
                if (r == 1) mode = s > 0 ? 3 : 2;
                int c = ocmpd(vx, d, F);
                if (isinf(d)) failure("infinity for a finite number in range");
                if (mode == 2) { if (c < 0 || ocmpd(vx, nextafter(d, INFINITY), F) >= 0) failure("%.17g is not the largest double below the value", d); }
                else if (mode == 3) { if (c > 0 || ocmpd(vx, nextafter(d, -INFINITY), F) <= 0) failure("%.17g is not the smallest double above the value", d); }
                else if (c != 0)
                {
                    double e = nextafter(d, c > 0 ? INFINITY : -INFINITY);
                    if (!isinf(e)) { int m = ocmpmid(vx, d, e, F); if (m == c) failure("%.17g is not the nearest double", d);
                        if (m == 0) { union { double d; unsigned long u; } uu; uu.d = d; if (uu.u & 1) failure("%.17g is not the even neighbour in a tie", d); } }
                }
            }
        }
    }
    if (IS("P02")) { if (!encl(x.e->emb, vx, F)) failure("enclosure of the operand excludes it after the query"); if (!equalballs(F)) failure("the field lost its root"); }
    if (IS("P19")) { if (!elgood(x.e, vx, F)) failure("a query changed its operand"); checkfield(F, fp); }
    elclear(&x, F); fmpq_poly_clear(vx);
}
static void cfrac(Fld *F)
{
    slong n = rn(12), i, cnt, want;
    int qx = rn(6);
    fmpq_poly_t vx, v; fmpq_poly_init(vx); fmpq_poly_init(v);
    relem(vx, F, rn(NKIND));
    newcase("%s; renf_elem_get_cfrac of %s, %ld quotients, enclosure quality %d", F->desc, pstr(vx), n, qx);
    El x, r; elinit(&x, F, vx, qx); elinit(&r, F, v, 0);
    fmpz *c = _fmpz_vec_init(n + 2), *o = _fmpz_vec_init(n + 2);
    for (i = 0; i < n + 2; i++) fmpz_set_si(c + i, 424242 + i);
    fmpq_poly_set(v, vx);
    want = n;
    if (fmpq_poly_is_zero(v)) want = 0;
    else for (i = 0; i < n; i++)
    {
        ofloor(o + i, v, F);
        fmpq_poly_t w; fmpq_poly_init(w); fmpq_poly_set_fmpz(w, o + i); fmpq_poly_sub(v, v, w); fmpq_poly_clear(w);
        if (fmpq_poly_is_zero(v)) { want = i + 1; break; }
        oinv(v, v, F);
    }
    int al = rn(3) == 0;
    cnt = renf_elem_get_cfrac(c, al ? x.e : r.e, x.e, n, F->nf);
    if (fmpq_poly_length(vx) > 1) NTRIV++;
    if (IS("P06"))
    {
        /* the expansion of zero is either empty or the single quotient 0 */
        if (fmpq_poly_is_zero(vx)) { if (cnt > 1 || cnt > n || (cnt == 1 && !fmpz_is_zero(c))) failure("zero: %ld quotients", cnt); }
        else
        {
            if (cnt != want) failure("%ld quotients, should be %ld", cnt, want);
            for (i = 0; i < cnt; i++) if (!fmpz_equal(c + i, o + i)) failure("quotient %ld is %s, should be %s", i, zstr(c + i), zstr(o + i));
        }
        for (i = n; i < n + 2; i++) if (!fmpz_equal_si(c + i, 424242 + i)) failure("wrote beyond the requested length");
    }
    if (IS("P02")) { if (!al && !encl(x.e->emb, vx, F)) failure("enclosure of the operand excludes it after the query"); }
    if (IS("P19") && !al && !elgood(x.e, vx, F)) failure("a query changed its operand");
    _fmpz_vec_clear(c, n + 2); _fmpz_vec_clear(o, n + 2);
    elclear(&x, F); elclear(&r, F); fmpq_poly_clear(vx); fmpq_poly_clear(v);
}
static void enclosures(Fld *F)
{
    static const slong PR[] = {2, 2, 2, 3, 4, 10, 53, 64, 200, 1000};
    int op = rn(5), qx = rn(6);
    slong prec = PR[rn(10)];
    fmpq_poly_t vx; fmpq_poly_init(vx); relem(vx, F, rn(NKIND));
    El x; elinit(&x, F, vx, qx);
    NTRIV += fmpq_poly_length(vx) > 1;
    if (op == 0)
    {
        newcase("%s; renf_elem_set_evaluation of %s with precision %ld", F->desc, pstr(vx), prec);
        renf_elem_set_evaluation(x.e, F->nf, prec);
    }
    else if (op == 1)
    {
        if (prec < 2) prec = 2;
        newcase("%s; renf_refine_embedding to %ld, then renf_elem_set_evaluation of %s", F->desc, prec, pstr(vx));
        renf_refine_embedding(F->nf, prec);
        renf_elem_set_evaluation(x.e, F->nf, prec);
        if (!equalballs(F)) failure("the field lost its root");
    }
    else if (op == 2)
    {
        char *s;
        int flag = 1 + rn(7); slong nd = 1 + rn(30);
        newcase("%s; renf_elem_get_str_pretty of %s flag %d digits %ld", F->desc, pstr(vx), flag, nd);
        s = renf_elem_get_str_pretty(x.e, "z", F->nf, nd, flag);
        flint_free(s);
        if (IS("P19") && !elgood(x.e, vx, F)) failure("printing changed the operand");
    }
    else if (op == 3)
    {
        slong cond;
        newcase("%s; renf_elem_relative_condition_number_2exp of %s", F->desc, pstr(vx));
        if (!fmpq_poly_is_zero(vx)) renf_elem_relative_condition_number_2exp(&cond, x.e, F->nf);
        if (IS("P19") && !elgood(x.e, vx, F)) failure("the query changed the operand");
    }
    else
    {
        newcase("%s; renf_elem_check_embedding of %s", F->desc, pstr(vx));
        renf_elem_check_embedding(x.e, F->nf, FLINT_MAX(prec, 2));
    }
    if (IS("P02") && !encl(x.e->emb, vx, F)) failure("enclosure %s of %s excludes it", bstr(x.e->emb), pstr(vx));
    elclear(&x, F); fmpq_poly_clear(vx);
}
/* ball evaluation of polynomials contains the value at points of the ball */
static void evals(void)
{
    fmpz_poly_t p; fmpz_poly_init(p);
    slong n = rn(8), prec = 2 + rn(200);
    for (slong i = 0; i < n; i++) { fmpz_t c; fmpz_init(c); rz(c, rn(4) == 0); if (rn(3) == 0) fmpz_zero(c); fmpz_poly_set_coeff_fmpz(p, i, c); fmpz_clear(c); }
    fmpq_t q, ee; fmpq_init(q); fmpq_init(ee); rq(q, rn(7));
    fmpz_t den; fmpz_init(den); fmpz_one(den); if (rn(2)) { rz(den, 0); if (fmpz_is_zero(den)) fmpz_one(den); }
    arb_t x, r; arb_init(x); arb_init(r); arb_set_fmpq(x, q, 2 + rn(100));
    if (rn(2)) { arb_add_error_2exp_si(x, -rn(60)); }
    if (rn(12) == 0) { arb_zero_pm_inf(x); }
    int op = rn(4);
    char *s = fmpz_poly_get_str_pretty(p, "x");
    newcase("%s_evaluate_arb of %s / %s at %s, point %s, precision %ld%s", op & 1 ? "fmpq_poly" : "fmpz_poly", s, zstr(den), bstr(x), qstr(q), prec, op & 2 ? " (result = argument)" : "");
    flint_free(s);
    NTRIV += n > 2;
    fmpq_poly_t f; fmpq_poly_init(f); fmpq_poly_set_fmpz_poly(f, p);
    if (op & 1) fmpq_poly_scalar_div_fmpz(f, f, den);
    fmpq_poly_evaluate_fmpq(ee, f, q);
    arb_set_si(r, 5);
    if (op & 2) { arb_set(r, x); }
    if (op & 1) fmpq_poly_evaluate_arb(r, f, op & 2 ? r : x, prec); else fmpz_poly_evaluate_arb(r, p, op & 2 ? r : x, prec);
    if (IS("P02") && !arb_contains_fmpq(r, ee)) failure("result %s does not contain %s", bstr(r), qstr(ee));
    fmpz_poly_clear(p); fmpq_poly_clear(f); fmpq_clear(q); fmpq_clear(ee); fmpz_clear(den); arb_clear(x); arb_clear(r);
}
/* long histories on a few live elements: the state reached by one call is the input of the next */
static void history(Fld *F)
{
    El e[3]; fmpq_poly_t v, w; fmpq_poly_init(v); fmpq_poly_init(w);
    char log[3000]; size_t L = 0; log[0] = 0;
    slong fp = F->nf->prec;
    for (int i = 0; i < 3; i++) { relem(v, F, rn(9)); elinit(e + i, F, v, rn(4) ? 0 : 1); L += snprintf(log + L, sizeof(log) - L, "e%d=%s; ", i, pstr(v)); if (L > 1500) { L = 1500; log[L] = 0; } }
    int steps = 2 + rn(10);
    for (int k = 0; k < steps; k++)
    {
        int i = rn(3), j = rn(3), l = rn(3), op = rn(12);
        slong c = rn(21) - 10; 
        if (fmpq_poly_length(e[j].v) && _fmpz_vec_max_bits(e[j].v->coeffs, e[j].v->length) < -1500) break;
        if (labs(_fmpz_vec_max_bits(e[j].v->coeffs, e[j].v->length)) > 1500) op = 6;
        if (labs(_fmpz_vec_max_bits(e[l].v->coeffs, e[l].v->length)) > 1500) op = 6;
        L += snprintf(log + L, sizeof(log) - L, "%d:%d,%d,%d,%ld; ", op, i, j, l, c); if (L > 2900) L = 2900;
        newcase("%s; history %s", F->desc, log);
        switch (op)
        {
            case 0: fmpq_poly_add(e[i].v, e[j].v, e[l].v); renf_elem_add(e[i].e, e[j].e, e[l].e, F->nf); break;
            case 1: fmpq_poly_sub(e[i].v, e[j].v, e[l].v); renf_elem_sub(e[i].e, e[j].e, e[l].e, F->nf); break;
            case 2: omul(e[i].v, e[j].v, e[l].v, F); renf_elem_mul(e[i].e, e[j].e, e[l].e, F->nf); break;
            case 3: if (fmpq_poly_is_zero(e[l].v)) break; oinv(w, e[l].v, F); omul(e[i].v, e[j].v, w, F); renf_elem_div(e[i].e, e[j].e, e[l].e, F->nf); break;
            case 4: fmpq_poly_neg(e[i].v, e[j].v); renf_elem_neg(e[i].e, e[j].e, F->nf); break;
            case 5: fmpq_poly_set_si(w, c); fmpq_poly_sub(e[i].v, e[j].v, w); renf_elem_sub_si(e[i].e, e[j].e, c, F->nf); break;
            case 6: { int s = renf_elem_sgn(e[i].e, F->nf); if (IS("P03") && s != osgn(e[i].v, F)) failure("sign %d", s); break; }
            case 7: { fmpz_t z, y; fmpz_init(z); fmpz_init(y); renf_elem_floor(z, e[i].e, F->nf); ofloor(y, e[i].v, F); if (IS("P04") && !fmpz_equal(z, y)) failure("floor %s", zstr(z)); fmpz_clear(z); fmpz_clear(y); break; }
            case 8: renf_refine_embedding(F->nf, 10 + rn(300)); break;
            case 9: renf_elem_set_evaluation(e[i].e, F->nf, 10 + rn(300)); break;
            case 10: { fmpz_t z; fmpz_init(z); fmpq_t q; fmpq_init(q); fmpz_set_si(z, c); fmpq_set_si(q, c, 1 + rn(9)); if (c == 0) { fmpz_clear(z); fmpq_clear(q); break; } fmpq_poly_scalar_div_fmpq(e[i].v, e[j].v, q); renf_elem_div_fmpq(e[i].e, e[j].e, q, F->nf); fmpz_clear(z); fmpq_clear(q); break; }
            case 11: { fmpq_poly_sub(w, e[i].v, e[j].v); int s = sg(renf_elem_cmp(e[i].e, e[j].e, F->nf)); if (IS("P03") && s != osgn(w, F)) failure("comparison %d", s); break; }
        }
        for (int m = 0; m < 3; m++)
        {
            if ((IS("P01") || IS("P19")) && !elgood(e[m].e, e[m].v, F)) failure("e%d is not %s", m, pstr(e[m].v));
            if (IS("P02") && !encl(e[m].e->emb, e[m].v, F)) failure("enclosure %s of e%d = %s excludes it", bstr(e[m].e->emb), m, pstr(e[m].v));
        }
        if (IS("P19")) checkfield(F, fp);
        if (IS("P02") && !equalballs(F)) failure("the field lost its root");
    }
    NTRIV++;
    for (int i = 0; i < 3; i++) elclear(e + i, F);
    fmpq_poly_clear(v); fmpq_poly_clear(w);
}
/* an immutable embedding is not refined: the call aborts instead (in a child) or decides without refining */
static void immut(Fld *F)
{
    fmpq_poly_t v; fmpq_poly_init(v); relem(v, F, rn(9)); El x; elinit(&x, F, v, 0);
    arb_t b; arb_init(b); arb_set(b, F->nf->emb);
    newcase("%s; immutable field, sign of %s", F->desc, pstr(v));
    int was = renf_set_immutable(F->nf, 1);
    if (was != 0) failure("a fresh field was immutable");
    if (fmpq_poly_length(v) <= 1) { int s = renf_elem_sgn(x.e, F->nf); if (s != osgn(v, F)) failure("sign"); }
    if (!arb_equal(b, F->nf->emb)) failure("an immutable embedding was changed");
    if (renf_set_immutable(F->nf, 0) != 1) failure("immutability flag not returned");
    if (renf_set_immutable(F->nf, 0) != 0) failure("immutability flag not cleared");
    elclear(&x, F); fmpq_poly_clear(v); arb_clear(b);
}
int main(int argc, char **argv)
{
    setup(argc, argv);
    all = IS("P18");
    for (int it = 0; !over(); it++)
    {
        Fld F;
        int n = it < 40 ? 30 : 60;
        if (!anyfield(&F, it)) continue;
        for (int k = 0; k < n && !over(); k++)
        {
            if (k % 12 == 11)
            {   /* start again from an unrefined field */
                slong i = rn(2); if (i) break;
            }
            if (DO("P01") || IS("P02") || IS("P19")) { int g = rn(7); if (g < 3) binops(&F); else if (g < 5) scalarops(&F); else if (g < 6) unops(&F); else history(&F); }
            if (DO("P07") || IS("P02")) setters(&F);
            if (DO("P03") || IS("P02") || IS("P19")) { queries(&F); if (rn(4) == 0) history(&F); }
            if (DO("P04") || IS("P02") || IS("P19")) { roundings(&F); if (IS("P04") && rn(5) == 0) history(&F); }
            if (DO("P05") || IS("P02") || IS("P19")) numeric(&F);
            if (DO("P06") || ((IS("P02") || IS("P19")) && rn(4) == 0)) cfrac(&F);
            if (all || IS("P02") || IS("P19")) enclosures(&F);
            if (all || IS("P02")) evals();
            if (all || IS("P19")) immut(&F);
        }
        clearfield(&F);
    }
    if (FINIT) flint_randclear(FST);
    flint_cleanup();
    return done();
}
