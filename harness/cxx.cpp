/* Searches for concrete failing inputs of the C++ layer: P13 P14 P15 P16 P17 (P18: everything, the sanitizers judge). */
#include "cxxcommon.h"
#include <unordered_set>
#include <map>
static int all;
#define DO(p) (all || IS(p))

/* ---------------------------------------------------------------- P13 */
static const char *ON[] = {"+", "-", "*", "/"};
static bool ratop(Poly &r, int op, const Poly &a, const Poly &b, Fld *F)
{
    if (op == 0) fmpq_poly_add(r.p, a.p, b.p);
    else if (op == 1) fmpq_poly_sub(r.p, a.p, b.p);
    else if (op == 2) omul(r.p, a.p, b.p, F);
    else { Poly i; oinv(i.p, b.p, F); omul(r.p, a.p, i.p, F); }
    oreduce(r.p, F);
    return true;
}
template <class A, class B> static renf_elem_class apply(int op, const A &a, const B &b) { return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; }
template <class B> static void applyto(int op, renf_elem_class &a, const B &b) { if (op == 0) a += b; else if (op == 1) a -= b; else if (op == 2) a *= b; else a /= b; }
static void expect(const renf_elem_class &r, const Poly &want, const renf_class *K, Fld *F)
{
    if (&r.parent() != K) failure("the result lies in the wrong field");
    if (!(valof(r) == want)) failure("result is %s, should be %s", S(valof(r)), S(want));
    if (!encl(r.renf_elem_t()->emb, want.p, F)) failure("enclosure of the result excludes it");
}
template <class A, class B> static void rel(const A &a, const B &b, int s)
{
    if ((a == b) != (s == 0)) failure("== is wrong");
    if ((a != b) != (s != 0)) failure("!= is wrong");
    if ((a < b) != (s < 0)) failure("< is wrong");
    if ((a > b) != (s > 0)) failure("> is wrong");
    if ((a <= b) != (s <= 0)) failure("<= is wrong");
    if ((a >= b) != (s >= 0)) failure(">= is wrong");
}
static void elemelem()
{
    Fd *f = anyfd(), *g = rn(2) ? f : anyfd();
    Poly a = rval(f), b = rval(g);
    if (rn(6) == 0 && f == g) b = a;
    if (rn(6) == 0 && a.rational()) b = a;
    if (rn(4) == 0) { b = rval(g, rn(4)); }
    int op = rn(4), form = rn(3);
    if (op == 3 && b.p->length == 0) op = 0;
    bool self = f == g && rn(8) == 0 && !(op == 3 && a.p->length == 0);
    if (self) b = a;
    const bool same = f->K == g->K, refused = !same && !a.rational() && !b.rational();
    newcase("[%s] a = %s, [%s] b = %s, a %s b, form %d%s", f->desc.c_str(), S(a), g->desc.c_str(), S(b), ON[op], form, self ? ", the same object" : "");
    if (!a.rational() || !b.rational()) NTRIV++;
    Fd *h = b.rational() || same ? f : g;
    Poly want;
    if (!refused) ratop(want, op, a, b, h->F.get());
    renf_elem_class x = mkel(f, a), y = mkel(g, b);
    const renf_elem_class &yy = self ? x : y;
    bool thrown = false;
    try {
        if (form == 0) { expect(apply(op, x, yy), want, h->K.get(), h->F.get()); if (!refused && !(valof(x) == a)) failure("operand changed"); }
        else if (form == 1) { applyto(op, x, yy); if (!refused) expect(x, want, h->K.get(), h->F.get()); }
        else { renf_elem_class t(yy); expect(apply(op, std::move(x), std::move(t)), want, h->K.get(), h->F.get()); }
    } catch (std::exception &e) { thrown = true; }
    if (thrown != refused) failure(refused ? "not refused" : "refused by an exception");
    if (refused && form == 1 && (!(valof(x) == a) || &x.parent() != f->K.get())) failure("left operand changed although the operation was refused");
    if (!self && !(valof(y) == b)) failure("right operand changed");
    x = mkel(f, a);
    thrown = false;
    try {
        int s = refused ? 0 : osgn((a - b).p, h->F.get());
        if (refused) { bool r = rn(2) ? x == y : x < y; (void) r; failure("comparison not refused"); }
        rel(x, y, s);
    } catch (std::exception &e) { thrown = true; }
    if (thrown != refused) failure("comparison refused by an exception");
}
template <class T> static void scalar(const char *name, T c, const mpq_class &q)
{
    Fd *f = anyfd();
    Poly a = rval(f), b = Poly::of(q);
    if (rn(3) == 0) { a = rval(f, rn(4)); }
    if (rn(4) == 0) a = b;
    int op = rn(4), form = rn(3);
    if (form == 1 ? (op == 3 && a.p->length == 0) : (op == 3 && q == 0)) op = 2;
    newcase("[%s] a = %s, c = (%s) %s, %s, form %d", f->desc.c_str(), S(a), name, S(b), ON[op], form);
    if (!a.rational()) NTRIV++;
    Poly want;
    if (form == 1) ratop(want, op, b, a, f->F.get()); else ratop(want, op, a, b, f->F.get());
    renf_elem_class x = mkel(f, a);
    if (form == 0) expect(apply(op, x, c), want, f->K.get(), f->F.get());
    else if (form == 1) { renf_elem_class r = apply(op, c, x); /* a rational result may stay in the field of the number */ expect(r, want, a.rational() && &r.parent() == &renf_class::make() ? &renf_class::make() : f->K.get(), a.rational() ? POOL[0]->F.get() : f->F.get()); }
    else { renf_elem_class y = x; applyto(op, y, c); expect(y, want, f->K.get(), f->F.get()); }
    if (!(valof(x) == a)) failure("operand changed");
    x = mkel(f, a);
    int s = osgn((a - b).p, f->F.get());
    rel(x, c, s);
    rel(c, x, -s);
    /* construction and assignment */
    renf_elem_class u(c), v(*f->K, c), w = mkel(f, a);
    w = c;
    if (!(valof(u) == b) || &u.parent() != &renf_class::make()) failure("constructor from the number");
    if (!(valof(v) == b) || &v.parent() != f->K.get()) failure("constructor from field and number");
    if (!(valof(w) == b) || &w.parent() != &renf_class::make()) failure("assignment of the number");
}
template <class T> static T rint() { T r = (T) rnd(); switch (rn(6)) { case 0: return std::numeric_limits<T>::max(); case 1: return std::numeric_limits<T>::min(); case 2: return 0; case 3: return (T) 1; case 4: return (T) (std::numeric_limits<T>::min() + 1 + rn(3)); } return r; }
static void p13()
{
    if (rn(2)) { elemelem(); return; }
    switch (rn(10))
    {
        case 0: { short c = rint<short>(); scalar("short", c, mpq_class(c)); break; }
        case 1: { unsigned short c = rint<unsigned short>(); scalar("unsigned short", c, mpq_class(c)); break; }
        case 2: { int c = rint<int>(); scalar("int", c, mpq_class(c)); break; }
        case 3: { unsigned c = rint<unsigned>(); scalar("unsigned", c, mpq_class(c)); break; }
        case 4: { long c = rint<long>(); scalar("long", c, mpq_class(c)); break; }
        case 5: { unsigned long c = rint<unsigned long>(); scalar("unsigned long", c, mpq_class(c)); break; }
        case 6: { long long c = rint<long long>(); scalar("long long", c, mpq_class((long) c)); break; }
        case 7: { unsigned long long c = rint<unsigned long long>(); scalar("unsigned long long", c, mpq_class((unsigned long) c)); break; }
        case 8: { mpq_class q = rmpq(3 + rn(2)); mpz_class c = q.get_num(); scalar("mpz", c, mpq_class(c)); break; }
        default: { mpq_class q = rmpq(rn(7)); scalar("mpq", q, q); }
    }
}
/* ---------------------------------------------------------------- P14 */
struct Slot { renf_elem_class *e = nullptr; Poly v; const renf_class *K = nullptr; bool moved = false; };
static void p14()
{
    enum { N = 5 };
    Slot s[N];
    std::string log;
    const int steps = 1 + rn(14);
    refill();
    newcase("sequence of copies and moves");
    for (int i = 0; i < steps; i++)
    {
        Slot &a = s[rn(N)], &b = s[rn(N)];
        Fd *f = anyfd(); Poly v = rval(f);
        int op = rn(14);
        char buf[400]; snprintf(buf, sizeof(buf), "%d:(%d,%d,%.60s) ", op, (int)(&a - s), (int)(&b - s), S(v)); log += buf;
        newcase("fields %s; steps op:(target,source,value): %s", f->desc.c_str(), log.c_str());
        if (!v.rational()) NTRIV++;
        switch (op)
        {
            case 0: if (!a.e) { a.e = new renf_elem_class(mkel(f, v)); a.v = v; a.K = f->K.get(); a.moved = false; } break;
            case 1: if (!a.e && b.e && !b.moved) { a.e = new renf_elem_class(*b.e); a.v = b.v; a.K = b.K; a.moved = false; } break;
            case 2: if (!a.e && b.e && !b.moved) { a.e = new renf_elem_class(std::move(*b.e)); a.v = b.v; a.K = b.K; a.moved = false; b.moved = true; } break;
            case 3: case 4: if (a.e && b.e && !b.moved) { *a.e = *b.e; a.v = b.v; a.K = b.K; a.moved = false; } break;
            case 5: if (a.e && b.e && !b.moved) { if (&a == &b) { renf_elem_class &r = *a.e; *a.e = std::move(r); } else { *a.e = std::move(*b.e); a.v = b.v; a.K = b.K; a.moved = false; b.moved = true; delete b.e; b.e = nullptr; } } break;
            case 6: if (a.e && b.e && !a.moved && !b.moved) { swap(*a.e, *b.e); std::swap(a.v, b.v); std::swap(a.K, b.K); } break;
            case 7: delete a.e; a.e = nullptr; break;
            case 8: if (a.e) { mpq_class q = rmpq(rn(7)); Poly w = Poly::of(q); a.K = &renf_class::make(); a.moved = false; a.v = w;
                        switch (rn(3)) { case 0: *a.e = q; break; case 1: { *a.e = q.get_num(); a.v = Poly::of(mpq_class(q.get_num())); break; } default: { long l = rint<long>(); *a.e = l; a.v = Poly::of(mpq_class(l)); } } } break;
            case 9: { bool t = false; try { renf_elem_class x(*f->K, std::string("no*such text ~ 3")); } catch (std::invalid_argument &) { t = true; } if (!t) failure("text accepted"); break; }
            case 10: if (a.e && !a.moved) { bool t = false; try { renf_elem_class x(*f->K, *a.e); if (!(valof(x) == a.v) || &x.parent() != f->K.get()) failure("conversion into another field"); } catch (std::logic_error &) { t = true; } if (t != (!a.v.rational() && a.K != f->K.get())) failure("conversion into another field: exception expected %d", !t); } break;
            case 11: if (a.e && !a.moved) { std::vector<renf_elem_class> w; for (int k = 0; k < 3; k++) w.push_back(*a.e); w.erase(w.begin()); w.insert(w.begin(), *a.e); for (auto &y : w) if (!(valof(y) == a.v) || &y.parent() != a.K) failure("element of a vector"); } break;
            case 12: if (a.e && !a.moved) { renf_elem_class t(*a.e); renf_elem_class u(std::move(t)); if (!(valof(u) == a.v)) failure("moved"); t = u; if (!(valof(t) == a.v)) failure("assigned after move"); renf_elem_class w(std::move(t)); t = std::move(w); if (!(valof(t) == a.v)) failure("move assigned after move"); } break;
            default: { bool t = false; try { auto k = renf_class::make("x^2 - 2", "x", "0 +/- 10"); } catch (std::invalid_argument &) { t = true; } if (!t) failure("field with an ambiguous root accepted");
                       t = false; try { auto k = renf_class::make(rn(2) ? "x^2 - y" : "x^2 - 2", "x", "1.4 +- zz"); } catch (std::invalid_argument &) { t = true; } if (!t) failure("field text accepted"); }
        }
        for (int k = 0; k < N; k++) if (s[k].e && !s[k].moved)
        {
            if (&s[k].e->parent() != s[k].K) failure("slot %d has the wrong parent", k);
            if (!(valof(*s[k].e) == s[k].v)) failure("slot %d is %s, should be %s", k, S(valof(*s[k].e)), S(s[k].v));
            if (rn(8) == 0) { int w = s[k].v.p->length == 0 ? 0 : 9; (void) w; if (s[k].v.rational() && s[k].e->sgn() != sgn(s[k].v.q())) failure("slot %d has the wrong sign", k); }
        }
    }
    for (int k = 0; k < N; k++) delete s[k].e;
}
/* ---------------------------------------------------------------- P15 */
template <class T> static void vecrt(Fd *f, const char *name, std::function<T()> gen)
{
    std::vector<T> c; Poly want; long n = rn(f->F->deg + 1);
    std::string d;
    for (long i = 0; i < n; i++) { T x = gen(); c.push_back(x); std::ostringstream o; o << x << " "; d += o.str(); mpq_class q(x); fmpq_t t; fmpq_init(t); fmpq_set_mpq(t, q.get_mpq_t()); fmpq_poly_set_coeff_fmpq(want.p, i, t); fmpq_clear(t); }
    newcase("[%s] element from the vector<%s> (%s)", f->desc.c_str(), name, d.c_str());
    renf_elem_class x(*f->K, c);
    expect(x, want, f->K.get(), f->F.get());
    /* read back */
    auto nv = x.num_vector(); mpz_class den = x.den();
    if ((slong) nv.size() != f->F->deg) failure("num_vector has %zu entries", nv.size());
    std::vector<mpq_class> back; for (auto &z : nv) { mpq_class q(z, den); q.canonicalize(); back.push_back(q); }
    renf_elem_class y(*f->K, back);
    if (!(valof(y) == want)) failure("read back %s", S(valof(y)));
}
static void p15()
{
    Fd *f = anyfd(); Fld *F = f->F.get();
    Poly v = rval(f);
    if (rn(3) == 0) v = rval(f, rn(4));
    if (rn(5) == 0)
    {
        switch (rn(6))
        {
            case 0: vecrt<int>(f, "int", [] { return rint<int>(); }); break;
            case 1: vecrt<unsigned>(f, "unsigned", [] { return rint<unsigned>(); }); break;
            case 2: vecrt<long>(f, "long", [] { return rint<long>(); }); break;
            case 3: vecrt<unsigned long>(f, "unsigned long", [] { return rint<unsigned long>(); }); break;
            case 4: vecrt<mpz_class>(f, "mpz", [] { return mpz_class(rmpq(rn(7)).get_num()); }); break;
            default: vecrt<mpq_class>(f, "mpq", [] { return rmpq(rn(7)); });
        }
        return;
    }
    newcase("[%s] accessors of %s", f->desc.c_str(), S(v));
    if (!v.rational()) NTRIV++;
    renf_elem_class x = mkel(f, v);
    if (x.is_zero() != (v.p->length == 0)) failure("is_zero");
    if (x.is_one() != (v.p->length == 1 && fmpz_is_one(v.p->coeffs) && fmpz_is_one(v.p->den))) failure("is_one");
    if (x.is_integer() != v.integer()) failure("is_integer");
    if (x.is_rational() != v.rational()) failure("is_rational");
    if (static_cast<bool>(x) != (v.p->length != 0)) failure("bool");
    mpz_class den; fmpz_get_mpz(den.get_mpz_t(), v.p->den);
    if (x.den() != den) failure("den is %s", x.den().get_str().c_str());
    auto nv = x.num_vector();
    mpz_class g = 0;
    if ((slong) nv.size() != F->deg) failure("num_vector has %zu entries", nv.size());
    for (slong i = 0; i < F->deg; i++) { mpz_class c = 0; if (i < v.p->length) fmpz_get_mpz(c.get_mpz_t(), v.p->coeffs + i); if (nv[i] != c) failure("num_vector[%ld] is %s", i, nv[i].get_str().c_str()); mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), c.get_mpz_t()); }
    if (x.num_content() != g) failure("num_content is %s, should be %s", x.num_content().get_str().c_str(), g.get_str().c_str());
    if (v.rational())
    {
        if (x.num() != v.q().get_num()) failure("num is %s", x.num().get_str().c_str());
        if (static_cast<mpq_class>(x) != v.q()) failure("mpq conversion gives %s", static_cast<mpq_class>(x).get_str().c_str());
        if (v.integer() && static_cast<mpz_class>(x) != v.q().get_num()) failure("mpz conversion gives %s", static_cast<mpz_class>(x).get_str().c_str());
    }
    fmpz_t z; fmpz_init(z); mpz_class w;
    ofloor(z, v.p, F); fmpz_get_mpz(w.get_mpz_t(), z);
    if (x.floor() != w || floor(x) != w) failure("floor is %s, should be %s", x.floor().get_str().c_str(), w.get_str().c_str());
    if (x.ceil() != (v.integer() ? w : w + 1) || ceil(x) != x.ceil()) failure("ceil is %s", x.ceil().get_str().c_str());
    if (x.sgn() != osgn(v.p, F)) failure("sgn is %d", x.sgn());
    if (!(valof(-x) == Poly() - v)) failure("negation");
    if (!(valof(+x) == v)) failure("unary plus");
    if (!(valof(x) == v)) failure("the element was changed");
    /* powers */
    int e = rn(14) - 5;
    if (v.p->length == 0 && e < 0) e = -e;
    if (v.rational() && (v.q() == 1 || v.q() == -1)) { static const int B[] = {INT_MIN, INT_MAX, INT_MIN + 1, -1, 0}; e = B[rn(5)]; }
    Poly b = v, want;
    newcase("[%s] (%s)^%d", f->desc.c_str(), S(v), e);
    if (e < 0) oinv(b.p, v.p, F);
    opow(want.p, b.p, e < 0 ? 0UL - (ulong) (slong) e : (ulong) e, F);
    if (!(valof(x.pow(e)) == want) || !(valof(pow(x, e)) == want) || &x.pow(e).parent() != f->K.get()) failure("power is %s, should be %s", S(valof(x.pow(e))), S(want));
    /* floor division */
    Fd *h = rn(2) ? f : anyfd();
    Poly d = rval(h, rn(3) ? -1 : rn(4));
    if (d.p->length == 0) fmpq_poly_set_si(d.p, -3);
    newcase("[%s] floordiv of %s by %s [%s]", f->desc.c_str(), S(v), S(d), h->desc.c_str());
    renf_elem_class y = mkel(h, d);
    bool refused = h->K != f->K && !v.rational() && !d.rational(), thrown = false;
    try {
        mpz_class r = x.floordiv(y);
        if (!refused)
        {
            Fd *k = d.rational() ? f : h; Poly i; oinv(i.p, d.p, k->F.get()); omul(i.p, i.p, v.p, k->F.get());
            ofloor(z, i.p, k->F.get()); fmpz_get_mpz(w.get_mpz_t(), z);
            if (r != w) failure("floordiv gives %s, should be %s", r.get_str().c_str(), w.get_str().c_str());
        }
    } catch (std::exception &ex) { thrown = true; }
    if (thrown != refused) failure(refused ? "floordiv in different fields not refused" : "floordiv refused");
    fmpz_clear(z);
}
/* ---------------------------------------------------------------- P16 */
static KP remake(Fd *f, const std::string &name, int how, slong prec)
{
    if (how == 0) return renf_class::make(f->F->nf, name);
    fmpz_poly_t z; fmpz_poly_init(z); fmpq_poly_get_numerator(z, f->F->pol);
    char *p = fmpz_poly_get_str_pretty(z, name.c_str());
    std::string ps(p); flint_free(p); fmpz_poly_clear(z);
    arb_t b; arb_init(b);
    auto text = [&](slong pr) { oroot(b, f->F.get(), 500 + pr); char *e = arb_get_str(b, (slong)(0.301 * (450 + pr)), 0); std::string r(e); flint_free(e); return r; };
    KP r;
    if (how == 1) r = renf_class::make(ps, name, text(0), prec < 500 ? 600 : prec);
    else if (how == 2) r = renf_class::make(ps, name, std::function<std::string(slong)>(text), prec);
    else { renf_t nf; renf_init(nf, f->F->pol, f->F->nf->emb, prec); r = renf_class::make(nf, name); renf_clear(nf); }
    arb_clear(b);
    return r;
}
static void p16()
{
    Fd *f = anyfd(); while (f == POOL[0].get()) f = anyfd();
    std::string n1 = rn(2) ? "x" : "y";
    int h1 = rn(4), h2 = rn(4);
    slong p1 = 2 + rn(200), p2 = 2 + rn(200);
    newcase("%s created twice as %s with ways %d %d and precisions %ld %ld", f->desc.c_str(), n1.c_str(), h1, h2, p1, p2);
    NTRIV += f->F->deg > 1;
    KP a = remake(f, n1, h1, p1);
    if (rn(2) && f->F->deg > 1) { renf_refine_embedding(a->renf_t(), 100 + rn(500)); }
    KP b = remake(f, n1, h2, p2);
    if (a != b || !(*a == *b) || *a != *b) failure("equal fields are different objects");
    if (std::hash<renf_class>()(*a) != std::hash<renf_class>()(*b)) failure("hash of fields");
    if (b->degree() != f->F->deg) failure("degree");
    if (!b->zero().is_zero() || !b->one().is_one()) failure("zero or one");
    Poly g; fmpq_poly_set_coeff_si(g.p, 1, 1); oreduce(g.p, f->F.get());
    if (!(valof(b->gen()) == g)) failure("generator is %s", S(valof(b->gen())));
    if (!encl(b->gen().renf_elem_t()->emb, g.p, f->F.get())) failure("generator selects another root");
    KP c = remake(f, n1 + "z", h2, p2);
    if (c == a || *c == *a) failure("fields with different generator names are identified");
    if (c->gen_name() != n1 + "z" || a->gen_name() != n1) failure("generator name");
    for (auto &o : POOL) if (o.get() != f)
    {
        bool eq = o->K->gen_name() == n1 && fmpq_poly_equal(o->F->pol, f->F->pol) && qqbar_equal(o->F->root, f->F->root);
        if ((o->K == a) != eq) failure(eq ? "equal to %s but not identical" : "identified with %s", o->desc.c_str());
    }
    /* lifetime: an element keeps the field alive; after the last reference the field is gone */
    Poly v = rval(f);
    {
        renf_elem_class *e = new renf_elem_class(*c);
        renf_elem_set_fmpq_poly(e->renf_elem_t(), v.p, c->renf_t());
        const renf_class *addr = c.get();
        slong oldprec = c->renf_t()->prec;
        c.reset();
        newcase("%s kept alive by an element %s", f->desc.c_str(), S(v));
        if (&e->parent() != addr || !(valof(*e) == v) || e->parent().gen_name() != n1 + "z") failure("the element lost its field");
        renf_elem_class e2 = *e * 2 + 1;
        KP d = remake(f, n1 + "z", 3, oldprec + 7);
        if (d.get() != addr) failure("the living field was not found again");
        d.reset();
        delete e;
        if (&e2.parent() != addr) failure("parent of a derived element");
        e2 = 0;
        d = remake(f, n1 + "z", 3, oldprec + 7);
        if (d->renf_t()->prec != oldprec + 7) failure("the field outlived its last reference");
    }
}
/* ---------------------------------------------------------------- P17 */
static void p17()
{
    Fd *f = anyfd(), *g = anyfd();
    Poly v = rval(f);
    bool other = false;
    if (rn(2)) { v = rval(f, rn(4)); other = true; }
    int big = rn(10);
    if (big == 0) { Poly t; fmpz_t e; fmpz_init(e); fmpz_one(e); fmpz_mul_2exp(e, e, 900 + rn(300)); fmpq_poly_scalar_mul_fmpz(v.p, v.p, e); fmpz_clear(e); }
    if (big == 1) { fmpz_t e; fmpz_init(e); fmpz_one(e); fmpz_mul_2exp(e, e, 900 + rn(300)); fmpq_poly_scalar_div_fmpz(v.p, v.p, e); fmpz_clear(e); }
    newcase("hash of %s in [%s]%s%s", S(v), f->desc.c_str(), other ? " and in " : "", other ? g->desc.c_str() : "");
    NTRIV += !v.rational();
    renf_elem_class a = mkel(f, v), b = mkel(other ? g : f, v);
    switch (rn(5))
    {
        case 0: b = -b; b = -b; break;
        case 1: b *= 3; b /= 3; break;
        case 2: b += 1; b -= 1; break;
        case 3: b = b - b + b; break;
        default: break;
    }
    std::hash<renf_elem_class> H;
    if (!(a == b)) failure("not equal");
    if (H(a) != H(b)) failure("equal elements have different hashes");
    if (f->F->deg > 1 && rn(2)) { (void) (a > 0); renf_elem_set_evaluation(a.renf_elem_t(), a.parent().renf_t(), 300); }
    if (H(a) != H(b)) failure("equal elements have different hashes after refinement");
    std::unordered_set<renf_elem_class> s; s.insert(a);
    if (!s.count(b)) failure("not found in an unordered_set");
}
int main(int argc, char **argv)
{
    setup(argc, argv);
    Mute m;
    all = IS("P18");
    if (rn(2)) setenv("LIBEANTIC_STRICT_BINOP_UNUSED", "1", 1);
    newcase("setting up fields");
    refill();
    for (unsigned long it = 0; !over(); it++)
    {
        if (it % 200 == 199) refill();
        if (DO("P13")) p13();
        if (DO("P14")) p14();
        if (DO("P15")) p15();
        if (DO("P16")) p16();
        if (DO("P17")) p17();
    }
    return finishcxx();
}
