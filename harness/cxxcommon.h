/* C++ part of the replay: a pool of fields known both to the library and to the oracle of common.h */
#ifndef VERIF_CXXCOMMON_H
#define VERIF_CXXCOMMON_H
#include <iostream>
#include <sstream>
#include <vector>
#include <memory>
#include <functional>
#include <cstring>
#include <gmpxx.h>
extern "C" {
#include "common.h"
}
#include <e-antic/renf_class.hpp>
#include <e-antic/renf_elem_class.hpp>
using namespace eantic;
typedef boost::intrusive_ptr<const renf_class> KP;

struct Poly {
    fmpq_poly_t p;
    Poly() { fmpq_poly_init(p); }
    Poly(const Poly &o) { fmpq_poly_init(p); fmpq_poly_set(p, o.p); }
    Poly &operator=(const Poly &o) { fmpq_poly_set(p, o.p); return *this; }
    ~Poly() { fmpq_poly_clear(p); }
    bool rational() const { return p->length <= 1; }
    bool integer() const { return p->length <= 1 && (p->length == 0 || fmpz_is_one(p->den)); }
    void rat(fmpq_t q) const { fmpq_poly_get_coeff_fmpq(q, p, 0); }
    mpq_class q() const { fmpq_t x; fmpq_init(x); rat(x); mpq_class r; fmpq_get_mpq(r.get_mpq_t(), x); fmpq_clear(x); return r; }
    static Poly of(const mpq_class &x) { Poly r; fmpq_t t; fmpq_init(t); fmpq_set_mpq(t, x.get_mpq_t()); fmpq_poly_set_fmpq(r.p, t); fmpq_clear(t); return r; }
    bool operator==(const Poly &o) const { return fmpq_poly_equal(p, o.p); }
};
static Poly operator-(const Poly &a, const Poly &b) { Poly r; fmpq_poly_sub(r.p, a.p, b.p); return r; }

/* a field: the library's view K and the oracle's view F (F == nullptr: the trivial field) */
struct Fd {
    std::unique_ptr<Fld> F; KP K; std::string desc;
    ~Fd() { K.reset(); if (F) clearfield(F.get()); }
};
static Fld *TRIV;
static int nthfield = 0;
static Fd *mkfd(bool trivial = false)
{
    Fd *f = new Fd;
    f->F.reset(new Fld);
    if (trivial)
    {
        fmpz_poly_t p; fmpz_poly_init(p); fmpz_poly_set_str(p, "2  -1 1");
        mkfield(f->F.get(), p, 0, 64, 0);
        fmpz_poly_clear(p);
        f->K = &renf_class::make();
        f->desc = "trivial field";
        return f;
    }
    while (!anyfield(f->F.get(), nthfield++)) {}
    f->K = renf_class::make(f->F->nf, rn(4) ? "x" : "alpha");
    f->desc = std::string(f->F->desc) + " named " + f->K->gen_name();
    return f;
}
/* element of the field with the value v, enclosure of random quality */
static renf_elem_class mkel(const Fd *f, const Poly &v)
{
    renf_elem_class r(*f->K);
    nf_elem_set_fmpq_poly(r.renf_elem_t()->elem, v.p, f->K->renf_t()->nf);
    int q = rn(6); if (q == 3) q = 0;
    setball(r.renf_elem_t()->emb, v.p, f->F.get(), q);
    return r;
}
static Poly valof(const renf_elem_class &e)
{
    Poly r;
    nf_elem_get_fmpq_poly(r.p, e.renf_elem_t()->elem, e.parent().renf_t()->nf);
    return r;
}
static Poly rval(const Fd *f, int kind = -1) { Poly r; relem(r.p, f->F.get(), kind < 0 ? rn(NKIND) : kind); oreduce(r.p, f->F.get()); return r; }
static const char *S(const Poly &p) { return pstr(p.p); }
static std::vector<std::unique_ptr<Fd>> POOL;
static void refill()
{
    if (POOL.empty()) { POOL.emplace_back(mkfd(true)); for (int i = 0; i < 5; i++) POOL.emplace_back(mkfd()); return; }
    POOL[1 + rn(POOL.size() - 1)].reset(mkfd());
}
static Fd *anyfd() { return POOL[rn(POOL.size())].get(); }
struct Mute { std::streambuf *o; std::ostringstream s; Mute() { o = std::cerr.rdbuf(nullptr); } ~Mute() { std::cerr.rdbuf(o); } };
static mpq_class rmpq(int kind) { fmpq_t q; fmpq_init(q); rq(q, kind); mpq_class r; fmpq_get_mpq(r.get_mpq_t(), q); fmpq_clear(q); return r; }
static int finishcxx() { POOL.clear(); if (FINIT) flint_randclear(FST); flint_cleanup(); return done(); }
#endif
