/* Searches for concrete failing inputs of the text and archive round trips: P20. */
#include "cxxcommon.h"
#include <cereal/archives/json.hpp>
#include <cereal/archives/binary.hpp>
#include <cereal/archives/xml.hpp>
#include <cereal/types/vector.hpp>
#include <e-antic/cereal.hpp>

template <class O, class I> static void arch(const char *name, Fd *f, Fd *g, const std::vector<Poly> &v)
{
    std::vector<renf_elem_class> x, y;
    std::string d;
    for (size_t i = 0; i < v.size(); i++) { x.push_back(mkel(i % 2 ? g : f, v[i])); d += std::string(S(v[i])) + "; "; }
    newcase("%s archive of elements %s in [%s] and [%s]", name, d.c_str(), f->desc.c_str(), g->desc.c_str());
    std::stringstream s;
    bool fresh = rn(2);
    std::vector<const renf_class *> par; std::vector<std::string> nm;
    for (auto &e : x) { par.push_back(&e.parent()); nm.push_back(e.parent().gen_name()); }
    { O ar(s); ar(x); }
    if (fresh) { }
    { I ar(s); ar(y); }
    if (y.size() != x.size()) failure("%zu elements read", y.size());
    for (size_t i = 0; i < v.size(); i++)
    {
        if (&y[i].parent() != par[i]) failure("element %zu has a different field", i);
        if (!(valof(y[i]) == v[i])) failure("element %zu read as %s", i, S(valof(y[i])));
        if (!(y[i] == x[i])) failure("element %zu not equal", i);
    }
}
static void rtfield(Fd *f)
{
    newcase("construction of %s", f->desc.c_str());
    if (f->F->deg > 1 && rn(3) == 0) { slong p = rn(600); newcase("construction of %s refined to %ld", f->desc.c_str(), p); renf_refine_embedding(f->K->renf_t(), p); }
    auto c = f->K->construction();
    if (std::get<1>(c) != f->K->gen_name() || std::get<3>(c) != f->K->renf_t()->prec) failure("construction");
    KP L;
    try { L = renf_class::make(std::get<0>(c), std::get<1>(c), std::get<2>(c), std::get<3>(c)); }
    catch (std::exception &e) { failure("construction (%s, %s, %s, %ld) is refused: %s", std::get<0>(c).c_str(), std::get<1>(c).c_str(), std::get<2>(c).c_str(), std::get<3>(c), e.what()); }
    if (L != f->K) failure("construction (%s, %s, %s, %ld) gives another field", std::get<0>(c).c_str(), std::get<1>(c).c_str(), std::get<2>(c).c_str(), std::get<3>(c));
}
int main(int argc, char **argv)
{
    setup(argc, argv);
    Mute m;
    newcase("setting up fields");
    refill();
    for (unsigned long it = 0; !over(); it++)
    {
        if (it % 40 == 39) refill();
        Fd *f = anyfd(), *g = anyfd();
        Poly v = rval(f);
        NTRIV += !v.rational();
        switch (rn(6))
        {
            case 0: rtfield(f); break;
            case 1:
            {   /* text and constructor */
                renf_elem_class x = mkel(f, v);
                static const int FL[] = {EANTIC_STR_ALG, EANTIC_STR_ALG | EANTIC_STR_D, EANTIC_STR_ALG | EANTIC_STR_ARB};
                int k = rn(3);
                newcase("[%s] text of %s, flags %d", f->desc.c_str(), S(v), FL[k]);
                std::string s = x.to_string(FL[k]);
                if (k) { if (s.size() < 2 || s[0] != '(' || s[s.size() - 1] != ')') failure("text %s", s.c_str()); s = s.substr(1, s.size() - 2); }
                renf_elem_class y(*f->K, s);
                if (!(valof(y) == v) || !(x == y)) failure("text %s is read as %s", s.c_str(), S(valof(y)));
                break;
            }
            case 2:
            {   /* streams, several elements */
                Poly w = rval(f), u = rval(f, rn(4));
                newcase("[%s] stream of %s, %s, %s", f->desc.c_str(), S(v), S(w), S(u));
                std::stringstream s;
                s << mkel(f, v) << " " << mkel(f, w) << "\n" << mkel(f, u);
                f->K->set_pword(s);
                renf_elem_class a, b, c;
                s >> a >> b >> c;
                if (!(valof(a) == v) || &a.parent() != f->K.get()) failure("first element of \"%s\" read as %s", s.str().c_str(), S(valof(a)));
                if (!(valof(b) == w)) failure("second element of \"%s\" read as %s", s.str().c_str(), S(valof(b)));
                if (!(valof(c) == u)) failure("third element of \"%s\" read as %s", s.str().c_str(), S(valof(c)));
                break;
            }
            default:
            {
                std::vector<Poly> l; for (int i = rn(5); i >= 0; i--) l.push_back(rval(l.size() % 2 ? g : f));
                switch (rn(3))
                {
                    case 0: arch<cereal::JSONOutputArchive, cereal::JSONInputArchive>("JSON", f, g, l); break;
                    case 1: arch<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>("binary", f, g, l); break;
                    default: arch<cereal::XMLOutputArchive, cereal::XMLInputArchive>("XML", f, g, l);
                }
            }
        }
    }
    return finishcxx();
}
