// Instantiates the operators that e-antic's headers derive (boost::operators), so that their code is part of the
// verified program. Contains nothing but one call per function; the code under contract comes from /repo's headers.
#include <functional>
#include <e-antic/renf_class.hpp>
#include <e-antic/renf_elem_class.hpp>
using namespace eantic;
using E = renf_elem_class;
#define ARITH(t, A, B) \
  E vf_add_##t(A a, B b) { return a + b; } E vf_sub_##t(A a, B b) { return a - b; } \
  E vf_mul_##t(A a, B b) { return a * b; } E vf_div_##t(A a, B b) { return a / b; }
#define REL(t, A, B) \
  bool vf_eq_##t(A a, B b) { return a == b; } bool vf_ne_##t(A a, B b) { return a != b; } \
  bool vf_lt_##t(A a, B b) { return a < b; } bool vf_le_##t(A a, B b) { return a <= b; } \
  bool vf_gt_##t(A a, B b) { return a > b; } bool vf_ge_##t(A a, B b) { return a >= b; }
extern "C" {
bool vf_hash(const E& x, const E& y) { return std::hash<E>()(x) == std::hash<E>()(y); }
ARITH(ee, const E&, const E&) REL(ee, const E&, const E&)
ARITH(es, const E&, short) REL(es, const E&, short) ARITH(se, short, const E&) REL(se, short, const E&)
ARITH(eus, const E&, unsigned short) REL(eus, const E&, unsigned short) ARITH(use, unsigned short, const E&) REL(use, unsigned short, const E&)
ARITH(ei, const E&, int) REL(ei, const E&, int) ARITH(ie, int, const E&) REL(ie, int, const E&)
ARITH(eui, const E&, unsigned int) REL(eui, const E&, unsigned int) ARITH(uie, unsigned int, const E&) REL(uie, unsigned int, const E&)
ARITH(el, const E&, long) REL(el, const E&, long) ARITH(le, long, const E&) REL(le, long, const E&)
ARITH(eul, const E&, unsigned long) REL(eul, const E&, unsigned long) ARITH(ule, unsigned long, const E&) REL(ule, unsigned long, const E&)
ARITH(ell, const E&, long long) REL(ell, const E&, long long) ARITH(lle, long long, const E&) REL(lle, long long, const E&)
ARITH(eull, const E&, unsigned long long) REL(eull, const E&, unsigned long long) ARITH(ulle, unsigned long long, const E&) REL(ulle, unsigned long long, const E&)
ARITH(empz, const E&, const mpz_class&) REL(empz, const E&, const mpz_class&) ARITH(mpze, const mpz_class&, const E&) REL(mpze, const mpz_class&, const E&)
ARITH(empq, const E&, const mpq_class&) REL(empq, const E&, const mpq_class&) ARITH(mpqe, const mpq_class&, const E&) REL(mpqe, const mpq_class&, const E&)
}
