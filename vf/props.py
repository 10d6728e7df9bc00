"""Which contracts and which obligation classes decide which property, and which replay program looks for failing inputs."""
from . import spec as S
from . import contracts_elem, contracts_poly, contracts_renf, contracts_cxx as CX
from . import contracts_helpers
from . import registry as RG
CX.CXX.update(RG.SPECS)

ARITH = ['renf_elem_%s%s' % (o, t) for t in ('', '_si', '_ui', '_fmpz', '_fmpq') for o in ('add', 'sub', 'mul', 'div')] + \
        ['renf_elem_fmpq_sub', 'renf_elem_fmpq_div', 'renf_elem_neg', 'renf_elem_inv', 'renf_elem_pow', 'renf_elem_set']
SETTERS = ['renf_elem_zero', 'renf_elem_one', 'renf_elem_gen', 'renf_elem_init'] + ['renf_elem_set_' + t for t in ('si', 'ui', 'fmpz', 'mpz', 'fmpq', 'mpq', 'fmpq_poly', 'nf_elem')]
QUERIES = ['renf_elem_sgn', 'renf_elem_cmp'] + ['renf_elem_cmp_' + t for t in ('si', 'ui', 'fmpz', 'fmpq')] + \
          ['renf_elem_is_' + t for t in ('zero', 'one', 'rational', 'integer')] + ['renf_elem_equal'] + ['renf_elem_equal_' + t for t in ('si', 'ui', 'fmpz', 'fmpq')]
ROUND = ['renf_elem_floor', 'renf_elem_ceil', 'renf_elem_fdiv']
EVALS = ['_fmpz_poly_evaluate_arb', 'fmpz_poly_evaluate_arb', 'fmpq_poly_evaluate_arb', 'renf_elem_set_evaluation', 'renf_elem_check_embedding']
STEPS = ['_fmpz_poly_newton_step_arb', '_fmpz_poly_bisection_step_arb', '_fmpz_poly_bisection_step_arf']

def allspecs():
    return [n for n, s in S.SPECS.items() if not s.assumed] + list(CX.CXX)

def names(l):
    return [sp.name for sp in l]

POST = {'post', 'pre', 'div', 'alias'}
PROPS = {
    'P01': dict(roots=ARITH, cls=POST, harness=['elem.c']),
    'P02': dict(roots=ARITH + SETTERS + QUERIES + ROUND + EVALS + STEPS, cls={'encl'}, harness=['elem.c']),
    'P03': dict(roots=QUERIES, cls=POST, harness=['elem.c']),
    'P04': dict(roots=ROUND, cls=POST, harness=['elem.c']),
    'P05': dict(roots=['renf_elem_get_arb', 'renf_elem_get_d'], cls=POST | {'encl'}, harness=['elem.c']),
    'P06': dict(roots=['renf_elem_get_cfrac'], cls=POST, harness=['elem.c']),
    'P07': dict(roots=SETTERS, cls=POST, harness=['elem.c']),
    'P08': dict(roots=['renf_refine_embedding', 'renf_init', 'renf_init_set', 'renf_init_nth_root_fmpq', 'renf_set_embeddings_fmpz_poly', 'renf_set_immutable', 'renf_degree', 'renf_clear', 'fmpq_poly_check_unique_real_root'] + STEPS,
                cls=POST | {'encl', 'iso'}, harness=['field.c']),
    'P09': dict(roots=['renf_equal'], cls=POST, harness=['field.c']),
    'P10': dict(roots=['fmpz_poly_num_real_roots_0_1', 'fmpz_poly_num_real_roots_0_1_vca', '_fmpz_poly_isolate_real_roots_0_1_vca', 'fmpz_poly_isolate_real_roots', 'fmpz_poly_num_real_roots_vca',
                      '_fmpz_poly_descartes_bound_0_1', '_fmpz_poly_positive_root_upper_bound_2exp',
                      '_fmpz_poly_has_real_root', 'fmpz_poly_has_real_root', 'fmpz_poly_num_real_roots_upper_bound'], cls=POST, harness=['poly.c']),
    'P11': dict(roots=['_fmpz_poly_evaluate_arf', 'fmpz_poly_evaluate_arf', 'fmpq_poly_evaluate_arf', '_fmpz_poly_relative_condition_number_2exp',
                      'fmpz_poly_squarefree_part', 'fmpz_poly_abs', 'fmpz_poly_evaluate_at_one'], cls=POST, harness=['poly.c']),
    'P12': dict(roots=['fmpq_poly_set_str_pretty', 'fmpz_poly_set_str_pretty', '_monomial_set_str', 'str_is_varname'], cls=POST | {'mem'}, harness=['parse.c'], san=True),
    'P13': dict(roots=names(CX.P13), cls=POST, harness=['cxx.cpp']),
    'P14': dict(roots=names(CX.P14), cls=POST | {'mem', 'refs'}, harness=['cxx.cpp'], san=True),
    'P15': dict(roots=names(CX.P15), cls=POST, harness=['cxx.cpp']),
    'P16': dict(roots=names(RG.P16 + CX.P16), cls=POST | {'refs', 'mem', 'abort', 'encl', 'frame', 'iso'}, harness=['cxx.cpp'], san=True),
    'P17': dict(roots=names(CX.P17), cls=POST, harness=['cxx.cpp']),
    'P18': dict(roots=allspecs, cls={'mem', 'pre', 'abort', 'ovf', 'io', 'div', 'alias', 'refs'}, harness=['elem.c', 'field.c', 'poly.c', 'parse.c', 'cxx.cpp'], san=True),
    'P19': dict(roots=allspecs, cls={'frame'}, harness=['elem.c']),
    'P20': dict(roots=[], cls=POST, harness=['archive.cpp']),
}

def roots(p):
    r = PROPS[p]['roots']
    r = r() if callable(r) else r
    return [n for n in r if n in S.SPECS or n in CX.CXX]

def find(n):
    return S.SPECS[n] if n in S.SPECS else CX.CXX[n]

def needs_cxx(ns):
    return any(n in CX.CXX for n in ns)

NOT_APPLICABLE = {
    'P21': 'concurrency: the verifier is sequential and no deductive verifier for concurrent C/C++ is installed; the registry in renf_class.cpp is documented as not thread safe without external locking of unique creation',
    'P22': 'the Python layer (pyeantic) consists of bindings that cppyy generates at run time from the C++ headers plus dynamically typed conversion code for foreign systems (SageMath, realalg); no deductive verifier with contracts for such Python is installed and the IR based verifier cannot reach it',
    'P23': 'termination of the refinement loops rests on convergence of interval Newton iteration (a limit argument over real closed fields) for which the contracts of FLINT ball arithmetic give containment only; partial correctness is what is proved',
}
