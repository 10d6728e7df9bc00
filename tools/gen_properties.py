#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text is reviewable)."""
import json,sys
P=[]
def p(id,title,statement,over,qtext,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,mechanism=mech)))
RE='libeantic/src/renf_elem/'; RF='libeantic/src/renf/'; ZP='libeantic/src/fmpz_poly_extra/'; QP='libeantic/src/fmpq_poly_extra/'; CX='libeantic/srcxx/'
p('P01','Field arithmetic is exact, in place or not',
 'After any arithmetic operation on number field elements (addition, subtraction, multiplication, division, inversion, negation, powers, with element, machine integer, big integer or rational second operand, on either side) the destination represents exactly the real number obtained by applying that operation to the real numbers the operands represented before the call. This holds whichever of the destination and the operands are the same object, and the other operands still represent the numbers they represented before.',
 ['inputs','histories'],'every embedded number field (linear, quadratic, general), every pair of elements in any state of refinement, every scalar of each supported type, every aliasing of destination and operands',
 'The unit tests sample random small elements, check identities between operations that share code, and never call some entry points (rational divided by element) or all aliasing patterns.',
 [RE+x for x in ['add.c','sub.c','mul.c','div.c','inv.c','neg.c','pow.c','add_si.c','sub_ui.c','mul_fmpz.c','div_fmpq.c','fmpq_sub.c','fmpq_div.c']],
 'each operation delegates to the exact element routine and to the matching ball routine with the same operands')
p('P02','The stored enclosure always contains the exact value',
 'After construction, assignment or any operation of the library, the real ball stored with an element contains the exact real number the element represents, and it keeps doing so when the field is refined later; evaluating a polynomial at a ball gives a ball containing the value at every point of the ball. No sequence of operations, precisions or aliasing can produce an element whose ball excludes its value.',
 ['inputs','histories'],'every element, every history of operations and refinements, every working precision a field can be given or reach, fields with tiny, huge or clustered roots',
 'Ball inclusion is an invariant over all histories; tests only check overlap with a recomputed ball for random elements at moderate precision.',
 [RE+'set_evaluation.c',RE+'add.c',RE+'set_fmpq.c',RE+'set_fmpq_poly.c',RE+'set_nf_elem.c',ZP+'evaluate.c',QP+'evaluate.c'],
 'element ball is updated by ball arithmetic in lock step with the exact element, or recomputed from the generator ball')
p('P03','Sign, comparison and equality are exact',
 'The sign of an element, the comparison of two elements or of an element with an integer or rational, and the equality, zero, one, integer and rational predicates always return the mathematically correct answer, however close the two numbers are and however coarse the current enclosures are.',
 ['inputs','histories'],'all elements and scalars of every field, including equal, rational and nearly equal ones, and every state of refinement',
 'Wrong answers only show when the operands are closer than the sampled precision or on special representations (zero, rational, stale coefficients) that random sampling rarely reaches.',
 [RE+x for x in ['sgn.c','cmp.c','cmp_fmpq.c','cmp_fmpz.c','cmp_si.c','cmp_ui.c','equal.c','equal_fmpq.c','is_rational.c','is_integer.c']],
 'decide from the enclosure when it excludes zero, from the exact representation when rational, otherwise refine')
p('P04','Floor, ceiling and floor division are exact',
 'Floor and ceiling of an element are the unique integers n with n <= x < n+1 and n-1 < x <= n, and floor division of two elements is the floor of their exact quotient, for every element including integers, negatives, zero and values arbitrarily close to an integer.',
 ['inputs','histories'],'every element (and nonzero divisor) of every field in every state of refinement',
 'Failures need values at or extremely near an integer, negative divisors, zero in a field of degree at least 3, or infinite enclosures.',
 [RE+'rounding_template.h',RE+'floor_ceil.c',RE+'fdiv.c'],
 'both end points of the enclosure are rounded and compared; refinement until they agree; exact path for rationals; correction step by exact comparison in floor division')
p('P05','Numerical output is faithful',
 'Asking for a real ball with a given number of bits returns a ball that contains the exact value and has at least the requested relative accuracy (exactly zero for zero), and asking for a double with a rounding mode returns the double that correct rounding in that mode of the exact value gives, including infinities on overflow.',
 ['inputs','histories'],'every element and field, every requested precision, every rounding mode, values at rounding boundaries, tiny and huge values',
 'Rounding errors appear only for values adjacent to a rounding boundary, subnormal or overflowing values.',
 [RE+'get_arb.c',RE+'get_d.c'],
 'refine until the enclosure is accurate enough; double rounding decided by exact comparison with neighbouring doubles')
p('P06','Continued fraction expansion is correct',
 'The partial quotients returned for an element are the unique simple continued fraction expansion of the exact real number, at most as many as requested; the count returned is the number actually written and is smaller than requested only if the expansion ended.',
 ['inputs'],'every element of every field and every requested length',
 'Depends on exact floors and inversions along an unbounded sequence.',
 [RE+'get_cfrac.c'],'repeated exact floor, subtract, invert with the remainder kept exactly')
p('P07','Setting an element from outside data is exact',
 'Setting an element from a machine integer, big integer, rational, GMP number, rational polynomial in the generator, or an exact number field element makes it represent exactly that number; zero, one and the generator are what they say, and the generator is the selected real root of the defining polynomial in every degree including one.',
 ['inputs','configurations'],'every value of each source type (including the extreme machine integers), every field including degree one',
 'Tests use small values and mostly fields of degree at least two.',
 [RE+x for x in ['set.c','set_si.c','set_ui.c','set_fmpz.c','set_fmpq.c','set_mpz.c','set_mpq.c','set_fmpq_poly.c','set_nf_elem.c','zero.c','one.c','gen.c']],
 'exact element and ball are set from the same source')
p('P08','A field stays attached to exactly one real root',
 'A number field can only be created from a ball that contains exactly one root of the defining polynomial, and from then on its embedding ball always contains that root, through every refinement, copy, radical construction and enumeration of embeddings; refining to a precision yields an embedding of at least that relative accuracy. Anything else is refused.',
 ['inputs','histories'],'every polynomial, every user ball and precision including balls with more digits than the precision and clustered roots, every sequence of refinements',
 'Losing the root needs close roots, rounding at the ball end points or unlucky precision; tests use well separated roots.',
 [RF+'init.c',RF+'refine_embedding.c',RF+'init_set.c',RF+'init_nth_root.c',RF+'set_embeddings_fmpz_poly.c',QP+'check_unique_real_root.c',ZP+'newton_step_arb.c',ZP+'bisection_step_arb.c'],
 'uniqueness test by end point signs plus monotonicity or root counting; interval Newton step with containment test; sign-preserving bisection')
p('P09','Field equality means same polynomial and same root',
 'Two embedded number fields compare equal if and only if they have the same defining polynomial and select the same real root of it, independent of the precision and history of either.',
 ['inputs','histories'],'all pairs of fields including those selecting different roots whose enclosures touch or overlap',
 'Tests only compare fields whose enclosures are disjoint or identical.',
 [RF+'equal.c'],'exact polynomial comparison together with a decision whether the two enclosures isolate the same root')
p('P10','Real root counting, bounding and isolation are exact',
 'For a squarefree integer polynomial the isolated roots (exact ones and open dyadic intervals) are all its real roots, each exactly once, in increasing order within each kind, and every interval contains exactly one root; the root counts agree with them; the reported power of two is a strict upper bound of all positive roots and the sign variation counts bound the number of roots.',
 ['inputs'],'every nonzero squarefree integer polynomial of every degree and coefficient size, sparse ones included',
 'A missed or doubled root needs a particular coefficient pattern; tests use random products and compare a few algorithms.',
 [ZP+x for x in ['isolate_real_roots.c','descartes_bound.c','descartes_bound_0_1.c','positive_root_upper_bound_2exp.c','num_real_roots_vca.c','num_real_roots_0_1.c','num_real_roots_0_1_vca.c','num_real_roots_0_1_sturm.c','has_real_root.c','scale_0_1_fmpq.c']],
 'Vincent-Collins-Akritas subdivision with Descartes bound, local-max root bound, Sturm count')
p('P11','Polynomial helpers compute what they are named for',
 'The affine rescaling of an interval to [0,1] maps roots exactly, the squarefree part has the same real roots each once, coefficientwise absolute value, evaluation at one and at an exact float, and the condition estimate bound what they claim, with the destination allowed to be the source where the interface allows it.',
 ['inputs'],'all integer polynomials and rational intervals',
 'Only a few random cases are sampled.',
 [ZP+x for x in ['scale_0_1_fmpq.c','squarefree_part.c','abs.c','evaluate_at_one.c','evaluate.c','relative_condition_number_2exp.c']],
 'small loops over coefficient vectors')
p('P12','Polynomial text is parsed to the polynomial it denotes',
 'Parsing a polynomial text in a given variable succeeds exactly on sums of signed monomials with integer or rational coefficients and nonnegative exponents in that variable and stores exactly that polynomial in canonical form, whatever the destination held before; any other text is rejected with an error code and no memory is lost or overrun.',
 ['inputs'],'all strings and variable names',
 'The input space is all strings; tests use a short list.',
 [QP+'set_str_pretty.c',ZP+'set_str_pretty.c'],'split at signs, parse each monomial, accumulate')
p('P13','C++ operators agree with exact mathematics for every operand type',
 'Every C++ arithmetic or comparison operator between field elements, or between an element and any built-in integer type, big integer or rational, on either side, gives the exact mathematical result in the right parent; operands from different fields are handled exactly when one of them is rational and otherwise the operation is refused with an exception, never answered wrongly.',
 ['inputs','configurations'],'all operand values including extreme machine integers, all operand types, same and different parents, all aliasings',
 'The C++ unit tests are few and random; many operator and type combinations, extreme values and mixed parents are never run.',
 [CX+'renf_elem_class.cpp','libeantic/e-antic/renf_elem_class.hpp'],'operators dispatch on operand type and parent to the C functions')
p('P14','C++ values copy, move, assign and swap faithfully',
 'Copying, moving, assigning, swapping and constructing C++ elements preserves the represented number and its parent field, self assignment and self swap change nothing, a moved-from object can be destroyed or assigned, and no operation frees an element twice or leaks it, also when a constructor throws.',
 ['histories'],'every sequence of constructions, copies, moves, assignments between elements of equal or different parents',
 'Ownership errors depend on the history of an object; tests exercise a handful.',
 [CX+'renf_elem_class.cpp'],'raw element storage guarded by the parent pointer being set')
p('P15','C++ accessors and conversions are exact',
 'Numerator, denominator, coefficient vector, numerator content, rational and integer conversions, floor, ceiling, floor division, powers (any exponent) and sign of a C++ element return exactly the quantity they name for the number the element represents, and coefficient vectors set and read back give the same element.',
 ['inputs'],'every element of every field and every int exponent',
 'Special representations (zero, degree one, quadratic, general) and extreme exponents are not all sampled.',
 [CX+'renf_elem_class.cpp'],'representation-specific readout of coefficients')
p('P16','Fields are unique parents with sound lifetime',
 'Creating a field equal to one that is alive returns the same object, distinct fields are distinct objects, a field lives exactly as long as something refers to it, and comparing parents by identity is therefore the same as comparing them mathematically.',
 ['histories'],'every sequence of field creations and releases in a single thread',
 'Depends on the global history of references.',
 [CX+'renf_class.cpp'],'global registry keyed by mathematical equality plus intrusive reference count')
p('P17','Equal elements have equal hashes',
 'Whenever two C++ elements compare equal their hash values are equal, independent of their enclosures, precision history, and of whether their parents are the same field, and the field registry hash agrees with field equality.',
 ['inputs','histories'],'all pairs of equal elements in any state',
 'Needs equal elements with different histories or parents.',
 [CX+'renf_elem_class.cpp',CX+'renf_class.cpp'],'hash of the correctly rounded double')
p('P18','Memory discipline on every path',
 'Every library function initialises what it uses before use, releases every temporary exactly once on every path including early returns, rejected input and thrown exceptions, reads and writes vectors only within bounds, and never performs arithmetic that overflows a machine integer for admissible arguments.',
 ['inputs'],'all control paths of all library functions',
 'Leaks and double frees on rare paths produce no wrong result a test would notice.',
 ['libeantic/src','libeantic/srcxx'],'paired init and clear calls')
p('P19','Operands and fields keep their identity',
 'Operations documented as queries (sign, comparison, floor, ceiling, conversion, printing) may sharpen the enclosures of their operands and of the field but never change the number an operand represents, the defining polynomial, the selected root or the default precision of the field, and an embedding marked immutable is never refined silently.',
 ['inputs','histories'],'all calls of query functions in all states',
 'Tests rarely re-inspect operands after queries.',
 [RE+'sgn.c',RE+'cmp.c',RE+'rounding_template.h',RE+'fdiv.c',RE+'get_d.c',RF+'refine_embedding.c',RF+'set_immutable.c'],
 'queries only rewrite enclosures')
p('P20','Text and archive round trips restore field and element',
 'Writing a field construction or an element to text or to a cereal archive and reading it back yields an equal field (same polynomial, generator name and root) and an equal element, with shared parents restored as shared.',
 ['inputs','histories'],'all fields and elements',
 'Round trips are sampled on a few fixed fields.',
 [CX+'renf_class.cpp','libeantic/e-antic/cereal.hpp'],'string representation of polynomial, embedding and element')
p('P21','Concurrent use is safe as documented',
 'Concurrent creation, release and use of fields and elements in several threads, within the documented rules (immutable embeddings), never yields a data race, a dangling field or two distinct objects for equal fields.',
 ['schedules'],'all thread interleavings',
 'Needs specific interleavings of release and creation.',
 [CX+'renf_class.cpp'],'mutex around the registry, atomic reference count')
p('P22','The Python layer agrees with the C++ layer',
 'Python operations, conversions from and to other systems and pickling give the same number as the C++ library.',
 ['inputs'],'all Python values convertible to elements',
 'Only sample values are tested.',
 ['pyeantic/src/pyeantic'],'cppyy bindings and pythonizations')
p('P23','Queries terminate',
 'Every sign, comparison, rounding and conversion query on a finite element terminates: refinement doubles the precision and ends as soon as the enclosure decides the question.',
 ['inputs'],'all elements and fields',
 'Non-termination needs special values.',
 [RE+'sgn.c',RE+'rounding_template.h',RE+'fdiv.c',RE+'get_arb.c',RF+'refine_embedding.c'],
 'precision doubling with convergent interval Newton or bisection')
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
