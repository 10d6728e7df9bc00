/* e-antic/config.generated.h.  Generated from config.generated.h.in by configure.  */
/* e-antic/config.generated.h.in.  Generated from configure.ac by autoheader.  */

/* Define to 1 if you have the <antic/nf_elem.h> header file. */
/* #undef HAVE_ANTIC_NF_ELEM_H */

/* Define to 1 if you have the <antic/nf.h> header file. */
/* #undef HAVE_ANTIC_NF_H */

/* Define to 1 if you have the <arb.h> header file. */
/* #undef HAVE_ARB_H */

/* Define to 1 if you have the <arb_poly.h> header file. */
/* #undef HAVE_ARB_POLY_H */

/* Define to 1 if you have the <arf.h> header file. */
/* #undef HAVE_ARF_H */

/* Define to 1 if you have the <benchmark/benchmark.h> header file. */
#define HAVE_BENCHMARK_BENCHMARK_H 1

/* Define to 1 if you have the <boost/lexical_cast.hpp> header file. */
#define HAVE_BOOST_LEXICAL_CAST_HPP 1

/* define if the compiler supports basic C++14 syntax */
#define HAVE_CXX14 1

/* Define to 1 if you have the <dlfcn.h> header file. */
#define HAVE_DLFCN_H 1

/* Define to 1 if you have the <flint/flint.h> header file. */
#define HAVE_FLINT_FLINT_H 1

/* Define to 1 if you have the <flint/fmpq.h> header file. */
#define HAVE_FLINT_FMPQ_H 1

/* Define to 1 if you have the <flint/fmpz.h> header file. */
#define HAVE_FLINT_FMPZ_H 1

/* Define to 1 if you have the <inttypes.h> header file. */
#define HAVE_INTTYPES_H 1

/* Define to 1 if you have the `antic' library (-lantic). */
/* #undef HAVE_LIBANTIC */

/* Define to 1 if you have the `flint' library (-lflint). */
#define HAVE_LIBFLINT 1

/* Define to 1 if you have the `gmp' library (-lgmp). */
#define HAVE_LIBGMP 1

/* Define to 1 if you have the `mpfr' library (-lmpfr). */
#define HAVE_LIBMPFR 1

/* Define to 1 if you have the `nf_init_randtest' function. */
/* #undef HAVE_NF_INIT_RANDTEST */

/* Define to 1 if you have the <stdint.h> header file. */
#define HAVE_STDINT_H 1

/* Define to 1 if you have the <stdio.h> header file. */
#define HAVE_STDIO_H 1

/* Define to 1 if you have the <stdlib.h> header file. */
#define HAVE_STDLIB_H 1

/* Define to 1 if you have the <strings.h> header file. */
#define HAVE_STRINGS_H 1

/* Define to 1 if you have the <string.h> header file. */
#define HAVE_STRING_H 1

/* Define to 1 if you have the <sys/stat.h> header file. */
#define HAVE_SYS_STAT_H 1

/* Define to 1 if you have the <sys/types.h> header file. */
#define HAVE_SYS_TYPES_H 1

/* Define to 1 if you have the <unistd.h> header file. */
#define HAVE_UNISTD_H 1

/* Define to the sub-directory where libtool stores uninstalled libraries. */
#define LT_OBJDIR ".libs/"

/* Name of package */
#define PACKAGE "libeantic"

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT "vincent.delecroix@math.cnrs.fr"

/* Define to the full name of this package. */
#define PACKAGE_NAME "libeantic"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "libeantic 2.0.2"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "libeantic"

/* Define to the home page for this package. */
#define PACKAGE_URL ""

/* Define to the version of this package. */
#define PACKAGE_VERSION "2.0.2"

/* Define to 1 if all of the C90 standard headers exist (not just the ones
   required in a freestanding environment). This macro is provided for
   backward compatibility; new code need not use it. */
#define STDC_HEADERS 1

/* Version number of package */
#define VERSION "2.0.2"
