/* Searches for concrete failing inputs of the parsers: P12 P18. The reference parser follows the grammar
 *   text     := "" | monomial { sign-led monomial }
 *   monomial := spaces {sign|space} [coefficient] [ '*' ] [ var [ ['^'] exponent ] ]
 * over decimal integers, fractions of them with nonzero denominator, and a C identifier as variable. */
#include "common.h"
#include <ctype.h>

static int refident(const char *v) { if (!(isalpha((unsigned char)*v) || *v == '_')) return 0; for (; *v; v++) if (!(isalnum((unsigned char)*v) || *v == '_')) return 0; return 1; }
/* -1 rejected, 0 ok, 1 exponent too large to try */
static int refparse(fmpq_poly_t p, const char *s, const char *var)
{
    fmpq_poly_zero(p);
    if (!refident(var)) return -1;
    const char *x = s;
    int big = 0;
    /* a huge exponent anywhere: an implementation may ask for that much memory before it sees an error elsewhere */
    for (const char *q = s; *q; q++)
        if (isdigit((unsigned char)*q) && (q == s || !isdigit((unsigned char)q[-1])))
        {
            const char *b = q, *z = q;
            while (isdigit((unsigned char)*z)) z++;
            while (b > s && b[-1] == ' ') b--;
            if (z - q > 4 && b > s && (b[-1] == '^' || b[-1] == '_' || isalpha((unsigned char)b[-1]))) big = 1;
        }
    fmpq_t c; fmpq_init(c); fmpz_t n, d; fmpz_init(n); fmpz_init(d); fmpq_poly_t m; fmpq_poly_init(m);
    int ret = 0;
    while (*x)
    {
        int neg = 0, some = 0, coef = 0;
        while (*x == ' ' || *x == '+' || *x == '-') { if (*x == '-') neg ^= 1; x++; }
        if (!*x) { ret = -1; break; }
        fmpz_one(n); fmpz_one(d);
        if (isdigit((unsigned char)*x))
        {
            fmpz_zero(n);
            while (isdigit((unsigned char)*x)) { fmpz_mul_ui(n, n, 10); fmpz_add_ui(n, n, *x - '0'); x++; }
            if (*x == '/') { x++; if (!isdigit((unsigned char)*x)) { ret = -1; break; } fmpz_zero(d); while (isdigit((unsigned char)*x)) { fmpz_mul_ui(d, d, 10); fmpz_add_ui(d, d, *x - '0'); x++; } if (*x == '/') { ret = -1; break; } }
            if (fmpz_is_zero(d)) { ret = -1; break; }
            some = coef = 1;
        }
        (void) coef;
        while (*x == ' ') x++;
        slong e = 0;
        if (*x && *x != '+' && *x != '-')
        {
            if (*x == '*') { do x++; while (*x == ' '); }
            if (strncmp(x, var, strlen(var))) { ret = -1; break; }
            x += strlen(var); some = 1; e = 1;
            int caret = 0, sp = 0;
            if (!isdigit((unsigned char)*x)) { while (*x == ' ') { x++; sp = 1; } if (*x == '^') { caret = 1; do x++; while (*x == ' '); } }
            if (isdigit((unsigned char)*x) && (caret || !sp))
            {
                fmpz_t ee; fmpz_init(ee);
                while (isdigit((unsigned char)*x)) { fmpz_mul_ui(ee, ee, 10); fmpz_add_ui(ee, ee, *x - '0'); x++; }
                if (fmpz_cmp_si(ee, 5000) > 0) { big = 1; e = 0; } else e = fmpz_get_si(ee);
                fmpz_clear(ee);
            }
            else if (caret) { ret = -1; break; }
            while (*x == ' ') x++;
        }
        if (!some) { ret = -1; break; }
        if (*x && *x != '+' && *x != '-') { ret = -1; break; }
        fmpq_set_fmpz_frac(c, n, d); if (neg) fmpq_neg(c, c);
        fmpq_poly_zero(m); fmpq_poly_set_coeff_fmpq(m, e, c); fmpq_poly_add(p, p, m);
    }
    fmpq_clear(c); fmpz_clear(n); fmpz_clear(d); fmpq_poly_clear(m);
    return big ? 1 : ret;
}
static void gentext(char *s, int max, const char *var)
{
    static const char *tok[] = {"+", "-", " ", "*", "^", "/", "x", "1", "2", "0", "12", "y", "x^2", "3*x", "1/2", "4/6", "x^10", " + ", " - ", "++", "_", ".", "(", "\t", "99999999999999999999", "x3", "007", "2/0"};
    int L = 0, n = rn(10);
    s[0] = 0;
    if (rn(3))
    {   /* mostly valid */
        for (int i = 0; i < 1 + n % 5; i++)
        {
            char b[200], v[100]; int k = 0;
            snprintf(v, sizeof(v), "%s", var);
            k += snprintf(b + k, sizeof(b) - k, "%s", i || rn(3) == 0 ? (rn(2) ? (rn(2) ? "+" : "-") : (rn(2) ? " + " : " - ")) : "");
            int form = rn(5);
            if (form == 0) k += snprintf(b + k, sizeof(b) - k, "%ld", rn(100));
            if (form == 1) k += snprintf(b + k, sizeof(b) - k, "%ld/%ld%s%s", rn(100), 1 + rn(20), rn(2) ? "*" : (rn(2) ? " " : ""), v);
            if (form == 2) k += snprintf(b + k, sizeof(b) - k, "%s^%ld", v, rn(12));
            if (form == 3) k += snprintf(b + k, sizeof(b) - k, "%ld%s%s%s^%s%ld", rn(1000), rn(3) ? "" : " ", rn(3) ? "*" : " * ", v, rn(3) ? "" : " ", rn(30));
            if (form == 4) k += snprintf(b + k, sizeof(b) - k, "%s", v);
            if (L + k < max - 1) { strcpy(s + L, b); L += k; }
        }
        if (rn(4) == 0 && L) s[rn(L)] = " +-*^/x109"[rn(10)];
        if (rn(6) == 0 && L < max - 2) { strcat(s, " "); }
    }
    else for (int i = 0; i < n; i++) { const char *t = tok[rn(28)]; if (L + (int) strlen(t) < max - 1) { strcpy(s + L, t); L += strlen(t); } }
}
int main(int argc, char **argv)
{
    setup(argc, argv);
    static const char *vars[] = {"x", "x", "x", "x", "y", "a", "xx", "x1", "_z", "alpha", "X", "", "1x", "x y", "x+", "x^"};
    while (!over())
    {
        char s[2000]; const char *var = vars[rn(16)];
        gentext(s, 1000, var);
        fmpq_poly_t want, got; fmpq_poly_init(want); fmpq_poly_init(got);
        fmpz_poly_t z; fmpz_poly_init(z); fmpz_poly_set_str(z, "5  9 8 7 6 5"); fmpq_poly_set_str(got, "4  1/2 1 1 1");
        int w = refparse(want, s, var);
        newcase("parsing \"%s\" in the variable \"%s\"", s, var);
        if (w <= 0)
        {
            /* exactly sized copies so that reads beyond the end are seen */
            char *t = strdup(s), *v = strdup(var);
            int g = fmpq_poly_set_str_pretty(got, t, v);
            NTRIV += w == 0 && want->length > 1;
            if (IS("P12"))
            {
                if ((g == 0) != (w == 0)) failure("%s", w == 0 ? "rejected a valid text" : "accepted an invalid text");
                if (g == 0 && !fmpq_poly_equal(got, want)) failure("gives %s, should be %s", pstr(got), pstr(want));
                if (g == 0 && !fmpq_poly_is_canonical(got)) failure("result not in canonical form");
            }
            g = fmpz_poly_set_str_pretty(z, t, v);
            if (IS("P12"))
            {
                int wz = w == 0 && fmpz_is_one(want->den) ? 0 : -1;
                if ((g == 0) != (wz == 0)) failure("%s (integer polynomial)", wz == 0 ? "rejected a valid text" : "accepted an invalid text");
                if (g == 0) { fmpq_poly_set_fmpz_poly(got, z); if (!fmpq_poly_equal(got, want)) failure("integer polynomial %s, should be %s", pstr(got), pstr(want)); }
            }
            free(t); free(v);
        }
        fmpq_poly_clear(want); fmpq_poly_clear(got); fmpz_poly_clear(z);
    }
    if (FINIT) flint_randclear(FST);
    flint_cleanup();
    return done();
}
