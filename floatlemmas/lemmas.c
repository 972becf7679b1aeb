/* The float axioms of contracts/00_prelude.rs, one function each, over all pairs or triples of bit patterns.
   fcmp is the source of f64::total_cmp, fclamp that of f64::clamp. */
typedef unsigned long long u64;
typedef long long i64;
double nd(void);
static u64 bits(double x) { union { double d; u64 u; } v; v.d = x; return v.u; }
static double ofbits(u64 b) { union { double d; u64 u; } v; v.u = b; return v.d; }
static int nan_(double x) { return x != x; }
static int finite_(double x) { return ((bits(x) >> 52) & 0x7ff) != 0x7ff; }
static double abs_(double x) { return ofbits(bits(x) & 0x7fffffffffffffffULL); }
static int fcmp(double a, double b) {
    i64 l = (i64)bits(a), r = (i64)bits(b);
    l ^= (i64)(((u64)(l >> 63)) >> 1);
    r ^= (i64)(((u64)(r >> 63)) >> 1);
    return l < r ? -1 : l > r ? 1 : 0;
}
static double fclamp(double x, double lo, double hi) { if (x < lo) x = lo; if (x > hi) x = hi; return x; }
static int unit(double t) { return !nan_(t) && !(ofbits(4607182418800017408ULL) < abs_(t)); }
#define A __CPROVER_assume
#ifdef VACUITY
#define E(c) __CPROVER_assert(0, "ensures")
#else
#define E(c) __CPROVER_assert(c, "ensures")
#endif
void fcmp_antisym(void) { double a = nd(), b = nd(); A(fcmp(a, b) != 1 && fcmp(b, a) != 1); E(bits(a) == bits(b)); }
void fcmp_flip(void) { double a = nd(), b = nd(); A(fcmp(a, b) == 1); E(fcmp(b, a) == -1); }
void fcmp_trans(void) { double a = nd(), b = nd(), c = nd(); A(fcmp(a, b) != 1 && fcmp(b, c) != 1); E(fcmp(a, c) != 1); }
void fcmp_refl(void) { double a = nd(); E(fcmp(a, a) == 0); }
void flt_fcmp(void) { double a = nd(), b = nd(); A(a < b); E(fcmp(b, a) == 1); }
void not_flt_trans(void) { double a = nd(), b = nd(), c = nd(); A(!nan_(a) && !nan_(b) && !nan_(c) && !(a < b) && !(b < c)); E(!(a < c)); }
void nan_flt(void) { double a = nd(), b = nd(); A(nan_(a) || nan_(b)); E(!(a < b)); }
void interval(void) { double l = nd(), u = nd(); A(!(u <= l) && finite_(u - l)); E(l < u && l <= u && finite_(l) && finite_(u) && !nan_(l) && !nan_(u)); }
void between_finite(void) { double l = nd(), u = nd(), x = nd(); A(finite_(l) && finite_(u) && !nan_(x) && !(x < l) && !(u < x)); E(finite_(x)); }
void clamp(void) { double x = nd(), l = nd(), u = nd(); A(!nan_(x) && l < u); double r = fclamp(x, l, u); E(!nan_(r) && !(r < l) && !(u < r)); }
void mid(void) { double l = nd(), u = nd(); A(l < u && finite_(u - l)); double m = l / ofbits(4611686018427387904ULL) + u / ofbits(4611686018427387904ULL); E(!nan_(m) && !(m < l) && !(u < m)); }
void ends(void) { double l = nd(), u = nd(); A(l < u); E(!(u < l) && !(l < l) && !(u < u)); }
void add_not_nan(void) { double x = nd(), y = nd(); A(!nan_(x) && finite_(y)); E(!nan_(x + y)); }
void finite_not_nan(void) { double x = nd(); A(finite_(x)); E(!nan_(x)); }
void half_not_nan(void) { double x = nd(); A(!nan_(x)); E(!nan_(x / ofbits(4611686018427387904ULL))); }
void mul_unit(void) { double x = nd(), t = nd(); A(finite_(x) && unit(t)); E(finite_(x * t)); }
void unit_mul(void) { double x = nd(), t = nd(); A(finite_(x) && unit(t)); E(finite_(t * x)); }
void mul_not_nan(void) { double x = nd(), t = nd(); A(finite_(x) && finite_(t)); E(!nan_(x * t)); }
void weights(void) { double t = nd(); u64 b = bits(t); A(b == 4598175219545276416ULL || b == 4602678819172646912ULL || b == 4604930618986332160ULL || b == 4608308318706860032ULL); E(finite_(t) && unit(ofbits(4607182418800017408ULL) - t)); }
void pert(void) { double t = nd(); A(!nan_(t) && !(t < ofbits(13815242216921733530ULL)) && !(ofbits(4591870180066957722ULL) < t)); E(unit(t)); }
void pert_range(void) { double a = ofbits(13815242216921733530ULL), b = ofbits(4591870180066957722ULL); E(a < b && finite_(b - a) && a <= b); }
