/* the robust predicates are K&R C: compile them as such */
#include <geometrix/algorithm/predicates.hpp>
double vp_o2(int k, double*a, double*b, double*c) { return k == 0 ? orient2d(a, b, c) : k == 1 ? orient2dexact(a, b, c) : k == 2 ? orient2dslow(a, b, c) : orient2dfast(a, b, c); }
double vp_o3(int k, double*a, double*b, double*c, double*d) { return k == 0 ? orient3d(a, b, c, d) : k == 1 ? orient3dexact(a, b, c, d) : k == 2 ? orient3dslow(a, b, c, d) : orient3dfast(a, b, c, d); }
double vp_ic(int k, double*a, double*b, double*c, double*d) { return k == 0 ? incircle(a, b, c, d) : k == 1 ? incircleexact(a, b, c, d) : k == 2 ? incircleslow(a, b, c, d) : incirclefast(a, b, c, d); }
double vp_is(int k, double*a, double*b, double*c, double*d, double*e) { return k == 0 ? insphere(a, b, c, d, e) : k == 1 ? insphereexact(a, b, c, d, e) : k == 2 ? insphereslow(a, b, c, d, e) : inspherefast(a, b, c, d, e); }
void vp_pinit(void) { exactinit(); }
/* expansion arithmetic: k selects the routine */
int vp_sum(int k, int n, double*e, int m, double*f, double*h) { switch (k) { case 0: return expansion_sum(n, e, m, f, h); case 1: return expansion_sum_zeroelim1(n, e, m, f, h); case 2: return expansion_sum_zeroelim2(n, e, m, f, h); case 3: return fast_expansion_sum(n, e, m, f, h); case 4: return fast_expansion_sum_zeroelim(n, e, m, f, h); case 5: return linear_expansion_sum(n, e, m, f, h); default: return linear_expansion_sum_zeroelim(n, e, m, f, h); } }
int vp_grow(int k, int n, double*e, double b, double*h) { return k ? grow_expansion_zeroelim(n, e, b, h) : grow_expansion(n, e, b, h); }
int vp_scale(int k, int n, double*e, double b, double*h) { return k ? scale_expansion_zeroelim(n, e, b, h) : scale_expansion(n, e, b, h); }
int vp_compress(int n, double*e, double*h) { return compress(n, e, h); }
double vp_estimate(int n, double*e) { return estimate(n, e); }
