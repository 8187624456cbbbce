/* The header seen by a C compiler. */
#include "gmatlib.h"
#include "matrix_c.h"

void *c_new(unsigned r, unsigned c) { return new_double_matrix(r, c); }
void *c_ident(unsigned n) { return new_double_identity_matrix(n); }
void *c_clone(void *p) { return clone_double_matrix(p); }
void c_free(void *p) { free_double_matrix(p); }
unsigned c_row_scale(void *p, unsigned r, double s) { return inplace_row_scale(p, r, s); }
unsigned c_scale(void *p, double s) { return inplace_scale(p, s); }
unsigned c_row_add(void *p, unsigned a, unsigned b) { return inplace_row_add(p, a, b); }
unsigned c_scaled_row_add(void *p, unsigned a, unsigned b, double s) { return inplace_scaled_row_add(p, a, b, s); }
void *c_mul(void *a, void *b) { return multiply_matrix(a, b); }
void *c_aug(void *a, void *b) { return augment_with(a, b); }
void *c_sub(void *p, unsigned r1, unsigned c1, unsigned r2, unsigned c2) { return subset(p, r1, c1, r2, c2); }
void *c_trans(void *p) { return transpose(p); }
double c_trace(void *p) { return trace(p); }
unsigned c_set(void *p, unsigned i, unsigned j, double v) { return index_mut_double_matrix(p, i, j, v); }
double c_get(void *p, unsigned i, unsigned j) { return index_double_matrix(p, i, j); }

const char *c_invert(void *p)
{
    unsigned status = try_inplace_invert(p);
    if (status == (unsigned)Ok) return "ok";
    if (status == (unsigned)DeterminantWasZero) return "ex determinant";
    if (status == (unsigned)SingularValueWasZero) return "ex single";
    if (status == (unsigned)ZeroDuringInversion) return "ex division";
    if (status == (unsigned)UnknownGmatlibError) return "ex unknown";
    return "ex other";
}
