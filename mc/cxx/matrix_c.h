void *c_new(unsigned r, unsigned c);
void *c_ident(unsigned n);
void *c_clone(void *p);
void c_free(void *p);
unsigned c_row_scale(void *p, unsigned r, double s);
unsigned c_scale(void *p, double s);
unsigned c_row_add(void *p, unsigned a, unsigned b);
unsigned c_scaled_row_add(void *p, unsigned a, unsigned b, double s);
void *c_mul(void *a, void *b);
void *c_aug(void *a, void *b);
void *c_sub(void *p, unsigned r1, unsigned c1, unsigned r2, unsigned c2);
void *c_trans(void *p);
double c_trace(void *p);
const char *c_invert(void *p);
unsigned c_set(void *p, unsigned i, unsigned j, double v);
double c_get(void *p, unsigned i, unsigned j);
