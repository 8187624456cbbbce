void *c_context(int standard);
void c_const(void *ctx, const char *name, double v);
const char *c_solve_equation(const char *eq, const void *ctx, double guess, double min, double max, double margin, unsigned limit);
void *c_builder(const char *eq, const void *ctx);
int c_constrain(void *b, const char *eq);
int c_full(void *b);
void *c_build(void *b);
void c_debug(void *b);
int c_specify(void *s, const char *var, double guess, double min, double max);
const char *c_solve(void *s, double margin, unsigned limit);
void c_free_context(void *p);
void c_free_builder(void *p);
void c_free_system(void *p);
void c_free_string(char *p);
const char *c_status(int status);
