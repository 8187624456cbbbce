/* The header seen by a C compiler. */
#include "geqslib.h"
#include "equations_c.h"

void *c_context(int standard) { return standard ? new_default_context_hash_map() : new_context_hash_map(); }
void c_const(void *ctx, const char *name, double v) { add_const_to_ctx(ctx, name, v); }
const char *c_solve_equation(const char *eq, const void *ctx, double guess, double min, double max, double margin, unsigned limit)
{
    return solve_equation(eq, ctx, guess, min, max, margin, limit);
}
void *c_builder(const char *eq, const void *ctx) { return (void *)new_system_builder(eq, ctx); }
int c_constrain(void *b, const char *eq) { return try_constrain_with(b, eq); }
int c_full(void *b) { return is_fully_constrained(b); }
void *c_build(void *b) { return (void *)build_system(b); }
void c_debug(void *b) { debug_system_builder(b); }
int c_specify(void *s, const char *var, double guess, double min, double max) { return specify_variable(s, var, guess, min, max); }
const char *c_solve(void *s, double margin, unsigned limit) { return solve_system(s, margin, limit); }
void c_free_context(void *p) { free_context_hash_map(p); }
void c_free_builder(void *p) { free_system_builder(p); }
void c_free_system(void *p) { free_system(p); }
void c_free_string(char *p) { free_solution_string(p); }

const char *c_status(int status)
{
    if (status == (int)ConstraintError) return "error";
    if (status == (int)NotConstrained) return "no";
    if (status == (int)Constrained) return "yes";
    return status == 2 ? "over" : "odd";
}
