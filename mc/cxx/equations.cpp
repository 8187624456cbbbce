// E11: scripts of calls on contexts, builders and systems, through the classes
// of geqslib.h or (mode "c") through its C functions, linked with the library
// as it is built. In texts of scripts "~" stands for a blank.
#include "geqslib.h"
#include "script.hpp"
#include <memory>

extern "C" {
#include "equations_c.h"
}

using namespace ngineer;

static std::set<void *> contexts, builders, systems, strings;

static void *use(std::set<void *> &s, const void *p, const char *what)
{
    if (!s.count((void *)p)) misuse(what);
    return (void *)p;
}

static void *spend(std::set<void *> &s, void *p, const char *what)
{
    if (!s.erase(p)) misuse(what);
    return p;
}

template <class P> static P fresh(std::set<void *> &s, P p)
{
    if (p && !s.insert((void *)p).second) misuse("a handle in use was returned");
    return p;
}

extern "C" {
void *__real_new_context_hash_map();
void *__wrap_new_context_hash_map() { return fresh(contexts, __real_new_context_hash_map()); }
void *__real_new_default_context_hash_map();
void *__wrap_new_default_context_hash_map() { return fresh(contexts, __real_new_default_context_hash_map()); }
void __real_add_const_to_ctx(void *c, const char *n, double v);
void __wrap_add_const_to_ctx(void *c, const char *n, double v) { __real_add_const_to_ctx(use(contexts, c, "constant"), n, v); }
const char *__real_solve_equation(const char *e, const void *c, double g, double lo, double hi, double m, unsigned l);
const char *__wrap_solve_equation(const char *e, const void *c, double g, double lo, double hi, double m, unsigned l)
{
    return fresh(strings, __real_solve_equation(e, use(contexts, c, "solve equation"), g, lo, hi, m, l));
}
const void *__real_new_system_builder(const char *e, const void *c);
const void *__wrap_new_system_builder(const char *e, const void *c) { return fresh(builders, __real_new_system_builder(e, use(contexts, c, "new builder"))); }
int __real_try_constrain_with(void *b, const char *e);
int __wrap_try_constrain_with(void *b, const char *e) { return __real_try_constrain_with(use(builders, b, "constrain"), e); }
int __real_is_fully_constrained(void *b);
int __wrap_is_fully_constrained(void *b) { return __real_is_fully_constrained(use(builders, b, "constrained")); }
const void *__real_build_system(void *b);
const void *__wrap_build_system(void *b) { return fresh(systems, __real_build_system(spend(builders, b, "build"))); }
void __real_debug_system_builder(const void *b);
void __wrap_debug_system_builder(const void *b) { __real_debug_system_builder(use(builders, b, "debug")); }
int __real_specify_variable(void *s, const char *v, double g, double lo, double hi);
int __wrap_specify_variable(void *s, const char *v, double g, double lo, double hi) { return __real_specify_variable(use(systems, s, "specify"), v, g, lo, hi); }
const char *__real_solve_system(void *s, double m, unsigned l);
const char *__wrap_solve_system(void *s, double m, unsigned l) { return fresh(strings, __real_solve_system(spend(systems, s, "solve"), m, l)); }
#define FREE(name, set) \
    void __real_##name(void *p); \
    void __wrap_##name(void *p) { __real_##name(spend(set, p, #name " of a handle that is not alive")); }
FREE(free_context_hash_map, contexts)
FREE(free_system_builder, builders)
FREE(free_system, systems)
FREE(free_solution_string, strings)
}

static std::string text(std::string s)
{
    for (char &c : s)
        if (c == '~') c = ' ';
    return s;
}

static std::string take(const char *p)
{
    if (!p) return "null";
    std::string s(p);
    c_free_string(const_cast<char *>(p));
    for (char &c : s)
        if (c == '\n') c = ' ';
    return s;
}

struct Objects
{
    std::vector<std::unique_ptr<ContextHashMap>> c;
    std::vector<std::unique_ptr<SystemBuilder>> b;
    std::vector<std::unique_ptr<ConstrainedSystem>> s;
    Objects() : c(3), b(3), s(3) {}

    std::string run(const Words &w)
    {
        const std::string &op = w[0];
        auto u = [&](int i) { return num(w[i]); };
        try
        {
            if (op == "context")
            {
                if (u(2)) c[u(1)].reset(new ContextHashMap());
                else c[u(1)].reset(new ContextHashMap(ContextHashMap::newEmpty()));
            }
            else if (op == "const") c[u(1)]->add_const(text(w[2]), real(w[3]));
            else if (op == "fcontext") c[u(1)].reset();
            else if (op == "builder") b[u(1)].reset(new SystemBuilder(text(w[3]), *c[u(2)]));
            else if (op == "constrain") return c_status(b[u(1)]->try_constrain_with(text(w[2])));
            else if (op == "full") return c_status(b[u(1)]->is_fully_constrained());
            else if (op == "debug") b[u(1)]->show_system_builder();
            // the builder stays, spent
            else if (op == "build") s[u(1)].reset(new ConstrainedSystem(b[u(2)]->build_system()));
            else if (op == "fbuilder") b[u(1)].reset();
            else if (op == "specify") return s[u(1)]->specify_variable(text(w[2]), real(w[3]), real(w[4]), real(w[5])) == 1 ? "ok" : "ex refused";
            else if (op == "solve") return take(s[u(1)]->solve_system(real(w[2]), u(3)));
            else if (op == "fsystem") s[u(1)].reset();
            // into another place; what is left behind is destroyed
            else if (op == "mcontext") c[u(1)].reset(new ContextHashMap(std::move(*c[u(1)])));
            else if (op == "mbuilder") b[u(1)].reset(new SystemBuilder(std::move(*b[u(1)])));
            else if (op == "msystem") s[u(1)].reset(new ConstrainedSystem(std::move(*s[u(1)])));
            else return "unknown";
            return "ok";
        }
        catch (const std::exception &e)
        {
            std::string t = e.what();
            for (char &ch : t)
                if (ch == '\n' || ch == ';') ch = ' ';
            return t.find(' ') != std::string::npos ? "ex " + t : "ex-without-message";
        }
    }

    void clear() {}
};

struct Handles
{
    std::vector<void *> c, b, s;
    Handles() : c(3), b(3), s(3) {}

    std::string run(const Words &w)
    {
        const std::string &op = w[0];
        auto u = [&](int i) { return num(w[i]); };
        std::string done = "ok";
        auto put = [&](std::vector<void *> &v, void *p, void (*release)(void *)) {
            if (v[u(1)] && p) release(v[u(1)]);
            if (p) v[u(1)] = p;
            return p ? "ok" : "ex null";
        };
        if (op == "context") return put(c, c_context(u(2)), c_free_context);
        if (op == "const") c_const(c[u(1)], text(w[2]).c_str(), real(w[3]));
        else if (op == "fcontext")
        {
            c_free_context(c[u(1)]);
            c[u(1)] = nullptr;
        }
        else if (op == "equation") return take(c_solve_equation(text(w[2]).c_str(), c[u(1)], real(w[3]), real(w[4]), real(w[5]), real(w[6]), u(7)));
        else if (op == "builder") return put(b, c_builder(text(w[3]).c_str(), c[u(2)]), c_free_builder);
        else if (op == "constrain") return c_status(c_constrain(b[u(1)], text(w[2]).c_str()));
        else if (op == "full") return c_status(c_full(b[u(1)]));
        else if (op == "debug") c_debug(b[u(1)]);
        else if (op == "build")
        {
            void *p = c_build(b[u(2)]);
            b[u(2)] = nullptr;
            return put(s, p, c_free_system);
        }
        else if (op == "fbuilder")
        {
            if (b[u(1)]) c_free_builder(b[u(1)]);
            b[u(1)] = nullptr;
        }
        else if (op == "specify") return c_specify(s[u(1)], text(w[2]).c_str(), real(w[3]), real(w[4]), real(w[5])) == 1 ? "ok" : "ex refused";
        else if (op == "solve")
        {
            void *p = s[u(1)];
            s[u(1)] = nullptr;
            return take(c_solve(p, real(w[2]), u(3)));
        }
        else if (op == "fsystem")
        {
            if (s[u(1)]) c_free_system(s[u(1)]);
            s[u(1)] = nullptr;
        }
        else return "unknown";
        return done;
    }

    void clear()
    {
        for (auto p : c) if (p) c_free_context(p);
        for (auto p : b) if (p) c_free_builder(p);
        for (auto p : s) if (p) c_free_system(p);
    }
};

template <class S> static std::string all(const std::vector<Words> &ops)
{
    std::string r;
    {
        S o;
        for (auto &w : ops)
        {
            if (!r.empty()) r += ';';
            r += o.run(w);
        }
        o.clear();
    }
    size_t left = contexts.size() + builders.size() + systems.size() + strings.size();
    if (left) r += ";" + std::to_string(left) + " handles are left";
    contexts.clear(), builders.clear(), systems.clear(), strings.clear();
    return r;
}

int main(int argc, char **argv)
{
    return scripts(argc, argv, [](bool c_mode, const std::vector<Words> &ops) { return c_mode ? all<Handles>(ops) : all<Objects>(ops); });
}
