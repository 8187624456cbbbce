// G05: scripts of calls on matrices, through the class of gmatlib.h or (mode
// "c") through its C functions, linked with the library as it is built.
#include "gmatlib.h"
#include "script.hpp"
#include <memory>

extern "C" {
#include "matrix_c.h"
}

using ngineer::Matrix;

// The handles that are alive, seen at the calls of the library themselves.
static std::set<void *> live;

extern "C" {
#define NEW(decl, call) \
    void *__real_##decl; \
    void *__wrap_##decl \
    { \
        void *p = __real_##call; \
        if (p && !live.insert(p).second) misuse("a handle in use was returned"); \
        return p; \
    }
static void *use(void *p, const char *what)
{
    if (!live.count(p)) misuse(what);
    return p;
}
NEW(new_double_matrix(unsigned r, unsigned c), new_double_matrix(r, c))
NEW(new_double_identity_matrix(unsigned n), new_double_identity_matrix(n))
NEW(multiply_matrix(void *a, void *b), multiply_matrix(use(a, "multiply"), use(b, "multiply")))
NEW(augment_with(void *a, void *b), augment_with(use(a, "augment"), use(b, "augment")))
NEW(subset(void *a, unsigned b, unsigned c, unsigned d, unsigned e), subset(use(a, "subset"), b, c, d, e))
NEW(transpose(void *a), transpose(use(a, "transpose")))
NEW(clone_double_matrix(void *a), clone_double_matrix(use(a, "clone")))
#define PLAIN(type, decl, call) \
    type __real_##decl; \
    type __wrap_##decl { return __real_##call; }
PLAIN(unsigned, inplace_row_scale(void *p, unsigned r, double s), inplace_row_scale(use(p, "row scale"), r, s))
PLAIN(unsigned, inplace_scale(void *p, double s), inplace_scale(use(p, "scale"), s))
PLAIN(unsigned, inplace_row_add(void *p, unsigned a, unsigned b), inplace_row_add(use(p, "row add"), a, b))
PLAIN(unsigned, inplace_scaled_row_add(void *p, unsigned a, unsigned b, double s), inplace_scaled_row_add(use(p, "scaled row add"), a, b, s))
PLAIN(double, trace(void *p), trace(use(p, "trace")))
PLAIN(unsigned, try_inplace_invert(void *p), try_inplace_invert(use(p, "invert")))
PLAIN(unsigned, index_mut_double_matrix(void *p, unsigned i, unsigned j, double v), index_mut_double_matrix(use(p, "assign"), i, j, v))
PLAIN(double, index_double_matrix(void *p, unsigned i, unsigned j), index_double_matrix(use(p, "read"), i, j))
void __real_free_double_matrix(void *p);
void __wrap_free_double_matrix(void *p)
{
    if (!live.erase(p)) misuse("a handle that is not alive was freed");
    __real_free_double_matrix(p);
}
}

static Matrix by_value(Matrix m) { return m; }

static std::string failure(const std::exception &e)
{
    // a message of at least two words
    return strchr(e.what(), ' ') ? std::string("ex ") + e.what() : std::string("ex-without-message");
}

static std::string no_breaks(std::string s)
{
    for (char &c : s)
        if (c == '\n' || c == ';') c = ' ';
    return s;
}

struct Slots
{
    std::vector<std::unique_ptr<Matrix>> o;
    Slots() : o(4) {}

    void put(unsigned k, Matrix m)
    {
        if (o[k]) *o[k] = m;
        else o[k].reset(new Matrix(m));
    }

    std::string run(const Words &w)
    {
        const std::string &op = w[0];
        auto u = [&](int i) { return num(w[i]); };
        auto x = [&](int i) -> Matrix & { return *o[u(i)]; };
        try
        {
            if (op == "new") put(u(1), Matrix(u(2), u(3)));
            else if (op == "ident") put(u(1), Matrix::Identity(u(2)));
            else if (op == "copy")
            {
                Matrix m(x(2));
                o[u(1)].reset(new Matrix(m));
            }
            else if (op == "assign") x(1) = x(2);
            else if (op == "drop") o[u(1)].reset();
            else if (op == "rscale") x(1).inplace_row_scale(u(2), real(w[3]));
            else if (op == "scale") x(1).inplace_scale(real(w[2]));
            else if (op == "radd") x(1).inplace_row_add(u(2), u(3));
            else if (op == "rsadd") x(1).inplace_scaled_row_add(u(2), u(3), real(w[4]));
            else if (op == "mul") put(u(1), x(2) * x(3));
            else if (op == "aug") put(u(1), x(2) | x(3));
            else if (op == "sub") put(u(1), x(2).subset(u(3), u(4), u(5), u(6)));
            else if (op == "trans") put(u(1), x(2).transpose());
            else if (op == "chain") put(u(1), (x(2) * x(3)) | by_value(x(4)));
            else if (op == "many")
            {
                std::vector<Matrix> v;
                for (int i = 0; i < 5; i++) v.push_back(x(2));
                v.erase(v.begin());
                v[1].inplace_scale(3.0);
                v[0] = v[2];
                put(u(1), v[0]);
            }
            else if (op == "trace") return bits(x(1).trace());
            else if (op == "inv") x(1).inplace_invert();
            else if (op == "set") return x(1).set({ u(2), u(3) }, real(w[4])) ? "ok" : "ex";
            else if (op == "get") return bits(x(1)[{ u(2), u(3) }]);
            else if (op == "dump")
            {
                unsigned r = u(2), c = u(3);
                const Matrix &m = x(1);
                std::string s = m.is_square() ? "square" : "oblong";
                for (unsigned i = 0; i <= r; i++)
                    for (unsigned j = 0; j <= c; j++)
                        if (i < r || j < c) s += " " + bits(m[{ i, j }]);
                std::stringstream ss;
                ss << m;
                std::string t = ss.str();
                for (char &ch : t)
                    if (ch == ';') ch = '/';
                return s + " " + t;
            }
            else return "unknown";
            return "ok";
        }
        catch (const std::exception &e)
        {
            return no_breaks(failure(e));
        }
    }

    void clear()
    {
        for (auto &p : o) p.reset();
    }
};

struct Handles
{
    std::vector<void *> o;
    Handles() : o(4) {}

    const char *put(unsigned k, void *p)
    {
        if (!p) return "ex";
        if (o[k]) c_free(o[k]);
        o[k] = p;
        return "ok";
    }

    std::string run(const Words &w)
    {
        const std::string &op = w[0];
        auto u = [&](int i) { return num(w[i]); };
        auto x = [&](int i) { return o[u(i)]; };
        auto flag = [](unsigned f) { return f == 1 ? "ok" : f == 0 ? "ex" : "odd status"; };
        if (op == "new") return put(u(1), c_new(u(2), u(3)));
        if (op == "ident") return put(u(1), c_ident(u(2)));
        if (op == "copy" || op == "assign") return put(u(1), c_clone(x(2)));
        if (op == "drop")
        {
            c_free(x(1));
            o[u(1)] = nullptr;
            return "ok";
        }
        if (op == "rscale") return flag(c_row_scale(x(1), u(2), real(w[3])));
        if (op == "scale") return flag(c_scale(x(1), real(w[2])));
        if (op == "radd") return flag(c_row_add(x(1), u(2), u(3)));
        if (op == "rsadd") return flag(c_scaled_row_add(x(1), u(2), u(3), real(w[4])));
        if (op == "mul") return put(u(1), c_mul(x(2), x(3)));
        if (op == "aug") return put(u(1), c_aug(x(2), x(3)));
        if (op == "sub") return put(u(1), c_sub(x(2), u(3), u(4), u(5), u(6)));
        if (op == "trans") return put(u(1), c_trans(x(2)));
        if (op == "chain")
        {
            void *p = c_mul(x(2), x(3));
            if (!p) return "ex";
            void *q = c_aug(p, x(4));
            c_free(p);
            return put(u(1), q);
        }
        if (op == "many")
        {
            void *p = c_clone(x(2));
            return put(u(1), p);
        }
        if (op == "trace") return bits(c_trace(x(1)));
        if (op == "inv") return c_invert(x(1));
        if (op == "set") return flag(c_set(x(1), u(2), u(3), real(w[4])));
        if (op == "get") return bits(c_get(x(1), u(2), u(3)));
        if (op == "dump")
        {
            unsigned r = u(2), c = u(3);
            std::string s = "c";
            for (unsigned i = 0; i <= r; i++)
                for (unsigned j = 0; j <= c; j++)
                    if (i < r || j < c) s += " " + bits(c_get(x(1), i, j));
            return s;
        }
        return "unknown";
    }

    void clear()
    {
        for (auto &p : o)
            if (p) c_free(p);
    }
};

template <class S> static std::string all(const std::vector<Words> &ops)
{
    std::string s;
    {
        S slots;
        for (auto &w : ops)
        {
            if (!s.empty()) s += ';';
            s += slots.run(w);
        }
        slots.clear();
    }
    if (!live.empty()) s += ";" + std::to_string(live.size()) + " handles are left";
    live.clear();
    return s;
}

int main(int argc, char **argv)
{
    return scripts(argc, argv, [](bool c_mode, const std::vector<Words> &ops) { return c_mode ? all<Handles>(ops) : all<Slots>(ops); });
}
