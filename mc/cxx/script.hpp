// What both drivers share: scripts are read from a file, one to a line, and
// one line of results is written per script. When a script kills the driver,
// the number of complete lines tells which one it was.
#pragma once
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>

static FILE *out;

// Ends the driver with a reason on the line of the current script.
[[noreturn]] static inline void misuse(const char *what)
{
    fprintf(out, "misuse: %s", what);
    fflush(out);
    _exit(3);
}

static inline std::vector<std::string> split(const std::string &s, char by)
{
    std::vector<std::string> v(1);
    for (char c : s)
    {
        if (c == by) v.emplace_back();
        else v.back() += c;
    }
    return v;
}

static inline unsigned num(const std::string &s) { return (unsigned)strtoul(s.c_str(), nullptr, 10); }

// Doubles travel as the bits of their value.
static inline double real(const std::string &s)
{
    uint64_t bits = strtoull(s.c_str(), nullptr, 16);
    double d;
    memcpy(&d, &bits, 8);
    return d;
}

static inline std::string bits(double d)
{
    uint64_t b;
    memcpy(&b, &d, 8);
    char t[32];
    snprintf(t, sizeof t, "%016" PRIx64, b);
    return t;
}

typedef std::vector<std::string> Words;

// Runs every script of the file `argv[2]`, writing to `argv[3]`; `argv[1]` is the mode.
template <class Run> static int scripts(int argc, char **argv, Run run)
{
    if (argc != 4) return 2;
    bool c_mode = !strcmp(argv[1], "c");
    FILE *in = fopen(argv[2], "r");
    out = fopen(argv[3], "w");
    if (!in || !out) return 2;
    char *line = nullptr;
    size_t cap = 0;
    ssize_t n;
    while ((n = getline(&line, &cap, in)) > 0)
    {
        std::string s(line, line[n - 1] == '\n' ? n - 1 : n);
        std::vector<Words> ops;
        for (auto &op : split(s, ';')) ops.push_back(split(op, ' '));
        std::string results = run(c_mode, ops);
        fprintf(out, "%s\n", results.c_str());
        // the lines so far have to survive a crash
        fflush(out);
    }
    free(line);
    fclose(in);
    fclose(out);
    return 0;
}
