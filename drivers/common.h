// Shared conformance-driver runtime: reads a script (one JSON array per line:
// ["op",[args...]]), drives an object built from the real library, and writes
// one JSON event per line: {"op":..,"a":..,"r":..,"o":..}.  "skip":1 is written
// instead of r/o when the object's public state does not meet the operation's
// documented precondition.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <memory>
#include <algorithm>
#include <functional>
#include <unistd.h>

struct J
{
    enum T { I, B, S, A, O } t = I;
    long long i = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::string> k;    // object keys

    J() {}
    J(int v) : t(I), i(v) {}
    J(unsigned v) : t(I), i(v) {}
    J(long v) : t(I), i(v) {}
    J(unsigned long v) : t(I), i((long long)v) {}
    J(long long v) : t(I), i(v) {}
    J(bool v) : t(B), i(v) {}
    J(const char* v) : t(S), s(v) {}
    J(const std::string& v) : t(S), s(v) {}
    J(const std::vector<int>& v) : t(A) { for (int x : v) a.push_back(J(x)); }
    J(const std::vector<J>& v) : t(A), a(v) {}
    static J arr() { J j; j.t = A; return j; }
    static J obj() { J j; j.t = O; return j; }
    J& add(const J& v) { a.push_back(v); return *this; }
    J& set(const char* key, const J& v) { k.push_back(key); a.push_back(v); return *this; }

    const J& operator[](size_t n) const { return a.at(n); }
    int n(size_t idx) const { return (int)a.at(idx).i; }
    size_t size() const { return a.size(); }
    // array of ints -> std::string of those char codes
    std::string str() const
    {
        if (t == S) return s;
        std::string r; for (auto& x : a) r += (char)x.i; return r;
    }
    std::vector<int> ints() const { std::vector<int> r; for (auto& x : a) r.push_back((int)x.i); return r; }

    void write(std::string& o) const
    {
        switch (t)
        {
            case I: o += std::to_string(i); break;
            case B: o += i ? "true" : "false"; break;
            case S: o += '"'; o += s; o += '"'; break;
            case A:
                o += '[';
                for (size_t x = 0; x < a.size(); x++) { if (x) o += ','; a[x].write(o); }
                o += ']';
                break;
            case O:
                o += '{';
                for (size_t x = 0; x < a.size(); x++)
                { if (x) o += ','; o += '"'; o += k[x]; o += "\":"; a[x].write(o); }
                o += '}';
                break;
        }
    }
};

// char codes of a byte range, as unsigned
inline J codes(const char* p, size_t n)
{
    J j = J::arr();
    for (size_t x = 0; x < n; x++) j.add((int)(unsigned char)p[x]);
    return j;
}
inline J codes(const std::string& s) { return codes(s.data(), s.size()); }

struct Parser
{
    const char* p;
    void ws() { while (*p == ' ' || *p == '\n' || *p == '\r') p++; }
    J val()
    {
        ws();
        if (*p == '[')
        {
            J j = J::arr(); p++; ws();
            if (*p == ']') { p++; return j; }
            for (;;)
            {
                j.a.push_back(val()); ws();
                if (*p == ',') { p++; continue; }
                if (*p == ']') { p++; return j; }
                fprintf(stderr, "script parse error near: %.40s\n", p); exit(70);
            }
        }
        if (*p == '"')
        {
            J j; j.t = J::S; p++;
            while (*p && *p != '"') j.s += *p++;
            if (*p) p++;
            return j;
        }
        if (!strncmp(p, "true", 4)) { p += 4; return J(true); }
        if (!strncmp(p, "false", 5)) { p += 5; return J(false); }
        char* e; long long v = strtoll(p, &e, 10);
        if (e == p) { fprintf(stderr, "script parse error near: %.40s\n", p); exit(70); }
        p = e;
        return J(v);
    }
};

struct Obj
{
    virtual ~Obj() {}
    // perform op with args, result in r.  return false when the precondition
    // does not hold (nothing was done)
    virtual bool op(const std::string& name, const J& a, J& r) = 0;
    virtual J obs() = 0;
};

// provided by each driver
Obj* make(const J& cfg);
J end_report();

// ---- instrumented element ---------------------------------------------
struct Tr
{
    static int live, errs;
    static constexpr uint32_t M = 0x5A5AA5A5u;
    int v; uint32_t m;
    void chk() const { if (m != M) errs++; }
    Tr() : v(0), m(M) { live++; }
    Tr(int x) : v(x), m(M) { live++; }
    Tr(const Tr& o) : v(o.v), m(M) { o.chk(); live++; }
    Tr(Tr&& o) : v(o.v), m(M) { o.chk(); o.v = -9; live++; }
    Tr& operator=(const Tr& o) { chk(); o.chk(); v = o.v; return *this; }
    Tr& operator=(Tr&& o) { chk(); o.chk(); v = o.v; if (&o != this) o.v = -9; return *this; }
    ~Tr() { chk(); m = 0xDEADDEADu; live--; }
    bool operator==(const Tr& o) const { return v == o.v; }
    bool operator!=(const Tr& o) const { return v != o.v; }
    bool operator<(const Tr& o) const { return v < o.v; }
    bool operator>(const Tr& o) const { return v > o.v; }
};

#ifdef DRIVER_MAIN
int Tr::live = 0;
int Tr::errs = 0;

#ifdef VF_GCOV
extern "C" void __gcov_dump();
#endif

int main(int argc, char** argv)
{
    static char obuf[1 << 16];
    setvbuf(stdout, obuf, _IOFBF, sizeof(obuf));
    bool lineflush = argc > 1 && !strcmp(argv[1], "-l");
    char* line = nullptr; size_t cap = 0; ssize_t len;
    Obj* o = nullptr;
    std::string out;
    // The index of the event being executed lives in a file the runner reads
    // after a crash.
    while ((len = getline(&line, &cap, stdin)) > 0)
    {
        Parser ps{line};
        J cmd = ps.val();
        const std::string& op = cmd[0].s;
        const J& a = cmd[1];
        out = "{\"op\":\"" + op + "\",\"a\":";
        a.write(out);
        if (lineflush) { fflush(stdout); }
        if (op == "reset")
        {
            delete o; Tr::live = 0; Tr::errs = 0;
            o = make(a);
            if (!o) { fprintf(stderr, "bad reset: %s\n", line); return 70; }
            out += ",\"r\":0,\"o\":";
            o->obs().write(out);
        }
        else if (op == "end")
        {
            delete o; o = nullptr;
            out += ",\"r\":";
            end_report().write(out);
            out += ",\"o\":0";
        }
        else
        {
            if (!o) { fprintf(stderr, "op before reset: %s\n", line); return 70; }
            J r;
            if (o->op(op, a, r))
            {
                out += ",\"r\":"; r.write(out);
                out += ",\"o\":"; o->obs().write(out);
            }
            else out += ",\"skip\":1";
        }
        out += "}\n";
        fwrite(out.data(), 1, out.size(), stdout);
        if (lineflush) fflush(stdout);
    }
    fflush(stdout);
    delete o;
    free(line);
#ifdef VF_GCOV
    __gcov_dump();
#endif
    _exit(0);
}
#include <unistd.h>
#endif
