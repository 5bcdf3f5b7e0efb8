// conformance driver: streams over a FILE, writing, and virtual buffers
#include "common.h"
#include <estd/iostream.h>
#include <estd/ostream.h>
#include <estd/sstream.h>
#include <cstdio>
#include <cerrno>

namespace {
struct Dev { std::string t; size_t room = 0; bool hic = false; };
ssize_t dev_write(void* c, const char* p, size_t n) { Dev& d = *(Dev*)c; size_t k = std::min(n, d.room - d.t.size()); d.t.append(p, k); if (d.hic && k < n) { d.hic = false; d.room = 100000; } if (!k && n) { errno = ENOSPC; return 0; } return k; }
typedef estd::posix_streambuf<char> SB;
typedef estd::internal::basic_streambuf_wrapped<SB> VB;
struct Base : Obj { Dev d; FILE* f; char buf[4096];
    Base(bool full, int room)
    {
        d.room = room; cookie_io_functions_t io = { nullptr, dev_write, nullptr, nullptr };
        f = fopencookie(&d, "w", io);
        if (full) setvbuf(f, buf, _IOFBF, sizeof buf); else setvbuf(f, nullptr, _IONBF, 0);
    }
    ~Base() { fclose(f); }
    bool lost = false;       // told to hand over more than the device takes: what the file has then is nobody's promise
    size_t all() { return d.t.size() + (f->_IO_write_ptr - f->_IO_write_base); }
    void losing(const std::string& o) { if (o == "flush" || o == "sync") lost = all() > d.room; if (o == "endl" && f->_IO_buf_end - f->_IO_buf_base > 1) lost = all() + 1 > d.room; }
    J seen(bool good) { if (lost) return J::obj().set("lost", true).set("good", good);  std::string all = d.t + std::string(f->_IO_write_base, f->_IO_write_ptr); return J::obj().set("out", codes(all)).set("dev", (int)d.t.size()).set("good", good); }
};
bool raw(Base* b, estd::streambuf* v, SB* s, const std::string& o, const J& a, J& r)
{
    if (o == "sputc") { char c = (char)a.n(0); r = (int)(v ? v->sputc(c) : s->sputc(c)); return true; }
    if (o == "sputn") { std::string t = a[0].str(); r = (int)(v ? v->sputn(t.data(), t.size()) : s->sputn(t.data(), t.size())); return true; }
    if (o == "sync") { r = v ? v->pubsync() : s->pubsync(); return true; }
    if (o == "fputs") { r = fputs(a[0].str().c_str(), b->f) >= 0; return true; }
    return false;
}
struct X : Base
{
    estd::posix_ostream<char> s;
    X(bool full, int room) : Base(full, room), s(*f) {}
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0; losing(o);
        bool ub = s.flags() & estd::ios_base::unitbuf; size_t more = o == "put" || o == "chr" ? 1 : o == "write" || o == "str" ? a[0].str().size() : o == "num" ? std::to_string(a.n(0)).size() : 0;
        if (ub && (more || o == "write" || o == "str") && f->_IO_buf_end - f->_IO_buf_base > 1 && s.good()) lost = lost || all() + more > d.room;
        if (o == "put") s.put((char)a.n(0));
        else if (o == "chr") s << (char)a.n(0);
        else if (o == "write") { std::string t = a[0].str(); s.write(t.data(), t.size()); }
        else if (o == "str") { std::string t = a[0].str(); s << t.c_str(); }
        else if (o == "num") s << a.n(0);
        else if (o == "flush") s.flush();
        else if (o == "endl") s << estd::endl;
        else if (o == "clear") s.clear();
        else if (o == "unit") { if (a[0].i) estd::unitbuf(s); else estd::nounitbuf(s); }
        else return raw(this, nullptr, s.rdbuf(), o, a, r);
        return true;
    }
    J obs() override { return seen(s.good()); }
};
struct V : Base
{
    VB v;
    V(bool full, bool hic, int room) : Base(full, room), v(*f) { d.hic = hic; }
    bool op(const std::string& o, const J& a, J& r) override { losing(o); return raw(this, &v, nullptr, o, a, r); }
    J obs() override { return seen(true); }
};
template <int N> struct VS : Obj
{
    typedef estd::layer1::basic_stringbuf<char, N + 1> S; typedef estd::internal::basic_streambuf_wrapped<S&> W;
    S s; W v;
    VS() : v(s) {}
    bool op(const std::string& o, const J& a, J& r) override { return raw(nullptr, &v, nullptr, o, a, r); }
    J obs() override { return J::obj().set("out", codes(s.str().clock(), s.str().size())).set("dev", (int)s.str().size()).set("good", true); }
};
}
Obj* make(const J& c)
{
    const std::string& k = c[0].s; int n = c.n(1);
    if (k == "full" || k == "none") return new X(k == "full", n);
    if (k == "vfull" || k == "vnone" || k == "vhic") return new V(k == "vfull", k == "vhic", n);
    switch (n) { case 0: return new VS<0>; case 1: return new VS<1>; case 3: return new VS<3>; case 5: return new VS<5>; case 99: return new VS<99>; }
    return nullptr;
}
J end_report() { return 0; }
