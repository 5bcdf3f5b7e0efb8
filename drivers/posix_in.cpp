// conformance driver: streams over a FILE, reading
#include "common.h"
#include <estd/iostream.h>
#include <estd/istream.h>
#include <cstdio>
#include <cerrno>

namespace {
struct Dev { std::string t; size_t at = 0, piece = 0; bool seeks = true; };
ssize_t dev_read(void* c, char* p, size_t n) { Dev& d = *(Dev*)c; if (d.piece && n > d.piece) n = d.piece; if (n > d.t.size() - d.at) n = d.t.size() - d.at; memcpy(p, d.t.data() + d.at, n); d.at += n; return n; }
int dev_seek(void* c, off64_t* o, int whence)
{
    Dev& d = *(Dev*)c;
    if (!d.seeks) { errno = ESPIPE; return -1; }
    off64_t n = *o + (whence == SEEK_CUR ? (off64_t)d.at : whence == SEEK_END ? (off64_t)d.t.size() : 0);
    if (n < 0 || n > (off64_t)d.t.size()) { errno = EINVAL; return -1; }
    d.at = n; *o = n; return 0;
}
typedef estd::posix_streambuf<char> SB;
typedef estd::internal::basic_streambuf_wrapped<SB> VB;
struct X : Obj
{
    Dev d; FILE* f; estd::posix_istream<char>* s; VB* v;
    X(const J& c)
    {
        d.t = c[1].str(); if (c[0].s == "pipe") { d.piece = 2; d.seeks = false; }
        cookie_io_functions_t io = { dev_read, nullptr, dev_seek, nullptr };
        f = fopencookie(&d, "r", io);
        if (c[0].s == "none") setvbuf(f, nullptr, _IONBF, 0);
        s = new estd::posix_istream<char>(*f); v = new VB(*f);
    }
    ~X() { delete s; delete v; fclose(f); }
    int at() { return (int)(d.at - (f->_IO_read_end - f->_IO_read_ptr)); }
    J two(J v) { J r = J::arr(); r.add(v).add((int)s->gcount()); return r; }
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0;
        if (o == "get") { int c = s->get(); r = two(c); }
        else if (o == "peek") { int c = s->peek(); r = two(c); }
        else if (o == "read")
        {
            int n = a.n(0); char* p = (char*)malloc(n ? n : 1);
            s->read(p, n); int k = (int)s->gcount();
            r = two(k < 0 || k > n ? J(k) : codes(std::string(p, k))); free(p);
        }
        else if (o == "sgetn" || o == "vgetn")
        {
            int n = a.n(0); char* p = (char*)malloc(n ? n : 1);
            estd::streambuf& vb = *v;
            int k = (int)(o == "sgetn" ? s->rdbuf()->sgetn(p, n) : vb.sgetn(p, n));
            r = k < 0 || k > n ? J(k) : codes(std::string(p, k)); free(p);
        }
        else if (o == "getline")
        {
            int n = a.n(0); char* p = (char*)malloc(n); memset(p, 1, n);
            if (a.n(1) == 10) s->getline(p, n); else s->getline(p, n, (char)a.n(1));
            int k = (int)s->gcount();
            bool at = k <= n - 1 && p[k] == 0 && (k == 0 || p[k - 1] != 1);
            int len = at ? k : k - 1;
            if (len < 0 || len > n - 1 || p[len] != 0) r = two(J("bad")); else r = two(codes(std::string(p, len)));
            free(p);
        }
        else if (o == "ignore") { if (a.n(1) == -1) { if (a.n(0) == 1) s->ignore(); else s->ignore(a.n(0)); } else s->ignore(a.n(0), a.n(1)); r = (int)s->gcount(); }
        else if (o == "clear") s->clear();
        else if (o == "ws") *s >> estd::ws;
        else if (o == "char") { char c = 1; *s >> c; r = s->fail() ? -1 : (int)(unsigned char)c; if (s->fail() && c != 1) r = -2; }
        else if (o == "num") { int n = -5; *s >> n; r = s->fail() ? -1 : n; }
        else if (o == "sync") s->sync();
        else if (o == "sgetc") r = (int)s->rdbuf()->sgetc();
        else if (o == "sbumpc") r = (int)s->rdbuf()->sbumpc();
        else if (o == "snextc") r = (int)s->rdbuf()->snextc();
        else if (o == "loop")
        {
            if (at() == (int)d.t.size()) return false;
            J all = J::arr(); int n = 0;
            typedef typename std::remove_reference<decltype(*s->rdbuf())>::type B;
            for (estd::istreambuf_iterator<B> i(*s->rdbuf()), e; !i.equal(e) && n < 400; ++i, n++) all.add((int)*i);
            r = all;
        }
        else if (o == "fgetc") r = fgetc(f);
        else return false;
        return true;
    }
    J obs() override
    {
        J o = J::obj();
        typedef estd::ios_base B;
        auto x = s->rdstate();
        int n = (x & B::badbit ? 1 : 0) | (x & B::failbit ? 2 : 0) | (x & B::eofbit ? 4 : 0);
        if (x & ~(B::badbit | B::failbit | B::eofbit)) n = 99;
        // where the file is: what the device gave, less what stdio has not handed on
        o.set("pos", at()).set("st", n).set("good", s->good()).set("fail", s->fail()).set("bad", s->bad()).set("eof", s->eof()).set("ok", (bool)*s);
        return o;
    }
};
}
Obj* make(const J& c) { return new X(c); }
J end_report() { return 0; }
