#include "common.h"
#include <cassert>
#include <estd/string.h>
#include <estd/vector.h>
#include <estd/sstream.h>
#include <estd/ostream.h>
#include <estd/istream.h>
#include <estd/iterator.h>

namespace {
static const unsigned char ALPHA[5] = { 97, 255, 98, 10, 128 };
struct State { int pos = 0, ready = 0; bool closed = false; };
struct SrcImpl : estd::internal::impl::streambuf_base<estd::char_traits<char>, void>
{
    State* st; SrcImpl(State* s) : st(s) {}
    char xsgetc() const { return (char)ALPHA[st->pos % 5]; }
protected:
    int_type xin_avail() const { return st->ready - st->pos; }
    estd::streamsize showmanyc() const { int n = st->ready - st->pos; return n > 0 ? n : st->closed ? -1 : 0; }
    void gbump(int n) { st->pos += n; }
    int_type underflow() { return st->ready > st->pos ? traits_type::to_int_type(xsgetc()) : traits_type::eof(); }
    estd::streamsize xsgetn(char* s, estd::streamsize n) { int i = 0; for (; i < n && st->pos < st->ready; i++) { s[i] = xsgetc(); st->pos++; } return i; }
};
typedef estd::internal::streambuf<SrcImpl> Src;
struct Base : Obj
{
    J fix(int left, const J& out, bool bad, int now) { return J::obj().set("left", left).set("out", out).set("bad", bad).set("now", now); }
};
template <class SB> struct In : Base
{
    typedef estd::istreambuf_iterator<SB> It; typedef typename It::proxy Px;
    char* text; int n; State st; std::unique_ptr<SB> sb; It it[2]; std::unique_ptr<Px> px; int use = 0;
    In(int n) : text(new char[n ? n : 1]), n(n) { for (int i = 0; i < n; i++) text[i] = (char)ALPHA[i % 5]; }
    ~In() { px.reset(); sb.reset(); delete[] text; }
    int left() { return std::is_same<SB, Src>::value ? st.ready - st.pos : av(); }
    int av() { int k = (int)sb->in_avail(); return k < 0 ? 0 : k; }
    static It mk(SB& s, int u) { return u & 1 ? It(s) : It(&s); }
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0; int i = a.size() ? a.n(0) - 1 : 0;
        if (o == "new") { it[i].~It(); new (&it[i]) It(mk(*sb, use++)); }
        else if (o == "def") { it[i].~It(); new (&it[i]) It(); }
        else if (o == "cpy") it[i] = It(it[1 - i]);
        else if (o == "pre") { if (&++it[i] != &it[i]) r = "not itself"; }
        else if (o == "post") { It end; bool e = it[i] == end; int c = e ? -1 : (int)*it[i]; Px p = it[i]++; px.reset(new Px(p)); r = c; }
        else if (o == "deref") { if (it[i] == It()) return false; r = (int)*it[i]; }
        else if (o == "cmp")
        {
            It e; r = J::arr(); r.add(it[0] == it[1]); r.add(it[0] == e); r.add(it[1].equal(e));
            if ((it[0] != it[1]) == (bool)r[0].i || (e == it[0]) != (bool)r[1].i || (e != it[1]) == (bool)r[2].i) r.add("inconsistent");
        }
        else if (o == "pcmp") { if (!px) return false; bool b = px->equal(it[i]); r = b == it[i].equal(*px) ? J(b) : J("inconsistent"); }
        else if (o == "pderef") { if (!px || px->equal(It())) return false; r = (int)(unsigned char)**px; }
        else if (o == "bump") r = (int)sb->sbumpc();
        else if (o == "loop") { if (std::is_same<SB, Src>::value && !st.closed) return false; J l = J::arr(); int k = 0; for (It e; it[i] != e && k < 600; ++it[i], k++) l.add((int)*it[i]); r = l; }
        else if (o == "supply") { if (!std::is_same<SB, Src>::value || st.closed || st.ready + a.n(0) > n) return false; st.ready += a.n(0); }
        else if (o == "close") { if (!std::is_same<SB, Src>::value) return false; st.closed = true; }
        else return false;
        return true;
    }
    J obs() override { return fix(left(), J::arr(), false, (int)sb->sgetc()); }
};
template <unsigned N> struct OB : Base
{
    typedef estd::layer1::stringbuf<N, false> SB; typedef estd::experimental::ostreambuf_iterator<SB> It;
    SB sb; std::unique_ptr<It> it; int k = 0;
    OB() : it(new It(&sb)) {}
    int len() { return (int)sb.str().size(); }
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0;
        if (o == "oput")
        {
            int n = len(); char c = (char)a.n(1);
            if (a[0].s == "=") *it = c; else if (a[0].s == "pre") ++*it = c; else (*it)++ = c;
            r = len() == n + 1;
        }
        else if (o == "onone") { It e; int n = len(); e = (char)a.n(0); r = e.failed() && len() == n; }
        else if (o == "ofresh") { estd::detail::basic_ostream<SB&> os(sb); it.reset(k++ & 1 ? new It(&sb) : new It(&sb)); }
        else return false;
        return true;
    }
    J obs() override { auto& s = sb.str(); J j = J::arr(); for (int i = 0; i < (int)s.size(); i++) j.add((int)(unsigned char)s[i]); return fix(0, j, it->failed(), 0); }
};
struct OS : Base
{
    typedef estd::layer1::ostringstream<512> S; typedef estd::experimental::ostream_iterator<int, S> It; typedef estd::experimental::ostream_iterator<const char*, S> Ct;
    S s; It it; Ct ct; OS() : it(s), ct(s) {}
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0;
        if (o == "ostr") { int v = a.n(1); const std::string& f = a[0].s; if (f == "=") it = v; else if (f == "star") *it = v; else if (f == "pre") *++it = v; else *it++ = v; }
        else if (o == "otext") { std::string t = a[0].str(); if (t.find('\0') != std::string::npos) return false; *ct++ = t.c_str(); }
        else return false;
        return true;
    }
    J obs() override { auto& t = s.rdbuf()->str(); J j = J::arr(); for (int i = 0; i < (int)t.size(); i++) j.add((int)(unsigned char)t[i]); return fix(0, j, !s.good(), 0); }
};
template <unsigned N> struct BK : Base
{
    typedef estd::layer1::vector<int, N> V; V v; estd::back_insert_iterator<V> it; BK() : it(v) {}
    bool op(const std::string& o, const J& a, J& r) override { if (o != "back" || v.size() >= N) return false; r = &(it = a.n(0)) == &it ? 0 : -1; return true; }
    J obs() override { J j = J::arr(); for (int i = 0; i < (int)v.size(); i++) j.add((int)v[i]); return fix(0, j, false, 0); }
};
struct Tri { int operator()(int x) const { return 3 * x + 1; } };
struct FI : Base
{
    int n, at = 0; int* raw; estd::experimental::filter_iterator<Tri, int*> it;
    static int* fill(int n) { int* p = new int[n + 1]; for (int i = 0; i <= n; i++) p[i] = i; return p; }
    FI(int n) : n(n), raw(fill(n)), it(estd::experimental::make_filter_iterator(Tri(), raw)) {}
    ~FI() { delete[] raw; }
    bool op(const std::string& o, const J& a, J& r) override
    {
        if (at >= n) return false;
        if (o == "fgo") { at++; if (a[0].s == "pre") { auto& q = ++it; r = at < n ? (int)*q : 0; if (&q != &it) r = -1; } else { auto q = it++; r = (int)*q; } }
        else if (o == "fat") r = (int)*it;
        else return false;
        return true;
    }
    J obs() override { return fix(0, J::arr(), false, 0); }
};
}
Obj* make(const J& c)
{
    const std::string& k = c[0].s; int n = c.n(1);
    if (k == "span") { typedef estd::detail::basic_ispanbuf<const char> SB; auto* p = new In<SB>(n); p->sb.reset(new SB(estd::span<const char>(p->text, n))); return p; }
    if (k == "str") { typedef estd::layer3::stringbuf SB; auto* p = new In<SB>(n); SB::size_type z = n; p->sb.reset(new SB(p->text, z, z)); return p; }
    if (k == "src") { auto* p = new In<Src>(n); p->sb.reset(new Src(&p->st)); return p; }
    if (k == "obuf") switch (n) { case 1: return new OB<1>; case 2: return new OB<2>; case 3: return new OB<3>; case 40: return new OB<40>; }
    if (k == "ostr") return new OS;
    if (k == "back") switch (n) { case 2: return new BK<2>; case 3: return new BK<3>; case 40: return new BK<40>; }
    if (k == "filt") return new FI(n);
    return nullptr;
}
J end_report() { return 0; }
