// Stream input and output of safe values (C16), with fault-injecting stream buffers.
#ifndef VF_SIO_HPP
#define VF_SIO_HPP
#include "mon.hpp"
#include <sstream>
#include <iomanip>
#include <locale>
namespace mon {
extern std::vector<int> iolog;
struct IOAct { constexpr IOAct() = default; void operator()(const sn::safe_numerics_error & e, const char * m){ iolog.push_back(m && *m ? code_of(e) : -1); } };
using IgnoreLog = sn::exception_policy<IOAct, IOAct, IOAct, sn::ignore_exception>;

struct Boom {};
// delivers text in small chunks and fails at a chosen position
template<class C> struct FaultBuf : std::basic_streambuf<C> {
    typedef std::basic_streambuf<C> B; typedef typename B::traits_type Tr;
    std::basic_string<C> s; size_t pos, chunk, at; int mode; bool fired;   // mode 0 none, 1 end of file, 2 throw
    FaultBuf(const std::basic_string<C> & t, size_t c, size_t a, int m) : s(t), pos(0), chunk(c), at(a), mode(m), fired(false) {}
    typename Tr::int_type underflow() override {
        if(this->gptr() < this->egptr()) return Tr::to_int_type(*this->gptr());
        if(mode && pos >= at){ fired = true; if(mode == 2) throw Boom(); return Tr::eof(); }
        if(pos >= s.size()) return Tr::eof();
        size_t n = std::min(chunk, s.size() - pos); if(mode && pos + n > at) n = at - pos; if(n == 0) n = 1;
        C * p = &s[pos]; this->setg(p, p, p + n); pos += n; return Tr::to_int_type(*p);
    }
    size_t consumed() const { return pos - (this->egptr() - this->gptr()); }
};
struct Parsed { bool ok, neg; i128 v; size_t end; };   // greedy decimal integer after optional white space
inline Parsed parse_text(const std::string & t, size_t i){
    Parsed p; p.ok = false; p.neg = false; p.v = 0; p.end = i;
    while(i < t.size() && strchr(" \t\n\v\f\r", t[i]) && t[i]) ++i;
    if(i < t.size() && (t[i] == '-' || t[i] == '+')){ p.neg = t[i] == '-'; ++i; }
    for(; i < t.size() && t[i] >= '0' && t[i] <= '9'; ++i){ p.ok = true; if(p.v < HUGE_ / 16) p.v = p.v * 10 + (t[i] - '0'); }
    if(p.neg) p.v = -p.v; p.end = i; return p;
}
template<class C> std::basic_string<C> widen(const std::string & s){ return std::basic_string<C>(s.begin(), s.end()); }
inline std::string gen_text(Rng & r, const TInfo & t){
    static const char * ws[] = {"", "", "", " ", "  ", "\t", "\n", " \r\n"}; std::string s = ws[r.below(8)];
    switch(r.below(12)){
    case 0: { static const char * j[] = {"", "-", "+", "x", "abc", "--5", "+-5", "-x1", ".5", "\\n", "e3", "0x10", "-0x10", "  -", "99999999999999999999999", "-99999999999999999999999", "18446744073709551616", "18446744073709551615", "-9223372036854775809", "00000000000000000000000007", "-0", "+0", "1e5", "12,3", "7 8"}; return s + j[r.below(25)]; }
    case 1: { int n = (int)r.below(6); for(int i = 0; i < n; ++i) s += "0123456789+- x."[r.below(15)]; return s; }
    }
    i128 v;
    switch(r.below(6)){
    case 0: v = t.lo + r.range(-3, 3); break; case 1: v = t.hi + r.range(-3, 3); break;
    case 2: v = r.range(t.lo, t.hi) + r.range(-2, 2) * ((i128)1 << (8 * (1 + r.below(4)))); break;
    case 3: v = r.range(t.blo, t.bhi); break; case 4: v = r.range(-300, 300); break;
    default: v = r.range(t.lo, t.hi);
    }
    if(v >= 0 && r.below(8) == 0) s += "+";
    s += str(v);
    static const char * tail[] = {"", "", "", " ", "\n", "x", " 12", ",", ".5", "-", "+1"}; return s + tail[r.below(11)];
}
// the stream is set up by manipulators in the same expression, next to a using directive
template<class C, class T> void read_by_manipulators(std::basic_istream<C> & is, T & x, int base){
    using namespace boost::safe_numerics;
    switch(base){ case 0: is >> std::dec >> x; break; case 1: is >> std::hex >> x; break; case 2: is >> std::oct >> x; break; default: is >> std::setbase(0) >> x; }
}
template<class T, class C> struct SIO {
    static std::string id; static TInfo t;
    static bool ign(){ return std::is_same<typename sn::get_exception_policy<T>::type, IgnoreLog>::value; }
    // one read
    static void read(const std::string & text, size_t chunk, size_t at, int mode, std::ios_base::iostate mask, std::ios_base::iostate pre, i128 before, const char * what){
        FaultBuf<C> buf(widen<C>(text), chunk, at, mode); std::basic_istream<C> is(&buf);
        bool prefail = false;
        if(pre){ is.setstate(pre); prefail = true; }
        try { is.exceptions(mask); } catch(...) { return; }
        T x = maker<T>::make(before); i128 after = before; iolog.clear();
        Outcome o; bool foreign = false;
        observe([&](Outcome & q){ try { is >> x; } catch(const std::ios_base::failure &){ foreign = true; } catch(const Boom &){ foreign = true; } q.v = raw(x); }, o);
        after = raw(x);
        Parsed p = parse_text(mode ? text.substr(0, std::min(at, text.size())) : text, 0);
        // did the fault strike inside the token (with a throwing buffer the integer is then unreadable)?
        bool valid = p.ok && !prefail && !(mode == 2 && buf.fired) && p.v >= t.lo && p.v <= t.hi;
        bool unclear = p.ok && p.neg && p.v == 0 && !t.sgn;   // "-0" into an unsigned variable: either answer is right
        std::string in = std::string(what) + " '" + text + "'" + (mode ? (mode == 1 ? " end of file at " : " buffer throws at ") + std::to_string(at) : "") + (mask ? " exceptions " + std::to_string((int)mask) : "") + (pre ? " state " + std::to_string((int)pre) : "");
        std::string d = show(o) + (foreign ? " (iostream exception)" : "") + ", holds " + str(after) + ", held " + str(before) + ", declared " + str(t.lo) + ".." + str(t.hi);
        Outcome c = o; if(foreign) c.k = VALUE; if(o.k == VALUE && !iolog.empty()) { c.k = ERROR; c.code = DOM; }
        count(c, true); if(foreign){ ++feature["iostream exception"]; }
        if(o.k == OTHER || o.k == TRAP){ fail(id, "undefined-behaviour", in, d); return; }
        bool reported = o.k == ERROR || foreign || !iolog.empty();
        if(buf.fired) ++feature[mode == 1 ? "injected end of file reached" : "injected exception reached"];
        if(foreign && !(mask & is.rdstate())){ fail(id, "unexpected-exception", in, d); return; }
        if(reported){
            ++feature["read reported"];
            bool out_of_range_ignored = ign() && p.ok && !is.fail();   // an ignored range error stores the converted value
            if(after != before && !out_of_range_ignored) fail(id, "object-changed-by-failed-read", in, d);
            if(after < t.lo || after > t.hi) if(!ign()) fail(id, "object-outside-range", in, d);
            if(valid && !unclear && !foreign) fail(id, "valid-input-rejected", in, d);
            if(o.k == ERROR && o.code != DOM && o.code != POS && o.code != NEGO) fail(id, "wrong-error-code", in, d);
            if(o.k == ERROR && p.ok && !is.fail() && (p.v > t.hi ? o.code != POS : o.code == POS)) fail(id, "wrong-error-code", in, d);
            for(int l : iolog) if(l != DOM && l != POS && l != NEGO) fail(id, "wrong-error-code", in, d);
        } else {
            ++feature["read accepted"];
            if(!valid && !unclear) fail(id, "invalid-input-accepted", in, d);
            else if(after != p.v) fail(id, "wrong-value-stored", in, d + ", text says " + str(p.v));
            else if(!mode && buf.consumed() != p.end) fail(id, "wrong-stream-position", in, d + ", consumed " + std::to_string(buf.consumed()) + " of " + std::to_string(p.end));
        }
        if(total.n % 4001 == 5) sample(id + ": " + in + " -> " + d);
    }
    // write, compare with the text of the number, read back
    static void round(i128 v, Rng & r){
        T x = maker<T>::make(v), y = maker<T>::make(v == t.lo ? t.hi : t.lo); i128 got = 0; std::string text, ref;
        int fmt = (int)r.below(6); i128 w = 0;
        Outcome o; observe([&](Outcome & q){
            std::basic_stringstream<C> ss; std::basic_stringstream<C> rs;
            for(auto * s : {&ss, &rs}) switch(fmt){ case 1: *s << std::setw(12) << std::setfill((C)' '); break; case 2: *s << std::showpos; break; case 3: if(v >= 0) *s << std::hex; break; case 4: if(v >= 0) *s << std::oct; break; }
            ss << x; if(t.sgn || t.bhi <= 65535) rs << (long long)v; else rs << (unsigned long long)v;
            auto a = ss.str(), b = rs.str(); text.assign(a.begin(), a.end()); ref.assign(b.begin(), b.end());
            ss >> y; got = raw(y); q.v = got; w = raw(x); }, o);
        count(o, true); ++feature["round trip"];
        std::string in = "write and read " + str(v) + " format " + std::to_string(fmt);
        if(o.k != VALUE) fail(id, "round-trip-failed", in, show(o) + " text '" + text + "'");
        else if(text != ref) fail(id, "wrong-text", in, "'" + text + "' instead of '" + ref + "'");
        else if(got != v || w != v) fail(id, "round-trip-changed-value", in, "'" + text + "' read as " + str(got));
    }
    // several values from one stream, read until the first error
    static void sequence(Rng & r){
        std::string text; std::vector<i128> want; int n = 1 + (int)r.below(6);
        for(int i = 0; i < n; ++i){ i128 v = r.below(6) ? r.range(t.lo, t.hi) : t.hi + r.range(0, 2); text += str(v); text += " \n\t"[r.below(3)]; want.push_back(v); }
        FaultBuf<C> buf(widen<C>(text), 1 + r.below(5), 0, 0); std::basic_istream<C> is(&buf);
        T x = maker<T>::make(t.lo); i128 model = t.lo;
        for(int i = 0; i < n; ++i){
            iolog.clear(); Outcome o; observe([&](Outcome & q){ is >> x; q.v = raw(x); }, o); count(o, true);
            bool fits = want[i] >= t.lo && want[i] <= t.hi; if(fits) model = want[i];
            if(!fits && ign()) return;
            std::string in = "sequence '" + text + "' element " + std::to_string(i);
            if((o.k == VALUE) != fits) { fail(id, fits ? "valid-input-rejected" : "invalid-input-accepted", in, show(o)); return; }
            if(raw(x) != model){ fail(id, fits ? "wrong-value-stored" : "object-changed-by-failed-read", in, "holds " + str(raw(x)) + ", model " + str(model)); return; }
            if(!fits && want[i] > t.bhi) return;   // the stream itself has failed
            if(!is) return;
        }
        ++feature["sequence"];
    }
    // number bases, prefixes, white space that isn't skipped and digit grouping: the text means what it means when the stream reads
    // it into the widest built-in integer of the same signedness
    struct Group : std::numpunct<C> { C do_thousands_sep() const override { return (C)'\''; } std::string do_grouping() const override { return "\3"; } };
    static void formats(Rng & r){
        static const std::locale grouped(std::locale::classic(), new Group);
        int base = (int)r.below(4), loc = r.below(3) == 0; bool skip = r.below(3) != 0;
        i128 v; switch(r.below(4)){ case 0: v = t.lo + r.range(-2, 2); break; case 1: v = t.hi + r.range(-2, 2); break; case 2: v = r.range(t.lo, t.hi); break; default: v = r.range(-3000, 3000); }
        std::string txt; { std::ostringstream os; u128 m = v < 0 ? -(u128)v : (u128)v; int k = (int)r.below(5), B = k == 0 ? 16 : k == 1 ? 8 : 10; std::string d; do { d.insert(d.begin(), "0123456789abcdef"[(int)(m % B)]); m /= B; } while(m);
            if(loc && r.below(4)) for(int i = (int)d.size() - (r.below(12) ? 3 : 2); i > 0; i -= 3) d.insert(i, 1, '\'');
            if(r.below(2) && B == 16) d = (r.below(2) ? "0x" : "0X") + d; else if(B == 8 && r.below(2)) d = "0" + d;
            if(r.below(12) == 0) for(char & c : d) c = (char)toupper(c);
            static const char * ws[] = {"", "", "", " ", "\n\t "}; static const char * tail[] = {"", " ", "x", "8", "'", "f", ","}; txt = ws[r.below(5)] + std::string(v < 0 ? "-" : r.below(6) ? "" : "+") + d + tail[r.below(7)]; }
        auto prep = [&](std::basic_ios<C> & s, std::ios_base & f){ if(loc) s.imbue(grouped); f.setf(base == 0 ? std::ios_base::dec : base == 1 ? std::ios_base::hex : base == 2 ? std::ios_base::oct : std::ios_base::fmtflags(0), std::ios_base::basefield); if(!skip) f.unsetf(std::ios_base::skipws); };
        std::basic_istringstream<C> is(widen<C>(txt)), ref(widen<C>(txt)); prep(is, is); prep(ref, ref);
        size_t first = 0; if(skip) first = txt.find_first_not_of(" \n\t"); bool minus = txt[first] == '-';
        i128 want = 0; bool ok; if(t.sgn || t.bhi < 65536){ long long x = 0; ok = !!(ref >> x); want = x; } else { unsigned long long x = 0; ok = !minus && !!(ref >> x); want = (i128)x; }
        bool valid = ok && want >= t.lo && want <= t.hi;
        i128 before = r.range(t.lo, t.hi); T x = maker<T>::make(before); iolog.clear();
        bool man = r.below(2);
        Outcome o; observe([&](Outcome & q){ if(man) read_by_manipulators(is, x, base); else is >> x; q.v = raw(x); }, o); i128 after = raw(x);
        static const char * bn[] = {"dec", "hex", "oct", "any base"};
        auto in = [&]{ return std::string("read '") + txt + "' " + bn[base] + (skip ? "" : " noskipws") + (loc ? " grouped" : ""); };
        auto d = [&]{ return show(o) + ", holds " + str(after) + ", held " + str(before) + ", built-in reads " + (ok ? str(want) : "nothing"); };
        bool reported = o.k == ERROR || !iolog.empty(); Outcome c = o; if(reported){ c.k = ERROR; if(!c.code) c.code = DOM; } count(c, true);
        if(o.k == OTHER || o.k == TRAP){ fail(id, "undefined-behaviour", in(), d()); return; }
        if(is.flags() != ref.flags()) fail(id, "format-flags-changed", in(), d());
        if(reported){
            if(after != before && !(ign() && ok)) fail(id, "object-changed-by-failed-read", in(), d());
            if(valid && !(minus && want == 0 && !t.sgn)) fail(id, "valid-input-rejected", in(), d());
        } else {
            ++feature[std::string("read accepted: ") + bn[base] + (loc ? " grouped" : "")];
            if(!valid && !(minus && after == 0)) fail(id, "invalid-input-accepted", in(), d());
            else if(valid && after != want) fail(id, "wrong-value-stored", in(), d());
            else if(valid && is.peek() != ref.peek()) fail(id, "wrong-stream-position", in(), d());
        }
        // written and read back in the same way
        if(skip && r.below(2)){
            i128 w = r.range(t.lo, t.hi); if(w < 0 && base) return;      // negative numbers have no text of their own in other bases
            std::basic_stringstream<C> a, b; prep(a, a); prep(b, b); bool sb = r.below(2); if(sb || base == 3){ a << std::showbase; b << std::showbase; } if(base == 3){ a << std::hex; b << std::hex; }
            T y = maker<T>::make(w), z = maker<T>::make(w == t.lo ? t.hi : t.lo); i128 got = 0;
            Outcome q; observe([&](Outcome &){ a << y; if(base == 3) a.unsetf(std::ios_base::basefield); a >> z; got = raw(z); }, q); count(q, true); ++feature["round trip in other formats"];
            if(t.sgn || t.bhi < 65536) b << (long long)w; else b << (unsigned long long)w;
            std::string in2 = "write and read " + str(w) + " " + bn[base] + (loc ? " grouped" : "");
            if(q.k != VALUE) fail(id, "round-trip-failed", in2, show(q)); else if(a.str() != b.str()) fail(id, "wrong-text", in2, ""); else if(got != w) fail(id, "round-trip-changed-value", in2, "read as " + str(got));
        }
    }
    static void go(const char * name, int n){
        id = name; t = tinfo<T>(); progress(id); Rng r(seed ^ hash_str(name));
        std::vector<i128> V = values(t.lo, t.hi, r, n / 4, 300);
        for(i128 v : V) round(v, r);
        const std::ios_base::iostate masks[] = { std::ios_base::goodbit, std::ios_base::goodbit, std::ios_base::failbit, std::ios_base::badbit, std::ios_base::failbit | std::ios_base::badbit, std::ios_base::eofbit, std::ios_base::eofbit | std::ios_base::failbit | std::ios_base::badbit };
        for(int i = 0; i < n * 4 && fails_in_site < 6; ++i){
            std::string s = gen_text(r, t); i128 b = r.range(t.lo, t.hi);
            read(s, 1 + r.below(8), 0, 0, masks[r.below(7)], std::ios_base::goodbit, b, "read");
            // every failure point of this text
            if(i % 4 == 0) for(size_t k = 0; k <= s.size() && k < 24; ++k) read(s, 1 + r.below(8), k, 1 + (int)(r.next() & 1), masks[r.below(7)], std::ios_base::goodbit, b, "read");
            if(i % 8 == 0) for(auto pre : {std::ios_base::failbit, std::ios_base::badbit, std::ios_base::eofbit}) read(s, 100, 0, 0, std::ios_base::goodbit, pre, b, "read");
            sequence(r);
            for(int k = 0; k < 4; ++k) formats(r);
        }
    }
};
template<class T, class C> std::string SIO<T,C>::id; template<class T, class C> TInfo SIO<T,C>::t;
template<class L> void lit_out(const char * name, i128 v){
    progress(name); Outcome o; std::string s, w; observe([&](Outcome &){ std::ostringstream os; os << L(); s = os.str(); std::wostringstream ws; ws << L(); auto x = ws.str(); w.assign(x.begin(), x.end()); }, o);
    count(o, true); if(o.k != VALUE || s != str(v) || w != str(v)) fail(name, "wrong-text", "", show(o) + " '" + s + "'");
}
} // mon
#endif
