// Values and their written form, made independently of the library (P12).
#include "plan.h"
#include "recs.h"
#include <cmath>
#include <cinttypes>
namespace sim {
namespace {
template <class... A>
std::string pf(const char* f, A... a)
{
    char b[400];
    snprintf(b, sizeof b, f, a...);
    return b;
}
std::string quoted(const std::string& s)   // as the operations show strings
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c >= 0x20 && c < 0x7f && c != '\\' && c != '"') o += static_cast<char>(c);
        else o += pf("\\x%02x", c);
    }
    return o + "\"";
}
long long any(Rng& r, long long lo, long long hi)
{
    switch (r.below(6)) {
        case 0: return lo;
        case 1: return hi;
        case 2: return std::max(lo, std::min<long long>(hi, static_cast<long long>(r.below(12))));
        case 3: return std::max(lo, std::min<long long>(hi, -static_cast<long long>(r.below(1000))));
        default: {
            long long v = static_cast<long long>(r.next() >> r.below(64));
            if (r.chance(0.5)) v = -v;
            return v < lo || v > hi ? (hi - static_cast<long long>(r.below(100))) : v;
        }
    }
}
unsigned long long uany(Rng& r, unsigned long long hi)
{
    switch (r.below(4)) {
        case 0: return hi;
        case 1: return r.below(12);
        default: {
            unsigned long long v = r.next() >> r.below(64);
            return v > hi ? hi - r.below(100) : v;
        }
    }
}
std::string radix(unsigned long long v, unsigned b, bool upper)
{
    std::string s;
    const char* digits = upper ? "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ" : "0123456789abcdefghijklmnopqrstuvwxyz";
    do {
        s.insert(s.begin(), digits[v % b]);
        v /= b;
    } while (v);
    return s;
}
std::string letters(Rng& r, int lo, int hi)
{
    std::string s;
    for (int n = r.range(lo, hi); n > 0; --n) s += static_cast<char>('a' + r.below(26));
    return s;
}
double dbl(Rng& r)
{
    switch (r.below(4)) {
        case 0: return static_cast<double>(any(r, -1000000, 1000000)) / 8;
        case 1: return static_cast<double>(any(r, -9007199254740991ll, 9007199254740991ll));
        default: return std::ldexp(static_cast<double>(r.next() >> 11) * (r.chance(0.5) ? 1 : -1), r.range(-600, 600) - 53);
    }
}
float flt(Rng& r) { return r.chance(0.3) ? static_cast<float>(any(r, -100000, 100000)) / 16 : std::ldexp(static_cast<float>(r.next() >> 40) * (r.chance(0.5) ? 1.f : -1.f), r.range(-100, 100)); }
const char* const days[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
const char* const mons[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
std::string cut3(const char* s) { return std::string(s, 3); }
struct Rec {
    const char* id;
    bool contiguous_only;
    void (*make)(Rng&, std::string& text, std::string& want);
};
#define REC(id, ...) {id, false, [](Rng& r, std::string& t, std::string& w) { (void)r; __VA_ARGS__ }}
#define RECC(id, ...) {id, true, [](Rng& r, std::string& t, std::string& w) { (void)r; __VA_ARGS__ }}
const Rec recs[] = {
    REC("r.i8", { auto v = any(r, -128, 127); t = w = pf("%lld", v); }),
    REC("r.i16", { auto v = any(r, -32768, 32767); t = w = pf("%lld", v); }),
    REC("r.i32", { auto v = any(r, INT32_MIN, INT32_MAX); t = w = pf("%lld", v); if (v >= 0 && r.chance(0.2)) t = "+" + t; if (r.chance(0.1)) t.insert(v < 0 || t[0] == '+', "00"); }),
    REC("r.i64", { auto v = any(r, INT64_MIN, INT64_MAX); t = w = pf("%lld", v); }),
    REC("r.u8", { t = w = pf("%llu", uany(r, 255)); }),
    REC("r.u16", { t = w = pf("%llu", uany(r, 65535)); }),
    REC("r.u32", { t = w = pf("%llu", uany(r, UINT32_MAX)); }),
    REC("r.u64", { t = w = pf("%llu", uany(r, UINT64_MAX)); }),
    REC("r.x", { auto v = any(r, INT32_MIN, INT32_MAX); w = pf("%lld", v); t = std::string(v < 0 ? "-" : "") + (r.chance(0.5) ? r.chance(0.5) ? "0x" : "0X" : "") + radix(static_cast<unsigned long long>(v < 0 ? -v : v), 16, r.chance(0.5)); }),
    REC("r.x64", { auto v = uany(r, UINT64_MAX); w = pf("%llu", v); t = (r.chance(0.5) ? "0x" : "") + radix(v, 16, r.chance(0.5)); }),
    REC("r.o", { auto v = any(r, INT32_MIN, INT32_MAX); w = pf("%lld", v); t = std::string(v < 0 ? "-" : "") + (r.chance(0.3) ? "0o" : "") + radix(static_cast<unsigned long long>(v < 0 ? -v : v), 8, false); }),
    REC("r.b", { auto v = uany(r, UINT32_MAX); w = pf("%llu", v); t = (r.chance(0.3) ? "0b" : "") + radix(v, 2, false); }),
    REC("r.base", {
        auto v = any(r, INT64_MIN + 1, INT64_MAX);
        w = pf("%lld", v);
        auto u = static_cast<unsigned long long>(v < 0 ? -v : v);
        static const struct { const char* p; unsigned b; } k[] = {{"", 10}, {"0x", 16}, {"0X", 16}, {"0b", 2}, {"0B", 2}, {"0o", 8}, {"0", 8}};
        auto& x = k[r.below(7)];
        t = std::string(v < 0 ? "-" : "") + x.p + radix(u, x.b, r.chance(0.5));
    }),
    REC("r.f32", { float v = flt(r); t = pf("%.9g", static_cast<double>(v)); w = show_float(v); }),
    REC("r.f64", {
        if (r.chance(0.1)) { bool n = r.chance(0.5); t = std::string(n ? "-" : "") + (r.chance(0.5) ? "inf" : r.chance(0.5) ? "infinity" : "INF"); w = show_float(n ? -HUGE_VAL : HUGE_VAL); return; }
        if (r.chance(0.05)) { t = r.chance(0.5) ? "nan" : "NaN"; w = "nan"; return; }
        double v = dbl(r); t = pf(r.chance(0.5) ? "%.17g" : r.chance(0.5) ? "%.16e" : "%.25E", v); w = show_float(v);
        if (v > 0 && r.chance(0.1)) t = "+" + t;
    }),
    REC("r.f80", { long double v = static_cast<long double>(dbl(r)) + static_cast<long double>(r.below(1000)) / 7; t = pf("%.21Lg", v); w = show_float(v); }),
    REC("r.e", { double v = dbl(r); t = pf("%.17e", v); w = show_float(v); }),
    REC("r.fx", { double v = static_cast<double>(any(r, -1000000, 1000000)) / 1024; t = pf("%.12f", v); w = show_float(v); }),
    REC("r.a", { double v = dbl(r); t = pf(r.chance(0.5) ? "%a" : "%A", v); w = show_float(v); }),
    REC("r.a32", { float v = flt(r); t = pf("%a", static_cast<double>(v)); w = show_float(v); }),
    REC("r.bt", { bool v = r.chance(0.5); t = v ? "true" : "false"; w = v ? "1" : "0"; }),
    REC("r.bn", { bool v = r.chance(0.5); t = w = v ? "1" : "0"; }),
    REC("r.bb", { bool v = r.chance(0.5), u = r.chance(0.5); t = std::string(v ? "true" : "false") + " " + (u ? "1" : "0"); w = std::string(v ? "1" : "0") + " " + (u ? "1" : "0"); }),
    REC("r.c", { char v = static_cast<char>(r.range(33, 126)); t = v; w = pf("%d", v); }),
    REC("r.cc", { char v = static_cast<char>(r.range(33, 126)), u = static_cast<char>(r.range(32, 126)); t = v; t += u; w = pf("%d %d", v, u); if (u == ' ') { t = std::string(1, v) + "y"; w = pf("%d %d", v, 'y'); } }),
    REC("r.wc", { static const struct { const char* s; int v; } k[] = {{"x", 'x'}, {"\xc3\xa4", 0xe4}, {"\xe2\x82\xac", 0x20ac}, {"\xf0\x9f\x98\x80", 0x1f600}}; auto& x = k[r.below(4)]; t = x.s; w = pf("%d", x.v); }),
    REC("r.c32", { static const struct { const char* s; int v; } k[] = {{"x", 'x'}, {"\xc3\xa4", 0xe4}, {"\xe2\x82\xac", 0x20ac}, {"\xf0\x9f\x98\x80", 0x1f600}}; auto& x = k[r.below(4)]; t = x.s; w = pf("%d", x.v); }),
    REC("r.ws", {
        static const struct { const char* s; int v; } k[] = {{"x", 'x'}, {"\xc3\xa4", 0xe4}, {"\xe2\x82\xac", 0x20ac}, {"\xf0\x9f\x98\x80", 0x1f600}};
        w = "L";
        for (int n = r.range(1, r.chance(0.1) ? 300 : 9); n > 0; --n) { auto& x = k[r.below(4)]; t += x.s; w += pf("%d.", x.v); }
    }),
    REC("r.p", { auto a = letters(r, 2, 2), b = letters(r, 1, 3); t = a + b; w = quoted(a) + " " + quoted(b); }),
    REC("r.ip", { int a = r.range(100, 999), b = r.range(0, 99999); t = pf("%d%d", a, b); w = pf("%d %d", a, b); }),
    REC("r.set", { auto a = letters(r, 1, r.chance(0.1) ? 300 : 8); int b = r.range(0, 100000); t = a + pf("%d", b); w = quoted(a) + pf(" %d", b); }),
    REC("r.setn", { auto a = letters(r, 1, 8), b = letters(r, 1, 8) + (r.chance(0.5) ? " \xc3\xa4" : "") + letters(r, 1, 9); t = a + "=" + b + ";"; w = quoted(a) + " " + quoted(b); }),
    REC("r.cls", { auto a = letters(r, 1, 8); auto b = pf("%d", r.range(0, 100000)); t = a + b; w = quoted(a) + " " + quoted(b); }),
    REC("r.lit", { auto a = any(r, INT32_MIN, INT32_MAX), b = any(r, INT32_MIN, INT32_MAX); t = pf("(%lld,%lld)", a, b); w = pf("%lld %lld", a, b); }),
    REC("r.kv", { auto a = any(r, INT32_MIN, INT32_MAX); auto b = letters(r, 1, 9); t = pf("k=%lld;v=", a) + b; w = pf("%lld ", a) + quoted(b); }),
    REC("r.ulit", { auto a = any(r, INT32_MIN, INT32_MAX); auto b = letters(r, 1, 9); t = pf("größe=%lld→", a) + b; w = pf("%lld ", a) + quoted(b); }),
    REC("r.wcd", { auto a = any(r, 0, 0x10ffff); t = w = pf("%lld", a); }),
    REC("r.cd", { auto a = any(r, 0, 127); t = w = pf("%lld", a); }),
    REC("r.sc", { static const char* const k[] = {"x", "\xc3\xa4", "\xe2\x82\xac", "\xd0\xb6", " ", "7"}; std::string a = "a"; for (int i = 0; i < 3; ++i) a += k[r.below(6)]; int b = r.range(0, 9999); t = a + pf("%d", b); w = quoted(a) + pf(" %d", b); }),
    REC("r.ids", { int a = r.range(0, 9999), b = r.range(0, 9999), c = r.range(0, 9999); t = pf("%d/%d/%d", c, a, b); w = pf("%d %d %d", a, b, c); }),
    REC("r.esc", { int a = r.range(-9999, 9999); t = pf("{%d}", a); w = pf("%d", a); }),
    REC("r.fill", { int a = r.range(0, 999999); w = pf("%d", a); t = std::string(6 - w.size(), '*') + w; }),
    REC("r.lfill", { int a = r.range(0, 99999999); w = pf("%d", a); t = w + std::string(8 - w.size(), '_'); }),
    REC("r.ptr", { auto v = r.next() >> r.range(8, 60); t = "0x" + radix(v, 16, false); w = pf("%" PRIu64, v); }),
    REC("r.disc", { int a = r.range(-9999, 9999), b = r.range(-9999, 9999); t = pf("%d %d", a, b); w = pf("discard %d", b); }),
    REC("r.vec", {
        t = w = "[";
        for (int n = r.range(0, r.chance(0.1) ? 100 : 6), i = 0; i < n; ++i) { auto v = any(r, INT32_MIN, INT32_MAX); t += (i ? r.chance(0.5) ? ", " : "," : "") + pf("%lld", v); w += pf("%lld,", v); }
        t += "]"; w += "]";
    }),
    REC("r.vecf", {
        t = w = "[";
        for (int n = r.range(0, 5), i = 0; i < n; ++i) { auto v = dbl(r); t += (i ? ", " : "") + pf("%.17g", v); w += show_float(v) + ","; }
        t += "]"; w += "]";
    }),
    REC("r.seti", { t = w = "{"; int v = r.range(-100, 100); for (int n = r.range(0, 5), i = 0; i < n; ++i) { v += r.range(1, 50); t += (i ? ", " : "") + pf("%d", v); w += pf("%d,", v); } t += "}"; w += "}"; }),
    REC("r.map", { t = w = "{"; int v = r.range(-100, 100); for (int n = r.range(0, 5), i = 0; i < n; ++i) { v += r.range(1, 50); int k = r.range(-1000, 1000); t += (i ? ", " : "") + pf("%d: %d", v, k); w += pf("%d:%d,", v, k); } t += "}"; w += "}"; }),
    REC("r.pair", { int a = r.range(-9999, 9999); double b = dbl(r); t = pf("(%d, %.17g)", a, b); w = pf("(%d,", a) + show_float(b) + ")"; }),
    REC("r.tuple", { auto a = any(r, INT32_MIN, INT32_MAX); auto b = uany(r, UINT32_MAX); auto c = any(r, INT64_MIN, INT64_MAX); t = pf("(%lld, %llu, %lld)", a, b, c); w = pf("(%lld;%llu;%lld;)", a, b, c); }),
    REC("r.vv", {
        t = w = "[";
        for (int n = r.range(0, 4), i = 0; i < n; ++i) {
            t += i ? ", [" : "["; w += "[";
            for (int m = r.range(0, 4), j = 0; j < m; ++j) { int v = r.range(-99, 99); t += (j ? ", " : "") + pf("%d", v); w += pf("%d,", v); }
            t += "]"; w += "],";
        }
        t += "]"; w += "]";
    }),
    REC("r.dc", { int Y = r.range(1000, 9999), m = r.range(1, 12), d = r.range(1, 28), H = r.range(0, 23), M = r.range(0, 59), S = r.range(0, 59); t = pf("%04d-%02d-%02dT%02d:%02d:%02d", Y, m, d, H, M, S); w = pf("dcY%dd%dH%dM%dS%dm%d", Y, d, H, M, S, m); }),
    REC("r.dcz", {
        int Y = r.range(1000, 9999), m = r.range(1, 12), d = r.range(1, 28), H = r.range(0, 23), M = r.range(0, 59), S = r.range(0, 59), zh = r.range(0, 13), zm = r.range(0, 59);
        bool neg = r.chance(0.5);
        t = pf("%04d-%02d-%02dT%02d:%02d:%02d%c%02d%02d", Y, m, d, H, M, S, neg ? '-' : '+', zh, zm);
        w = pf("dcY%dd%dH%dM%dS%dm%dz%d", Y, d, H, M, S, m, (neg ? -1 : 1) * (zh * 60 + zm));
    }),
    REC("r.dcZ", { int H = r.range(0, 23), M = r.range(0, 59), i = r.range(-99, 99); static const char* const z[] = {"UTC", "Europe/Helsinki", "EST", "Etc/GMT+5"}; std::string n = z[r.below(4)]; t = pf("%02d:%02d ", H, M) + n + pf(" %d", i); w = pf("dcH%dM%dZ", H, M) + quoted(n) + pf(" %d", i); }),
    REC("r.dcFT", { int Y = r.range(1000, 9999), m = r.range(1, 12), d = r.range(1, 28), H = r.range(0, 23), M = r.range(0, 59), S = r.range(0, 59); t = pf("%04d-%02d-%02d %02d:%02d:%02d", Y, m, d, H, M, S); w = pf("dcY%dd%dH%dM%dS%dm%d", Y, d, H, M, S, m); }),
    REC("r.dcFR", { int Y = r.range(1000, 9999), m = r.range(1, 12), d = r.range(1, 28), H = r.range(0, 23), M = r.range(0, 59); t = pf("%04d-%02d-%02dT%02d:%02d", Y, m, d, H, M); w = pf("dcY%dd%dH%dM%dm%d", Y, d, H, M, m); }),
    REC("r.dcab", { int a = r.range(0, 6), m = r.range(1, 12); t = cut3(days[a]) + " " + cut3(mons[m - 1]); w = pf("dcm%dw%d", m, a); }),
    REC("r.dceb", { int m = r.range(1, 12), d = r.range(1, 31); t = pf("%d ", d) + cut3(mons[m - 1]); w = pf("dcd%dm%d", d, m); }),
    REC("r.dcAB", { int a = r.range(0, 6), m = r.range(1, 12), Y = r.range(1000, 9999); t = std::string(days[a]) + ", " + mons[m - 1] + pf(" %d", Y); w = pf("dcY%dm%dw%d", Y, m, a); }),
    REC("r.dcIp", { int H = r.range(0, 23), M = r.range(0, 59); t = pf("%02d:%02d %s", H % 12 ? H % 12 : 12, M, H < 12 ? "AM" : "PM"); w = pf("dcH%dM%d", H, M); }),
    REC("r.dcr", { int H = r.range(0, 23), M = r.range(0, 59), S = r.range(0, 59); t = pf("%02d:%02d:%02d %s", H % 12 ? H % 12 : 12, M, S, H < 12 ? "AM" : "PM"); w = pf("dcH%dM%dS%d", H, M, S); }),
    REC("r.dcj", { int Y = r.range(1000, 9999), j = r.range(1, 365); t = pf("%d/%03d", Y, j); w = pf("dcY%dy%d", Y, j - 1); }),
    REC("r.dcD", { int y = r.range(0, 99), m = r.range(1, 12), d = r.range(1, 31); t = pf("%02d/%02d/%02d", m, d, y); w = pf("dcY%dd%dm%d", y < 69 ? 2000 + y : 1900 + y, d, m); }),
    REC("r.dcCy", { int Y = r.range(1000, 9999), m = r.range(1, 12); t = pf("%04d-%02d", Y, m); w = pf("dcY%dm%d", Y, m); }),
    REC("r.dcu", { int u = r.range(1, 7); t = pf("%d", u); w = pf("dcw%d", u % 7); }),
    REC("r.dcw", { int u = r.range(0, 6); t = pf("%d", u); w = pf("dcw%d", u); }),
    REC("r.ymd", { int Y = r.range(1000, 9999), m = r.range(1, 12), d = r.range(1, 28); t = pf("%04d-%02d-%02d", Y, m, d); w = pf("%d-%d-%d", Y, m, d); }),
    REC("r.wd", { int a = r.range(0, 6), i = r.range(-99, 99); t = cut3(days[a]) + pf(" %d", i); w = pf("%d %d", a, i); }),
    RECC("r.vi", { std::string a = letters(r, 1, 9); auto v = any(r, INT32_MIN, INT32_MAX); t = a + " " + pf("%lld", v); w = quoted(a) + " " + pf("%lld", v); }),
    RECC("r.vset", { std::string a = letters(r, 1, 5); std::string b = letters(r, 1, 20); if (r.chance(0.5)) b += "\xc3\xa4"; t = a + "=" + b; w = quoted(a) + " " + quoted(b); }),
    RECC("r.vc", { t = letters(r, 5, 5); w = quoted(t); }),
    RECC("r.re", { auto a = letters(r, 1, 9); auto b = pf("%d", r.range(0, 99999)); int i = r.range(-99, 99); t = a + "=" + b + pf(" %d", i); w = "<" + quoted(a + "=" + b) + "|" + quoted(a) + "|" + quoted(b) + "|>" + pf(" %d", i); }),
    RECC("r.res", { auto a = letters(r, 1, 9) + pf("%d", r.range(0, 9)); int i = r.range(-99, 99); t = a + pf(" %d", i); w = quoted(a) + pf(" %d", i); }),
};
}  // namespace
void gen_rec(Rng& r, bool contiguous, std::string& op, std::string& text, std::string& want)
{
    for (;;) {
        const Rec& x = recs[r.below(sizeof recs / sizeof *recs)];
        if (x.contiguous_only && !contiguous) continue;
        op = x.id;
        text.clear();
        want.clear();
        x.make(r, text, want);
        want += " ";
        return;
    }
}
}  // namespace sim
