// Seeded generation of input text, deliveries and buffering.
#include "plan.h"
#include <cmath>
#include <cerrno>
#include <map>
namespace sim {

static std::string digits(Rng& r, int lo, int hi, const char* set = "0123456789")
{
    std::string s;
    int n = r.range(lo, hi);
    size_t k = strlen(set);
    for (int i = 0; i < n; ++i) s += set[r.below(k)];
    return s;
}
static const std::vector<std::string> ws = {" ", " ", " ", " ", "\n", "\t", "  ", " \n", "\r\n", "\v", "\f", "\xc2\x85", "\xe2\x80\xa8", "\xe2\x80\x8e", " \xe2\x80\xa9 "};
static const std::vector<std::string> uni = {"a", "z", "x", "Q", "7", "_", "\xc3\xa4", "\xc3\xb6", "\xc3\xa5", "\xe2\x82\xac", "\xe3\x81\x82", "\xf0\x9f\x98\x80", "\xf0\x9d\x84\x9e", "\xc3\x9f", "\xce\xb1", "\xe4\xb8\xad"};
static std::string unichar(Rng& r) { return r.pick(uni); }
static std::string spaces(Rng& r, int lo, int hi)
{
    std::string s;
    int n = r.range(lo, hi);
    bool ascii = r.chance(0.8);
    for (int i = 0; i < n; ++i) s += ascii ? ws[r.below(8)] : r.pick(ws);
    return s;
}
static std::string intlit(Rng& r)
{
    static const std::vector<std::string> odd = {"2147483647", "-2147483648", "2147483648", "-2147483649", "0", "-0", "+7", "00012", "99999999999999999999", "-", "+", "4294967295", "4294967296", "127", "128", "-129", "32768", "12345678", "123456789012"};
    if (r.chance(0.12)) return r.pick(odd);
    std::string s = r.chance(0.25) ? "-" : r.chance(0.05) ? "+" : "";
    return s + digits(r, 1, r.chance(0.3) ? 10 : 5);
}
static std::string floatlit(Rng& r)
{
    static const std::vector<std::string> odd = {"inf", "-inf", "nan", "infinity", "INF", "NaN", "nan(abc)", "nan(", "1e400", "-1e400", "1e-400", "1e", "1e+", "1e-", ".5", "5.", ".", "-.", "0x1.8p3", "0x", "0x.8p1", "1.2.3", "infinit", "in", "na", "1e5x", "0x1p", "1.7976931348623157e308", "4.9e-324", "0.1", "1_000", "123456789.123456789012345678901234567890", "0e0", "-0.0"};
    if (r.chance(0.25)) return r.pick(odd);
    std::string s = r.chance(0.25) ? "-" : r.chance(0.05) ? "+" : "";
    s += digits(r, 1, 6);
    if (r.chance(0.7)) s += "." + digits(r, r.chance(0.1) ? 0 : 1, 8);
    if (r.chance(0.3)) s += (r.chance(0.5) ? "e" : "E") + std::string(r.chance(0.4) ? "-" : r.chance(0.3) ? "+" : "") + digits(r, 1, 2);
    return s;
}
static std::string grouped(Rng& r, const char* sep, const char* dec)
{
    std::string s = r.chance(0.2) ? "-" : "";
    s += digits(r, 1, 3, "123456789");
    int g = r.range(0, 2);
    for (int i = 0; i < g; ++i) s += sep + digits(r, r.chance(0.1) ? 2 : 3, 3);
    if (r.chance(0.5)) s += dec + digits(r, 1, 3);
    return s;
}
static std::string tree(Rng& r, int d)
{
    if (d <= 0 || r.chance(0.35)) return digits(r, 1, 3, "abcxyz019");
    std::string s = "(";
    int n = r.range(0, 3);
    for (int i = 0; i < n; ++i) s += spaces(r, i ? 1 : 0, 2) + tree(r, d - 1);
    return s + spaces(r, 0, 1) + ")";
}
// values much longer than small-buffer and stdio-buffer sizes
static std::string long_token(Rng& r, char k)
{
    int n = r.chance(0.6) ? r.range(20, 200) : r.chance(0.85) ? r.range(200, 1500) : r.chance(0.8) ? r.range(1500, 9000) : r.chance(0.8) ? r.range(9000, 70000) : r.range(66000, 100000);
    // std::regex recurses once per matched character: no very long runs that [a-z]+ or
    // [0-9]* could match, else it exhausts the stack
    if (!strchr(" _sw", k)) n = std::min(n, 4000);
    auto zeros = [&](int m) { return std::string(static_cast<size_t>(m), '0'); };
    switch (k) {
        case ' ': case '_': return std::string(static_cast<size_t>(n), r.chance(0.7) ? ' ' : '\n');
        case 'i': case 'u': case 'I': return (k != 'u' && r.chance(0.2) ? "-" : "") + (r.chance(0.8) ? zeros(n) : std::string()) + digits(r, 1, r.chance(0.2) ? 40 : 6);
        case 'f': return digits(r, 1, n / 2 + 1) + "." + digits(r, 1, n) + (r.chance(0.3) ? "e-" + digits(r, 1, 3) : "");
        case 'a': return "0x1." + digits(r, 1, n, "0123456789abcdef") + "p3";
        case 's': return digits(r, n / 2, n, "abcdefgXYZ0123456789-_.,;");
        case 'l': return digits(r, n / 2, n, "abcdefghijklmnopqrstuvwxyz");
        case 'w': {
            std::string s;
            for (int i = 0; i < n / 2; ++i) s += unichar(r);
            return s;
        }
        default: return {};
    }
}
static std::string token(Rng& r, char k)
{
    if (strchr(" _iuIfaslw", k) && r.chance(0.012)) return long_token(r, k);
    static const std::vector<std::string> months = {"Jan", "January", "feb", "February", "Mar", "MAY", "June", "jul", "August", "Sep", "Octo", "November", "Dec", "Foo", "j", "Ma"};
    static const std::vector<std::string> days = {"Mon", "Monday", "tue", "Tuesday", "Wed", "thu", "Fri", "friday", "Sat", "SUN", "Sunday", "S", "Tu", "Fo"};
    switch (k) {
        case ' ': return spaces(r, 1, r.chance(0.05) ? 12 : 2);
        case '_': return r.chance(0.5) ? "" : spaces(r, 0, r.chance(0.05) ? 12 : 2);
        case '*': return std::string(static_cast<size_t>(r.range(0, 4)), '*');
        case 'i': return intlit(r);
        case 'u': return digits(r, 1, 5);
        case 'I': return r.chance(0.3) ? (r.chance(0.5) ? "-" : "") + digits(r, 16, 20) : intlit(r);
        case 'x': return (r.chance(0.15) ? "-" : "") + std::string(r.chance(0.4) ? "0x" : r.chance(0.1) ? "0X" : "") + digits(r, r.chance(0.05) ? 0 : 1, 8, "0123456789abcdefABCDEF");
        case 'o': return std::string(r.chance(0.3) ? "0o" : r.chance(0.3) ? "0" : "") + digits(r, r.chance(0.05) ? 0 : 1, 6, "01234567");
        case 'B': return std::string(r.chance(0.4) ? "0b" : r.chance(0.1) ? "0B" : "") + digits(r, r.chance(0.05) ? 0 : 1, 12, "01");
        case 'j': return token(r, "xoBi"[r.below(4)]);
        case 'f': return floatlit(r);
        case 'a': return (r.chance(0.2) ? "-" : "") + std::string(r.chance(0.8) ? "0x" : "") + digits(r, 1, 4, "0123456789abcdef") + (r.chance(0.5) ? "." + digits(r, 0, 4, "0123456789abcdef") : "") + (r.chance(0.6) ? "p" + std::string(r.chance(0.3) ? "-" : "") + digits(r, r.chance(0.1) ? 0 : 1, 2) : "");
        case 's': return digits(r, 1, 8, "abcdefgXYZ0123456789-_.,;");
        case 'l': return digits(r, 1, 7, "abcdefghijklmnopqrstuvwxyz");
        case 'w': {
            std::string s;
            int n = r.range(1, 6);
            for (int i = 0; i < n; ++i) s += unichar(r);
            return s;
        }
        case 'c': return r.chance(0.9) ? digits(r, 1, 1, "abcXYZ019!?-+") : unichar(r);
        case 'q': {
            static const std::vector<std::string> q = {"\\n", "\\x41", "\\u00e4", "a", "'", "\"", "\\", "\\\\", "\\u{1f600}"};
            return r.pick(q);
        }
        case 'b': {
            static const std::vector<std::string> q = {"true", "false", "true", "false", "1", "0", "tru", "fals", "True", "2", "truefalse", "t"};
            return r.pick(q);
        }
        case '1': return r.chance(0.9) ? digits(r, 1, 1, "01") : digits(r, 1, 2);
        case '2': return r.chance(0.85) ? digits(r, 1, 1, "01") + digits(r, 1, 1) : digits(r, 1, 3);
        case '3': return digits(r, 1, 4);
        case 'Y': return r.chance(0.9) ? (r.chance(0.5) ? "20" : "19") + digits(r, 2, 2) : digits(r, 1, 5);
        case 'M': return r.pick(months);
        case 'A': return r.pick(days);
        case 'P': return r.chance(0.5) ? (r.chance(0.5) ? "AM" : "pm") : (r.chance(0.5) ? "a.m." : r.chance(0.5) ? "p.m." : "xm");
        case 'z': return std::string(r.chance(0.5) ? "+" : "-") + digits(r, 2, 2, "01") + (r.chance(0.5) ? ":" : "") + digits(r, 2, 2, "0123");
        case 'Z': return r.chance(0.5) ? "UTC" : "Europe/Helsinki";
        case 'p': return (r.chance(0.9) ? "0x" : "") + digits(r, 1, 8, "0123456789abcdef");
        case 'D': return r.chance(0.8) ? grouped(r, ".", ",") : intlit(r);
        case 'E': return r.chance(0.8) ? grouped(r, ",", ".") : intlit(r);
        case 'V': {
            int k2 = r.range(0, 3);
            if (k2 == 0) return intlit(r) + "-" + intlit(r);
            if (k2 == 1) return token(r, 'l') + "=" + intlit(r);
            if (k2 == 2) return token(r, 'l') + "=" + token(r, 'l');
            return token(r, 's');
        }
        case 'k': return r.chance(0.5) ? digits(r, 1, 6) : token(r, r.chance(0.5) ? 's' : 'w');
        case 'C': {   // std::complex spellings
            int q = r.range(0, 4);
            if (q == 0) return floatlit(r);
            if (q == 1) return "(" + floatlit(r) + ")";
            return "(" + spaces(r, 0, 1) + floatlit(r) + spaces(r, 0, 1) + "," + spaces(r, 0, 1) + floatlit(r) + (r.chance(0.9) ? ")" : "");
        }
        case 'R': return tree(r, 3);
        default: return std::string(1, k);
    }
}
void mutate_text(Rng& r, std::string& s, int n)
{
    static const std::vector<std::string> bits = {" ", "\n", "-", "+", "0", "9", "x", "0x", ",", ":", ".", "e", "a", "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc2\x85", "\xe2\x80\xa8", "\xff", "\xc3", "\xe2\x82", "\x80", "\xf0\x9f", "(", "]", "}", "\"", "*", "_", std::string(1, '\0'), "\xed\xa0\x80", "\xc0\xaf", "\x10"};
    for (int i = 0; i < n; ++i) {
        size_t p = r.below(s.size() + 1);
        switch (r.below(5)) {
            case 0: s.insert(p, r.pick(bits)); break;
            case 1: if (p < s.size()) s.erase(p, 1); break;
            case 2: if (p < s.size()) s[p] = r.pick(bits)[0]; break;
            case 3: s.resize(p); break;
            case 4: if (p < s.size()) s.insert(p, 1, s[p]); break;
        }
    }
}
std::string gen_text(Rng& r, const std::string& tmpl, double mutate)
{
    std::string s;
    bool skipped = false;
    for (size_t i = 0; i < tmpl.size(); ++i) {
        if (tmpl[i] == '%' && i + 1 < tmpl.size())
            s += token(r, tmpl[++i]);
        else
            s += tmpl[i];
        (void)skipped;
    }
    if (r.chance(mutate)) mutate_text(r, s, r.chance(0.7) ? 1 : 3);
    return s;
}
std::string gen_tail(Rng& r)
{
    std::string t;
    switch (r.below(6)) {
        case 0: break;
        case 1: t = spaces(r, 1, 2); break;
        case 2: t = spaces(r, 1, 2) + token(r, "isfw"[r.below(4)]); break;
        case 3: t = token(r, "cswi"[r.below(4)]); break;
        case 4: t = "\n"; break;
        default: t = spaces(r, 1, 1) + token(r, 'i') + spaces(r, 1, 1) + token(r, 'w') + "\n"; break;
    }
    return t;
}
std::vector<Ev> gen_delivery(Rng& r, size_t len)
{
    std::vector<Ev> e;
    if (r.chance(len > 9000 ? 0.25 : 0.08)) return e;
    int style = r.range(0, 3);
    int fixed = r.range(1, 6);
    if (len > 150 && (len > 9000 || r.chance(0.8))) {   // long content: fewer, larger pieces
        style = 1;
        static const int sizes[] = {7, 16, 31, 63, 64, 65, 100, 127, 128, 255, 256, 511, 512, 1000, 1024, 4096, 9000, 40000, 65536};
        fixed = sizes[len > 9000 ? 5 + r.below(14) : r.below(16)];
        e.push_back({'D', r.range(1, fixed)});   // shift the boundaries
    }
    size_t at = e.empty() ? 0 : static_cast<size_t>(e[0].n);
    while (at < len) {
        int n = style == 0 ? 1 : style == 1 ? fixed : style == 2 ? r.range(1, 4) : r.range(1, static_cast<int>(len) + 1);
        e.push_back({'D', n});
        at += static_cast<size_t>(n);
    }
    return e;
}
void gen_buffering(Rng& r, FileSpec& f)
{
    switch (r.below(6)) {
        case 0: f.bufmode = 2; break;
        case 1: f.bufmode = 1; f.bufsize = r.range(1, 4); break;
        case 2: f.bufmode = 1; f.bufsize = r.range(2, 24); break;
        case 3: f.bufmode = 3; break;
        default: f.bufmode = 0; break;
    }
    if (f.bufmode == 1 && f.content.size() > 150 && r.chance(0.5)) f.bufsize = r.range(16, 512);
    if (f.bufmode != 1 && f.content.size() > 9000 && r.chance(0.3)) f.bufmode = 1;
    if (f.bufmode == 1 && f.content.size() > 9000) f.bufsize = r.chance(0.3) ? r.range(65000, 140000) : r.chance(0.5) ? 1 << r.range(8, 16) : r.range(100, 20000);
    if (r.chance(0.3)) f.bufmode |= BUF_SEEKABLE;
}
// ---------------------------------------------------------------- made-up formats
static std::map<std::string, OpDef>& dyns()
{
    static auto* m = new std::map<std::string, OpDef>;
    return *m;
}
const OpDef* find_dyn(const std::string& id)
{
    auto it = dyns().find(id);
    return it == dyns().end() ? nullptr : &it->second;
}
static bool make_dyn(const std::string& id, OpDef& d)
{
    auto c = id.find(':', 2);
    if (id.rfind("D:", 0) != 0 || c == std::string::npos) return false;
    std::string types = id.substr(2, c - 2);
    ops();
    for (auto& p : protos())
        if (p.id == types) {
            d = p;
            d.id = id;
            d.fmt = unhex(id.substr(c + 1));
            if (d.flags & OF_WIDE) d.wfmt = widen(d.fmt);
            return true;
        }
    return false;
}
void intern_dyn(const std::string& id)
{
    OpDef d;
    if (make_dyn(id, d)) dyns().emplace(id, d);
}
static void dyn_field(Rng& r, char k, int index, std::string& f, std::string& t)
{
    static const std::vector<std::string> fills = {"*", "*", "_", "0", " ", "x", "\xc3\xa4", "\xe2\x82\xac", "\xe3\x81\x82", "-", "{", "\xf0\x9f\x98\x80"};
    f += "{";
    if (index >= 0) f += std::to_string(index);
    std::string fill, tok;
    bool set = false;
    std::string spec;
    if (k == 't' || k == 'd') {
        static const std::vector<std::pair<const char*, const char*>> cf = {
            {"%Y", "%Y"}, {"%m", "%2"}, {"%d", "%2"}, {"%e", "%2"}, {"%H", "%2"}, {"%I", "%2"}, {"%M", "%2"}, {"%S", "%2"}, {"%p", "%P"}, {"%a", "%A"}, {"%A", "%A"}, {"%b", "%M"}, {"%B", "%M"}, {"%h", "%M"}, {"%j", "%3"}, {"%y", "%2"}, {"%C", "%2"}, {"%D", "%2/%2/%2"}, {"%F", "%Y-%2-%2"}, {"%T", "%2:%2:%2"}, {"%R", "%2:%2"}, {"%r", "%2:%2:%2% %P"}, {"%u", "%1"}, {"%w", "%1"}, {"%n", "% "}, {"%t", "% "}, {"%%", "%%"}, {"%z", "%z"}, {"%Z", "%Z"}, {"%c", "%A% %M% %2% %2:%2:%2% %Y"}, {"%x", "%2/%2/%2"}, {"%X", "%2:%2:%2"}, {"%EY", "%Y"}, {"%Ey", "%2"}, {"%EC", "%2"}, {"%Ec", "%A% %M% %2% %2:%2:%2% %Y"}, {"%Ex", "%2/%2/%2"}, {"%EX", "%2:%2:%2"}, {"%Od", "%2"}, {"%Oe", "%2"}, {"%OH", "%2"}, {"%OI", "%2"}, {"%Om", "%2"}, {"%OM", "%2"}, {"%OS", "%2"}, {"%Ou", "%1"}, {"%Ow", "%1"}, {"%OW", "%1"}, {"%Oy", "%2"}, {"%Ez", "%z"}, {"%Oz", "%z"}, {"%.S", "%2.%3"}, {"%Q", "%2"}, {"%", ""}, {"%E", ""}, {"%s", "%I"}, {"%U", "%2"}, {"%G", "%Y"}};
        static const std::vector<std::string> seps = {"", " ", "-", ":", "/", ",", "T", "\xc3\xa4", "\xe2\x80\xa8", "\n"};
        spec = ":";
        int n = r.range(1, 4);
        for (int i = 0; i < n; ++i) {
            auto& x = cf[r.below(cf.size())];
            std::string sep = i ? r.pick(seps) : "";
            spec += sep + x.first;
            tok += (sep == " " ? "% " : sep) + x.second;
        }
        f += spec + "}";
        t += tok;
        return;
    }
    switch (k) {
        case 'i': case 'u': case 'x': tok = r.chance(0.7) ? "%i" : "%j"; break;
        case 'f': tok = "%f"; break;
        case 's': case 'W': tok = r.chance(0.5) ? "%w" : "%s"; break;
        case 'c': tok = "%c"; break;
        case 'C': tok = "%w"; break;
        case 'b': tok = "%b"; break;
        case 'p': tok = "%p"; break;
    }
    if (r.chance(0.7)) {
        spec = ":";
        if (r.chance(0.35)) {
            if (r.chance(0.7)) spec += fill = r.pick(fills);
            spec += "<>^"[r.below(3)];
        }
        if (r.chance(0.3)) spec += std::to_string(r.chance(0.05) ? r.range(0, 300) : r.range(1, 12));
        if (r.chance(0.3)) spec += "." + std::to_string(r.chance(0.05) ? r.range(0, 300) : r.range(1, 12));
        std::string ty;
        if (r.chance(0.6)) switch (k) {
            case 'i': case 'u': case 'x': ty = std::string(1, "dixXobBuc"[r.below(9)]); tok = strchr("xX", ty[0]) ? "%x" : ty == "o" ? "%o" : strchr("bB", ty[0]) ? "%B" : tok; break;
            case 'f': ty = std::string(1, "aefgAEFG"[r.below(8)]); tok = ty == "a" || ty == "A" ? "%a" : tok; break;
            case 's': case 'W': {
                static const std::vector<std::pair<const char*, const char*>> st = {{"s", "%w"}, {"c", "%w%w"}, {"[a-z]", "%l"}, {"[^,]", "%w% %s,"}, {"[^a]", "%w"}, {"[0-9a-f]", "%x"}, {"[:alpha:]", "%w"}, {"[:digit:_]", "%u"}, {"[\xc3\xa4-\xc3\xb6]", "\xc3\xa4%w"}, {"[\\u0061-\\u007a]", "%l"}, {"[]]", "]]%s"}, {"[^]]", "%w]"}, {"[a-]", "a-%l"}, {"[", "%w"}, {"[]", "%w"}, {"[^]", "%w"}, {"[:foo:]", "%w"}, {"[:alpha]", "%w"}};
                auto& x = st[r.below(st.size())];
                ty = x.first;
                tok = x.second;
                set = ty.size() > 1;
                break;
            }
            case 'c': case 'C': ty = std::string(1, "cdxc"[r.below(4)]); tok = ty == "c" ? tok : "%1"; break;
            case 'b': ty = std::string(1, "sdixb"[r.below(5)]); tok = ty == "s" ? tok : "%1"; break;
            case 'p': ty = "p"; break;
        }
        if (r.chance(0.06)) ty = std::string(1, "dsxpcq?[nmZ/"[r.below(12)]);
        spec += ty;
    }
    (void)set;
    f += spec + "}";
    std::string pad;
    if (!fill.empty())
        for (int n = r.range(0, 5); n > 0; --n) pad += fill == "%" ? "%%" : fill;
    bool quiet = k == 's' && tok[0] != '%';
    t += (quiet || !pad.empty() ? "" : "%_") + pad + tok;
    if (!fill.empty() && r.chance(0.6))
        for (int n = r.range(0, 5); n > 0; --n) t += fill;
}
static const OpDef& gen_dyn(Rng& r, unsigned must, unsigned mustnot)
{
    static auto* ring = new std::vector<OpDef>(64);
    static size_t at = 0;
    auto& v = protos();
    const OpDef* p;
    do p = &v[r.below(v.size())];
    while ((p->flags & must) != must || (p->flags & mustnot));
    static const std::vector<std::pair<const char*, const char*>> lits = {{"", ""}, {" ", "% "}, {" ", "% "}, {",", ","}, {"x", "x"}, {"=", "="}, {" , ", "% ,% "}, {"\xc3\xb6", "\xc3\xb6"}, {"{{", "{"}, {"}}", "}"}, {"\n", "\n"}, {"\xe2\x80\xa8", "\n"}, {"->", "->"}};
    std::string f, t;
    const std::string types = p->flags & OF_WIDE ? p->id.substr(1) : p->id;
    int style = r.chance(0.12) ? 1 : r.chance(0.03) ? 2 : 0;   // indices: none, all, some
    if (r.chance(0.2)) {
        auto& l = lits[r.below(lits.size())];
        f += l.first;
        t += l.second;
    }
    bool swap = types.size() == 2 && style == 1 && r.chance(0.5);
    for (size_t i = 0; i < types.size(); ++i) {
        size_t j = swap ? 1 - i : i;
        dyn_field(r, types[j], style == 1 || (style == 2 && r.chance(0.5)) ? static_cast<int>(j) : -1, f, t);
        if (i + 1 < types.size() || r.chance(0.2)) {
            auto& l = lits[i + 1 < types.size() && r.chance(0.6) ? 1 : r.below(lits.size())];
            f += l.first;
            t += l.second;
        }
    }
    if (r.chance(0.03)) f += r.chance(0.5) ? "{}" : "{";
    if (r.chance(0.05)) {   // malformed
        size_t q = r.below(f.size());
        switch (r.below(4)) {
            case 0: f.erase(q, 1); break;
            case 1: f.insert(q, 1, "{}:.<>^[]%9\xff\xc3"[r.below(13)]); break;
            case 2: f.resize(q + 1); break;
            case 3: f[q] = "{}:.<>^[]%0\xff\xc3"[r.below(13)]; break;
        }
    }
    if (f.empty()) f = "{}";
    OpDef& d = (*ring)[at++ % ring->size()];
    d = *p;
    if ((d.flags & OF_WIDE) && !valid_utf8(f)) f = make_valid_utf8(f);
    if (f.empty()) f = "{}";
    d.fmt = f;
    d.tmpl = t;
    d.id = "D:" + p->id + ":" + hex(f);
    return d;
}
const OpDef& pick_op(Rng& r, unsigned must, unsigned mustnot)
{
    auto& v = ops();
    if (!(must & ~static_cast<unsigned>(OF_CHRONO)) && r.chance(0.2)) {
        for (int i = 0; i < 4; ++i) {
            const OpDef& d = gen_dyn(r, must, mustnot & ~static_cast<unsigned>(OF_NOLINE));
            if (!(mustnot & OF_NOLINE) || d.fmt.back() == '}') return d;
        }
    }
    for (;;) {
        const OpDef& o = v[r.below(v.size())];
        if ((o.flags & OF_SVONLY) && !(must & OF_SVONLY)) continue;
        if ((o.flags & must) == must && !(o.flags & mustnot)) return o;
    }
}
}  // namespace sim
