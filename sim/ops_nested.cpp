#include "ops.h"

#include <complex>
#include <sstream>

namespace sim {
struct Pair { int a, b; };
struct Retry { int kind = 0; int n = 0; std::string s; };
struct Multi { std::vector<int> v; };
struct Tree { std::string s; };
struct Walk { std::string w; int n = 0; };
struct IStr { int n = 0; char c = 0; std::string s; };
struct ISInt { int n = 0; };
struct Two { int n = 0; std::string s; };
struct Peek { bool num = false; int n = 0; std::string s; };
struct Wrong { int n = 0; };
struct Deep { int d = 0; std::vector<int> v; };
struct Quoted { std::string s; };
struct Lines { std::vector<std::string> v; };
struct Thrower { int n = 0; };
struct Cplx { std::complex<double> c; };
struct PutBack { std::string w; int n = 0; bool semi = false; int peeks = 0; };
struct ISLine { std::string s; };
struct Angle { std::vector<int> v; };
struct Bounded {                      // a container that takes two elements
    std::vector<int> v;
    using value_type = int;
    using iterator = std::vector<int>::iterator;
    iterator begin() { return v.begin(); }
    iterator end() { return v.end(); }
    auto begin() const { return v.begin(); }
    auto end() const { return v.end(); }
    std::size_t max_size() const { return 2; }
    void push_back(int x) { v.push_back(x); }
};
struct ISThrow { int n = 0; };        // the user's own extraction operator throws
struct MixIS { int a = 0; ISInt b; std::string c; };

inline std::istream& operator>>(std::istream& is, IStr& x) { return is >> x.n >> x.c >> x.s; }
inline std::istream& operator>>(std::istream& is, ISInt& x) { return is >> x.n; }
inline std::istream& operator>>(std::istream& is, ISThrow& x)
{
    scanner_tick();
    is >> x.n;
    scanner_tick();
    return is;
}

// std::complex's own operator puts a character back
inline std::istream& operator>>(std::istream& is, Cplx& x) { return is >> x.c; }
// a hand-written operator: unget, peek and putback
inline std::istream& operator>>(std::istream& is, PutBack& x)
{
    is >> std::ws;
    int c = 0;
    while ((c = is.get()) != EOF && ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))) x.w += static_cast<char>(c);
    if (is.bad()) return is;   // an exception met on the way stays visible
    if (c == EOF) {
        is.clear(x.w.empty() ? std::ios::eofbit | std::ios::failbit : std::ios::eofbit);
        return is;
    }
    is.unget();
    const int p = is.peek();
    if (is.bad()) return is;
    if (p == '=') {
        is.get();
        while (is.peek() == ' ') {
            is.get();
            ++x.peeks;
            is.unget();
            is.get();
        }
        if (!(is >> x.n)) return is;
    }
    char ch;
    if (is.get(ch)) {
        if (ch == ';') x.semi = true;
        else is.putback(ch);
    }
    else if (!is.bad())
        is.clear(std::ios::eofbit);
    return is;
}
inline std::istream& operator>>(std::istream& is, ISLine& x) { return std::getline(is, x.s); }

template <> struct Show<Cplx> { static void go(std::string& o, const Cplx& p) { show(o, p.c.real()); o += ','; show(o, p.c.imag()); } };
template <> struct Show<PutBack> { static void go(std::string& o, const PutBack& p) { show(o, p.w); show(o, p.n); o += '/'; show(o, p.semi); show(o, p.peeks); } };
template <> struct Show<ISLine> { static void go(std::string& o, const ISLine& p) { show(o, p.s); } };
template <> struct Show<Angle> { static void go(std::string& o, const Angle& p) { show(o, p.v); } };
template <> struct Show<Bounded> { static void go(std::string& o, const Bounded& p) { show(o, p.v); } };
template <> struct Show<Pair> { static void go(std::string& o, const Pair& p) { show(o, p.a); o += ':'; show(o, p.b); } };
template <> struct Show<Retry> { static void go(std::string& o, const Retry& p) { show(o, p.kind); o += '/'; show(o, p.n); o += '/'; show(o, p.s); } };
template <> struct Show<Multi> { static void go(std::string& o, const Multi& p) { show(o, p.v); } };
template <> struct Show<Tree> { static void go(std::string& o, const Tree& p) { o += p.s; } };
template <> struct Show<Walk> { static void go(std::string& o, const Walk& p) { show(o, p.w); show(o, p.n); } };
template <> struct Show<IStr> { static void go(std::string& o, const IStr& p) { show(o, p.n); o += '/'; show(o, p.c); o += '/'; show(o, p.s); } };
template <> struct Show<ISInt> { static void go(std::string& o, const ISInt& p) { show(o, p.n); } };
template <> struct Show<Two> { static void go(std::string& o, const Two& p) { show(o, p.n); o += '/'; show(o, p.s); } };
template <> struct Show<Peek> { static void go(std::string& o, const Peek& p) { show(o, p.num); o += '/'; show(o, p.n); o += '/'; show(o, p.s); } };
template <> struct Show<Wrong> { static void go(std::string& o, const Wrong& p) { show(o, p.n); } };
template <> struct Show<Deep> { static void go(std::string& o, const Deep& p) { show(o, p.d); show(o, p.v); } };
template <> struct Show<Quoted> { static void go(std::string& o, const Quoted& p) { show(o, p.s); } };
template <> struct Show<Lines> { static void go(std::string& o, const Lines& p) { show(o, p.v); } };
template <> struct Show<Thrower> { static void go(std::string& o, const Thrower& p) { show(o, p.n); } };
template <> struct Show<ISThrow> { static void go(std::string& o, const ISThrow& p) { show(o, p.n); } };
template <> struct Show<MixIS> { static void go(std::string& o, const MixIS& p) { show(o, p.a); o += '/'; show(o, p.b); o += '/'; show(o, p.c); } };

struct PlainParse {
    template <class C>
    constexpr auto parse(C& c) -> typename C::iterator { return c.begin(); }
};
template <class It>
auto segmented(const It& b, int) -> decltype(static_cast<bool>(b.stores_parent())) { return b.stores_parent(); }
template <class It>
bool segmented(const It&, long) { return false; }   // statistics only
template <class Ctx>
void nested_probe(Ctx& ctx)
{
    auto b = ctx.range().begin();
    if (segmented(b, 0)) probe(PR_NESTED_NONCONTIG);
    scanner_tick();
}
}  // namespace sim

#define SIM_SCANNER(T)                                                                      \
    template <> struct scn::scanner<sim::T, char> : sim::PlainParse {                       \
        template <class Ctx>                                                                \
        auto scan(sim::T& v, Ctx& ctx) const -> scn::scan_expected<typename Ctx::iterator>; \
    };                                                                                      \
    template <class Ctx>                                                                    \
    auto scn::scanner<sim::T, char>::scan(sim::T& v, Ctx& ctx) const -> scn::scan_expected<typename Ctx::iterator>

// documented customisation: own brackets and separator, several characters long
template <> struct scn::scanner<sim::Angle, char> {
    scn::range_scanner<int, char> u{};
    constexpr scanner()
    {
        u.set_brackets("<<", ">>");
        u.set_separator("::");
    }
    template <class C> constexpr auto parse(C& c) -> typename C::iterator { return u.parse(c); }
    template <class Ctx> auto scan(sim::Angle& v, Ctx& ctx) const -> scn::scan_expected<typename Ctx::iterator> { return u.scan(v.v, ctx); }
};
SIM_SCANNER(Pair)
{
    sim::nested_probe(ctx);
    auto r = scn::scan<int, int>(ctx.range(), "{}:{}");
    if (!r) return scn::unexpected(r.error());
    std::tie(v.a, v.b) = r->values();
    return r->begin();
}
SIM_SCANNER(Retry)   // several attempts from the same place
{
    sim::nested_probe(ctx);
    if (auto r = scn::scan<int, int>(ctx.range(), "{}-{}")) {
        v.kind = 1;
        v.n = std::get<0>(r->values());
        return r->begin();
    }
    sim::scanner_tick();
    if (auto r = scn::scan<std::string, int>(ctx.range(), "{:[a-z]}={}")) {
        v.kind = 2;
        v.s = std::get<0>(r->values());
        v.n = std::get<1>(r->values());
        return r->begin();
    }
    sim::scanner_tick();
    auto r = scn::scan<std::string>(ctx.range(), "{}");
    if (!r) return scn::unexpected(r.error());
    v.kind = 3;
    v.s = r->value();
    return r->begin();
}
SIM_SCANNER(Multi)   // as many values as there are
{
    sim::nested_probe(ctx);
    auto r = scn::scan<int>(ctx.range(), "{}");
    if (!r) return scn::unexpected(r.error());
    v.v.push_back(r->value());
    auto it = r->begin();
    for (int i = 0; i < 8; ++i) {
        sim::scanner_tick();
        auto r2 = scn::scan<int>(r->range(), "{}");
        if (!r2) break;
        v.v.push_back(r2->value());
        it = r2->begin();
        r = std::move(r2);
    }
    return it;
}
SIM_SCANNER(Tree)    // recursion
{
    sim::nested_probe(ctx);
    if (auto open = scn::scan<>(ctx.range(), " (")) {
        v.s = "(";
        auto rng = open->range();
        for (int i = 0; i < 16; ++i) {
            if (auto close = scn::scan<>(rng, " )")) {
                v.s += ")";
                return close->begin();
            }
            auto child = scn::scan<sim::Tree>(rng, "{}");
            if (!child) return scn::unexpected(child.error());
            v.s += child->value().s;
            rng = child->range();
        }
        return scn::unexpected(scn::scan_error{scn::scan_error::invalid_scanned_value, "too wide"});
    }
    auto r = scn::scan<std::string>(ctx.range(), " {:[a-z0-9]}");
    if (!r) return scn::unexpected(r.error());
    v.s = r->value() + ".";
    return r->begin();
}
SIM_SCANNER(Walk)    // manual iteration, then a nested scan of the rest
{
    sim::nested_probe(ctx);
    auto rng = ctx.range();
    auto it = rng.begin();
    while (it != rng.end() && *it >= 'a' && *it <= 'z') {
        v.w.push_back(*it);
        ++it;
    }
    if (v.w.empty()) return scn::unexpected(scn::scan_error{scn::scan_error::invalid_scanned_value, "no word"});
    auto r = scn::scan<int>(scn::ranges::subrange{it, rng.end()}, "{}");
    if (!r) return it;
    v.n = r->value();
    return r->begin();
}
template <> struct scn::scanner<sim::IStr, char> : scn::basic_istream_scanner<char> {};
template <> struct scn::scanner<sim::ISInt, char> : scn::basic_istream_scanner<char> {};
template <> struct scn::scanner<sim::ISThrow, char> : scn::basic_istream_scanner<char> {};
template <> struct scn::scanner<sim::Cplx, char> : scn::basic_istream_scanner<char> {};
template <> struct scn::scanner<sim::PutBack, char> : scn::basic_istream_scanner<char> {};
template <> struct scn::scanner<sim::ISLine, char> : scn::basic_istream_scanner<char> {};
SIM_SCANNER(Two)
{
    sim::nested_probe(ctx);
    auto r = scn::scan_value<int>(ctx.range());
    if (!r) return scn::unexpected(r.error());
    sim::scanner_tick();
    auto r2 = scn::scan_value<std::string>(r->range());
    if (!r2) return scn::unexpected(r2.error());
    v.n = r->value();
    v.s = r2->value();
    return r2->begin();
}
SIM_SCANNER(Peek)    // look at a word, then read it again as something else
{
    sim::nested_probe(ctx);
    auto r = scn::scan<std::string>(ctx.range(), "{}");
    if (!r) return scn::unexpected(r.error());
    if (!r->value().empty() && r->value()[0] >= '0' && r->value()[0] <= '9') {
        sim::scanner_tick();
        auto r2 = scn::scan<int>(ctx.range(), "{}");
        if (!r2) return scn::unexpected(r2.error());
        v.num = true;
        v.n = r2->value();
        return r2->begin();
    }
    v.s = r->value();
    return r->begin();
}
SIM_SCANNER(Wrong)   // reads successfully, then rejects the value
{
    sim::nested_probe(ctx);
    auto r = scn::scan<int>(ctx.range(), "{}");
    if (!r) return scn::unexpected(r.error());
    if (r->value() % 3 == 0) return scn::unexpected(scn::scan_error{scn::scan_error::invalid_scanned_value, "rejected"});
    v.n = r->value();
    return r->begin();
}
SIM_SCANNER(Deep)    // each level reads one number and delegates the rest
{
    sim::nested_probe(ctx);
    auto r = scn::scan<int>(ctx.range(), "{}");
    if (!r) return scn::unexpected(r.error());
    v.v.push_back(r->value());
    if (auto c = scn::scan<>(r->range(), ";")) {
        auto d = scn::scan<sim::Deep>(c->range(), "{}");
        if (!d) return scn::unexpected(d.error());
        v.d = d->value().d + 1;
        for (int x : d->value().v) v.v.push_back(x);
        return d->begin();
    }
    return r->begin();
}
SIM_SCANNER(Quoted)
{
    sim::nested_probe(ctx);
    auto r = scn::scan<std::string>(ctx.range(), "\"{:[^\"]}\"");
    if (!r) return scn::unexpected(r.error());
    v.s = r->value();
    return r->begin();
}
SIM_SCANNER(Lines)
{
    sim::nested_probe(ctx);
    auto rng = ctx.range();
    for (int i = 0; i < 4; ++i) {
        auto r = scn::scan<std::string>(rng, "{:[^\n]}");
        if (!r) {
            if (i == 0) return scn::unexpected(r.error());
            break;
        }
        v.v.push_back(r->value());
        rng = r->range();
        if (auto nl = scn::scan<>(rng, "\n")) {
            rng = nl->range();
        }
        else
            break;
    }
    return rng.begin();
}
SIM_SCANNER(Thrower)
{
    sim::nested_probe(ctx);
    auto r = scn::scan<int>(ctx.range(), "{}");
    sim::scanner_tick();
    if (!r) return scn::unexpected(r.error());
    v.n = r->value();
    return r->begin();
}
SIM_SCANNER(MixIS)   // iostream extraction between two nested scans
{
    sim::nested_probe(ctx);
    auto r = scn::scan<int, sim::ISInt, std::string>(ctx.range(), "{} {} {}");
    if (!r) return scn::unexpected(r.error());
    v.a = std::get<0>(r->values());
    v.b = std::get<1>(r->values());
    v.c = std::get<2>(r->values());
    return r->begin();
}

namespace sim {
void reg_nested()
{
    using R = Reg;
    R::add<Pair>("n.pair", "{}", "%i:%i", OF_NESTED);
    R::add<Pair>("n.pair.val", "", "%i:%i", OF_NESTED);
    R::add<int, Pair, int>("n.i.pair.i", "{} {} {}", "%i% %i:%i% %i", OF_NESTED);
    R::add<Pair, Pair>("n.pair2", "{} {}", "%i:%i% %i:%i", OF_NESTED);
    R::add<Retry>("n.retry", "{}", "%V", OF_NESTED);
    R::add<int, Retry, int>("n.i.retry.i", "{} {} {}", "%i% %V% %i", OF_NESTED);
    R::add<Retry, Retry>("n.retry2", "{} {}", "%V% %V", OF_NESTED);
    R::add<Multi>("n.multi", "{}", "%i% %i% %i% ", OF_NESTED);
    R::add<std::string, Multi, std::string>("n.s.multi.s", "{} {} {}", "%l% %i% %i% %i% %l", OF_NESTED);
    R::add<Tree>("n.tree", "{}", "%R", OF_NESTED);
    R::add<int, Tree, int>("n.i.tree.i", "{} {} {}", "%i% %R% %i", OF_NESTED);
    R::add<Walk>("n.walk", "{}", "%l%_%i", OF_NESTED);
    R::add<int, Walk, Walk>("n.i.walk2", "{} {} {}", "%i% %l%i% %l%_%i", OF_NESTED);
    R::add<IStr>("n.istr", "{}", "%i%_%c%_%s", OF_NESTED | OF_GLOBALLOC);
    R::add<int, IStr, int>("n.i.istr.i", "{} {} {}", "%i% %i%_%c%_%s% %i", OF_NESTED | OF_GLOBALLOC);
    R::add<ISInt>("n.isint", "{}", "%i", OF_NESTED | OF_GLOBALLOC);
    R::add<ISInt, int>("n.isint.i", "{} {}", "%i% %i", OF_NESTED | OF_GLOBALLOC);
    R::add<ISInt, std::string>("n.isint.s", "{}{}", "%i%l", OF_NESTED | OF_GLOBALLOC);
    R::add<Two>("n.two", "{}", "%i% %w", OF_NESTED);
    R::add<int, Two, int>("n.i.two.i", "{} {} {}", "%i% %i% %w% %i", OF_NESTED);
    R::add<Peek>("n.peek", "{}", "%k", OF_NESTED);
    R::add<Peek, Peek, Peek>("n.peek3", "{} {} {}", "%k% %k% %k", OF_NESTED);
    R::add<int, Wrong>("n.i.wrong", "{} {}", "%i% %i", OF_NESTED);
    R::add<Deep>("n.deep", "{}", "%i;%i;%i;%i", OF_NESTED);
    R::add<std::string, Deep>("n.s.deep", "{} {}", "%w% %i;%i;%i", OF_NESTED);
    R::add<Quoted>("n.quoted", "{}", "\"%l% %l\"", OF_NESTED);
    R::add<Quoted, Quoted>("n.quoted2", "{},{}", "\"%l\",\"%w\"", OF_NESTED);
    R::add<int, Lines>("n.lines", "{} {}", "%i% %s\n%w% %l\n%s", OF_NESTED | OF_NOLINE);
    R::add<Thrower>("n.throw", "{}", "%_%i", OF_NESTED | OF_THROWS);
    R::add<int, Thrower>("n.i.throw", "{} {}", "%i% %i", OF_NESTED | OF_THROWS);
    R::add<ISThrow>("n.isthrow", "{}", "%_%i", OF_NESTED | OF_THROWS | OF_GLOBALLOC);
    R::add<int, ISThrow, int>("n.i.isthrow.i", "{} {} {}", "%i% %i% %i", OF_NESTED | OF_THROWS | OF_GLOBALLOC);
    R::add<MixIS>("n.mixis", "{}", "%i% %i% %w", OF_NESTED | OF_GLOBALLOC);
    R::add<std::vector<Pair>>("n.vec.pair", "{}", "[%i:%i,%i:%i]", OF_NESTED);
    R::add<Angle>("n.angle", "{}", "<<%_%i%_::%i%_::%i>>", OF_NESTED);
    R::add<int, Angle, int>("n.i.angle.i", "{} {} {}", "%i% <<%i::%i>>% %i", OF_NESTED);
    R::add<std::vector<Angle>>("n.vec.angle", "{}", "[<<%i>>,<<%i::%i>>]", OF_NESTED);
    R::add<Bounded>("n.bounded", "{}", "[%i,%_%i]", OF_NESTED);
    R::add<Cplx>("n.cplx", "{}", "%C", OF_NESTED | OF_GLOBALLOC);
    R::add<int, Cplx, int>("n.i.cplx.i", "{} {} {}", "%i% %C% %i", OF_NESTED | OF_GLOBALLOC);
    R::add<PutBack>("n.pb", "{}", "%_%l=%_%i;", OF_NESTED | OF_GLOBALLOC);
    R::add<PutBack, PutBack>("n.pb2", "{}{}", "%l=%i;%l", OF_NESTED | OF_GLOBALLOC);
    R::add<int, PutBack, int>("n.i.pb.i", "{} {} {}", "%i% %l=%_%i% %i", OF_NESTED | OF_GLOBALLOC);
    R::add<int, ISLine, int>("n.i.line.i", "{}{}{}", "%i% %s% %w\n%i", OF_NESTED | OF_GLOBALLOC | OF_NOLINE);
    R::add<int, Quoted, Multi>("n.i.q.m", "{} {} {}", "%i% \"%w\"% %i% %i", OF_NESTED);
}

// ---- an independent account of what some nested operations must give: the pieces
// one after another on a plain string, iostream pieces on a std::istringstream
namespace {
struct Flat {
    std::string text;
    size_t at = 0;
    bool ok = true;
    std::string vals;
    std::string_view rest() const { return std::string_view(text).substr(at); }
    template <class... T>
    Flat& scan(const char* fmt, const char* seps = " ")
    {
        if (!ok) return *this;
        auto r = scn::scan<T...>(rest(), scn::runtime_format(fmt));
        if (!r) {
            ok = false;
            return *this;
        }
        at = text.size() - static_cast<size_t>(r->end() - r->begin());
        size_t i = 0;
        std::apply([&](const auto&... v) { ((show(vals, v), vals += seps[i++]), ...); }, r->values());
        return *this;
    }
    Flat& lit(const char* fmt)
    {
        if (!ok) return *this;
        auto r = scn::scan<>(rest(), scn::runtime_format(fmt));
        if (!r) ok = false;
        else at = text.size() - static_cast<size_t>(r->end() - r->begin());
        return *this;
    }
    template <class T>
    Flat& stream()
    {
        if (!ok) return *this;
        std::istringstream is{std::string(rest())};
        is.imbue(std::locale::classic());
        T v{};
        if (!(is >> v)) {
            ok = false;
            return *this;
        }
        is.clear();
        at += static_cast<size_t>(is.tellg());
        show(vals, v);
        vals += ' ';
        return *this;
    }
};
}  // namespace
bool flat_model(const std::string& id, const std::string& text, Outcome& o)
{
    Flat f;
    f.text = text;
    if (id == "n.pair" || id == "n.pair.val") f.scan<int, int>("{}:{}", ": ");
    else if (id == "n.pair2") f.scan<int, int, int, int>("{}:{} {}:{}", ": : ");
    else if (id == "n.i.pair.i") f.scan<int, int, int, int>("{} {}:{} {}", " :  ");
    else if (id == "n.two") f.scan<int, std::string>("{} {}", "/ ");
    else if (id == "n.i.two.i") f.scan<int, int, std::string, int>("{} {} {} {}", " /  ");
    else if (id == "n.quoted") f.scan<std::string>("\"{:[^\"]}\"");
    else if (id == "n.quoted2") f.scan<std::string, std::string>("\"{:[^\"]}\",\"{:[^\"]}\"", "  ");
    else if (id == "n.isint") f.stream<ISInt>();
    else if (id == "n.istr") f.stream<IStr>();
    else if (id == "n.cplx") f.stream<Cplx>();
    else if (id == "n.pb") f.stream<PutBack>();
    else if (id == "n.pb2") f.stream<PutBack>().stream<PutBack>();
    else if (id == "n.isint.i") f.stream<ISInt>().lit(" ").scan<int>("{}");
    else if (id == "n.isint.s") f.stream<ISInt>().scan<std::string>("{}");
    else if (id == "n.i.istr.i") f.scan<int>("{}").lit(" ").stream<IStr>().lit(" ").scan<int>("{}");
    else if (id == "n.i.cplx.i") f.scan<int>("{}").lit(" ").stream<Cplx>().lit(" ").scan<int>("{}");
    else if (id == "n.i.pb.i") f.scan<int>("{}").lit(" ").stream<PutBack>().lit(" ").scan<int>("{}");
    else if (id == "n.i.line.i") f.scan<int>("{}").stream<ISLine>().scan<int>("{}");
    else return false;
    o = Outcome{};
    o.ok = f.ok;
    o.vals = f.vals;
    o.consumed = static_cast<long>(f.at);
    if (!o.ok) o.code = -9;
    return true;
}
}  // namespace sim
