#include "plan.h"
#include <sstream>
#include <cstdlib>
namespace sim {
std::string hex(std::string_view s)
{
    static const char* d = "0123456789abcdef";
    std::string o;
    for (unsigned char c : s) {
        o += d[c >> 4];
        o += d[c & 15];
    }
    return o.empty() ? "-" : o;
}
std::string quote(std::string_view s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '\n') o += "\\n";
        else if (c >= 0x20 && c < 0x7f && c != '\\' && c != '"') o += static_cast<char>(c);
        else {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            o += b;
        }
    }
    return o + "\"";
}
static size_t seq_len(std::string_view s, size_t i)
{
    auto u = [&](size_t k) { return static_cast<unsigned char>(s[k]); };
    unsigned char c = u(i);
    size_t n = c < 0x80 ? 1 : (c >= 0xc2 && c < 0xe0) ? 2 : (c >> 4) == 14 ? 3 : (c >= 0xf0 && c < 0xf5) ? 4 : 0;
    if (!n || i + n > s.size()) return 0;
    for (size_t k = 1; k < n; ++k)
        if ((u(i + k) & 0xc0) != 0x80) return 0;
    if ((c == 0xe0 && u(i + 1) < 0xa0) || (c == 0xed && u(i + 1) >= 0xa0) || (c == 0xf0 && u(i + 1) < 0x90) || (c == 0xf4 && u(i + 1) >= 0x90)) return 0;
    return n;
}
bool valid_utf8(std::string_view s)
{
    for (size_t i = 0; i < s.size();) {
        size_t n = seq_len(s, i);
        if (!n) return false;
        i += n;
    }
    return true;
}
std::string make_valid_utf8(const std::string& s)
{
    std::string o;
    for (size_t i = 0; i < s.size();) {
        size_t n = seq_len(s, i);
        if (n) o.append(s, i, n);
        i += n ? n : 1;
    }
    return o;
}
std::string unhex(const std::string& s)
{
    if (s == "-") return {};
    std::string o;
    for (size_t i = 0; i + 1 < s.size(); i += 2) o += static_cast<char>(strtol(s.substr(i, 2).c_str(), nullptr, 16));
    return o;
}
std::string Plan::serialise() const
{
    std::ostringstream o;
    o << "prop " << prop << "\nseed " << seed << "\n";
    for (auto& c : cases) {
        o << "case\n";
        for (auto& s : c.srcs) {
            o << "src " << src_names[s.kind] << " " << s.file.bufmode << " " << s.file.bufsize << " " << hex(s.file.content) << " ";
            if (s.file.events.empty()) o << "-";
            for (auto& e : s.file.events) o << e.type << e.n << ",";
            o << "   # " << quote(s.file.content) << "\n";
        }
        for (auto& s : c.steps)
            o << "step " << s.thread << " " << s.src << " " << s.verb << " " << (s.arg.empty() ? "-" : s.arg) << " " << s.n << "\n";
        for (auto& p : c.params) o << "param " << p.first << " " << p.second << "\n";
        if (c.has_sched) {
            o << "sched\n";
            for (auto& p : c.sched.preempt) o << "preempt " << p.first << " " << p.second << "\n";
            if (!c.sched.forced.empty()) {
                o << "forced";
                for (int f : c.sched.forced) o << " " << f;
                o << "\n";
            }
        }
        o << "end\n";
    }
    return o.str();
}
bool Plan::parse(const std::string& text, Plan& out, std::string& err)
{
    std::istringstream in(text);
    std::string line;
    out = Plan{};
    Case* c = nullptr;
    while (std::getline(in, line)) {
        auto h = line.find("   #");
        if (h != std::string::npos) line.resize(h);
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line);
        std::string k;
        l >> k;
        if (k == "prop") l >> out.prop;
        else if (k == "seed") l >> out.seed;
        else if (k == "case") {
            out.cases.emplace_back();
            c = &out.cases.back();
        }
        else if (!c) {
            err = "line outside case: " + line;
            return false;
        }
        else if (k == "src") {
            SrcSpec s;
            std::string kind, hx, evs;
            l >> kind >> s.file.bufmode >> s.file.bufsize >> hx >> evs;
            for (int i = 0; i < S_COUNT; ++i)
                if (kind == src_names[i]) s.kind = static_cast<Src>(i);
            s.file.content = unhex(hx);
            if (evs != "-") {
                std::istringstream e(evs);
                std::string x;
                while (std::getline(e, x, ','))
                    if (!x.empty()) s.file.events.push_back({x[0], atoi(x.c_str() + 1)});
            }
            c->srcs.push_back(s);
        }
        else if (k == "step") {
            Step s;
            l >> s.thread >> s.src >> s.verb >> s.arg >> s.n;
            if (s.arg == "-") s.arg.clear();
            c->steps.push_back(s);
        }
        else if (k == "param") {
            std::string a, b;
            l >> a >> b;
            c->params[a] = b;
        }
        else if (k == "sched") c->has_sched = true;
        else if (k == "preempt") {
            uint64_t a;
            int b;
            l >> a >> b;
            c->sched.preempt.emplace_back(a, b);
        }
        else if (k == "forced") {
            int b;
            while (l >> b) c->sched.forced.push_back(b);
        }
        else if (k == "end") c = nullptr;
        else {
            err = "unknown line: " + line;
            return false;
        }
    }
    return true;
}
std::wstring widen(std::string_view s)
{
    std::wstring w;
    for (size_t i = 0; i < s.size();) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        size_t n = c < 0x80 ? 1 : (c >> 5) == 6 ? 2 : (c >> 4) == 14 ? 3 : (c >> 3) == 30 ? 4 : 1;
        if (n == 1 || i + n > s.size()) {
            w += static_cast<wchar_t>(c == 0xff ? 0xd800 : c);
            ++i;
            continue;
        }
        unsigned v = n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
        for (size_t k = 1; k < n; ++k) v = (v << 6) | (static_cast<unsigned char>(s[i + k]) & 63);
        w += static_cast<wchar_t>(v);
        i += n;
    }
    return w;
}
}  // namespace sim
