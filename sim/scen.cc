#include "scen.h"
#include <sstream>
#include <algorithm>

static std::string enc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) if (c <= ' ' || c == '%' || c == '=' || c >= 127) o += strf("%%%02x", c); else o += c;
    return o.empty() ? "%" : o;
}
static std::string dec(const std::string &s) {
    if (s == "%") return "";
    std::string o;
    for (size_t i = 0; i < s.size(); i++)
        if (s[i] == '%' && i + 2 < s.size() + 0 + 1 && i + 2 <= s.size() - 1) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
        else o += s[i];
    return o;
}
std::string Scenario::text() const {
    std::string t = strf("prop %s\nseed %llu\n", prop.c_str(), (unsigned long long)seed);
    t += env.text() + "\n";
    for (auto &f : files) {
        t += "file " + enc(f.name);
        for (auto &k : f.a) t += " " + k.first + "=" + enc(k.second);
        t += "\n";
    }
    for (auto &o : ops) {
        t += strf("op %d %s", o.id, o.kind.c_str());
        for (auto &k : o.a) t += " " + k.first + "=" + enc(k.second);
        t += "\n";
    }
    for (auto &f : faults)
        t += strf("fault op=%d ev=%s nth=%u kind=%s sticky=%d arg=%lld\n", f.op, ev_names[f.cls], f.nth, f.kind.c_str(), f.sticky, (long long)f.arg);
    if (variant >= 0) t += strf("variant %d\n", variant);
    return t;
}
bool Scenario::parse(const std::string &t, std::string &err) {
    std::istringstream in(t);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line);
        std::string w; l >> w;
        auto kv = [&](std::map<std::string, std::string> &m) {
            std::string x;
            while (l >> x) { size_t e = x.find('='); if (e == std::string::npos) continue; m[x.substr(0, e)] = dec(x.substr(e + 1)); }
        };
        if (w == "prop") l >> prop;
        else if (w == "seed") l >> seed;
        else if (w == "env") {
            std::map<std::string, std::string> m; kv(m);
            auto n = [&](const char *k, uint64_t d) { return m.count(k) ? strtoull(m[k].c_str(), nullptr, 0) : d; };
            env.stdio = n("stdio", 4096); env.time = n("time", 1700000000); env.rnd = n("rnd", 1); env.ent = n("ent", 1);
            env.fill = n("fill", 0xA5); env.alloc = n("alloc", 0); env.hash = n("hash", 0); env.shorts = n("shorts", 0); env.shortseed = n("shortseed", 1);
        } else if (w == "file") { FileDef f; l >> f.name; f.name = dec(f.name); kv(f.a); files.push_back(f); }
        else if (w == "op") { Op o; l >> o.id >> o.kind; kv(o.a); ops.push_back(o); }
        else if (w == "fault") {
            std::map<std::string, std::string> m; kv(m);
            Fault f; f.op = atoi(m["op"].c_str()); f.cls = ev_class(m["ev"]); f.nth = strtoul(m["nth"].c_str(), nullptr, 0);
            f.kind = m["kind"]; f.sticky = atoi(m["sticky"].c_str()); f.arg = strtoll(m["arg"].c_str(), nullptr, 0);
            if (f.cls < 0) { err = "fault class"; return false; }
            faults.push_back(f);
        } else if (w == "variant") l >> variant;
        else if (w == "class" || w == "detail" || w == "binary") {}
        else { err = "bad line: " + line; return false; }
    }
    return true;
}

// ------------------------------------------------------------------ contents
Bytes gen_content(uint64_t seed, size_t len, const std::string &style) {
    Rng r(seed * 2654435761u + 11);
    Bytes b(len);
    if (style == "zero") return b;
    if (style == "text") {
        std::string w[24];
        for (auto &x : w) for (int n = r.range(2, 9); n--;) x += (char)('a' + r.below(26));
        size_t i = 0;
        while (i < len) { const std::string &x = w[r.below(24)]; for (char c : x) if (i < len) b[i++] = c; if (i < len) b[i++] = ' '; }
        return b;
    }
    if (style == "runs") {
        size_t i = 0;
        while (i < len) { uint8_t v = r.below(4) ? r.next() : 0; size_t n = r.range(1, 700); while (n-- && i < len) b[i++] = v; }
        return b;
    }
    if (style == "period") {
        size_t p = r.range(1, 300); Bytes q(p); for (auto &x : q) x = r.next();
        for (size_t i = 0; i < len; i++) b[i] = q[i % p];
        return b;
    }
    for (auto &x : b) x = r.next();
    return b;
}
Bytes mutate_content(const Bytes &in, uint64_t seed, int n, int64_t len) {
    Rng r(seed * 7919 + 3);
    Bytes b = in;
    while (n-- > 0) {
        size_t L = b.size();
        switch (r.below(7)) {
        case 0: if (L) b[r.below(L)] ^= 1 + r.below(255); break;
        case 1: { size_t at = r.below(L + 1), k = r.range(1, 400); Bytes x(k); for (auto &c : x) c = r.next(); b.insert(b.begin() + at, x.begin(), x.end()); break; }
        case 2: if (L) { size_t at = r.below(L), k = std::min<size_t>(L - at, r.range(1, 600)); b.erase(b.begin() + at, b.begin() + at + k); } break;
        case 3: if (L) { size_t at = r.below(L), k = std::min<size_t>(L - at, r.range(1, 900)); for (size_t i = 0; i < k; i++) b[at + i] += 1 + i % 3; } break;
        case 4: if (L > 2) { size_t at = r.below(L), k = std::min<size_t>(L - at, r.range(1, 3000)), to; Bytes x(b.begin() + at, b.begin() + at + k);
                 b.erase(b.begin() + at, b.begin() + at + k); to = r.below(b.size() + 1); b.insert(b.begin() + to, x.begin(), x.end()); } break;
        case 5: if (L && L < 60000) { size_t at = r.below(L), k = std::min<size_t>(L - at, r.range(1, 2000)); Bytes x(b.begin() + at, b.begin() + at + k);
                 size_t to = r.below(L + 1); b.insert(b.begin() + to, x.begin(), x.end()); } break;
        case 6: { size_t k = r.range(1, 1500); Bytes x = gen_content(r.next(), k, r.p(0.5) ? "zero" : "text"); b.insert(b.end(), x.begin(), x.end()); break; }
        }
    }
    if (len >= 0) {
        size_t o = b.size(); b.resize(len);
        for (size_t i = o; i < b.size(); i++) b[i] = r.next();
    }
    return b;
}
Bytes make_file(const Scenario &s, const FileDef &f, std::map<std::string, Bytes> &done) {
    if (f.a.count("hex")) return unhex(f.s("hex"));
    if (f.a.count("base")) {
        Bytes b = done[f.s("base")];
        return mutate_content(b, f.i("seed"), f.i("mut", 1), f.a.count("len") ? f.i("len") : -1);
    }
    return gen_content(f.i("seed"), f.i("len"), f.s("style", "rand"));
}
