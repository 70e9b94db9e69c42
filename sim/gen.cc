// Scenario generators (one per property) and fault placement.
#include "scen.h"
#include "model.h"
#include <algorithm>

struct Gen {
    Rng r;
    Scenario s;
    bool thorough;
    int nid = 0, nfile = 0, nsig = 0;
    std::map<std::string, PState> pk;
    std::map<std::string, Bytes> content;
    std::map<int, std::string> open;      // handle -> file
    int nextpart = 0, nextmeta = 0;
    bool py = false;                      // the Python binding is available
    bool allow_nohash = true, allow_merkle = true, allow_rsa = false, allow_big = true, direct_sign = true;
    int maxlen = 20000;
    std::vector<std::string> keys = { "p256a", "p256b", "p384a", "p384b", "p521a", "p521b" };
    Gen(uint64_t seed, bool th) : r(seed), thorough(th) {}

    Op &op(const std::string &kind) { Op o; o.id = nid++; o.kind = kind; s.ops.push_back(o); return s.ops.back(); }
    std::string file(size_t len, const std::string &style = "") {
        FileDef f; f.name = strf("in%d", nfile++);
        static const std::vector<std::string> st = { "rand", "zero", "text", "runs", "period" };
        f.a["seed"] = std::to_string(r.below(1u << 30)); f.a["len"] = std::to_string(len); f.a["style"] = style.empty() ? r.pick(st) : style;
        // bsdiff is quadratic on long repetitive inputs
        if (len > 100000 && (f.a["style"] == "period" || f.a["style"] == "zero")) f.a["style"] = "text";
        content[f.name] = make_file(s, f, content);
        s.files.push_back(f);
        return f.name;
    }
    std::string mutated(const std::string &base, int n, int64_t len = -1) {
        FileDef f; f.name = strf("in%d", nfile++);
        f.a["base"] = base; f.a["seed"] = std::to_string(r.below(1u << 30)); f.a["mut"] = std::to_string(n);
        if (len >= 0) f.a["len"] = std::to_string(len);
        content[f.name] = make_file(s, f, content);
        s.files.push_back(f);
        return f.name;
    }
    std::string raw(const std::string &name, const Bytes &b, bool junk = false, bool wild = false) {
        FileDef f; f.name = name; f.a["hex"] = hex(b.data(), b.size());
        if (junk) f.a["junk"] = "1";
        if (wild) f.a["wild"] = "1";
        content[name] = b;
        s.files.push_back(f);
        return name;
    }
    size_t len() {
        switch (r.below(12)) {
        case 0: return 0;
        case 1: return r.range(1, 3);
        case 2: return 512 * r.range(1, 8) + r.range(-1, 1);
        case 3: return 4096 * r.range(1, 4) + r.range(-1, 1);
        case 4: return r.range(1, 511);
        case 5: return allow_big && r.p(0.25) ? r.range(30000, 70000) : r.range(1, maxlen);
        default: return r.range(1, maxlen / (r.p(0.6) ? 6 : 1) + 2);
        }
    }
    size_t treelen() { return 4096 * (r.p(0.07) && allow_big ? (r.p(0.6) ? r.range(127, 131) : r.range(129, 260)) : r.p(0.3) ? 1 : r.range(1, 9)); }
    std::string pname() { return strf("part%d", nextpart++); }
    std::string lib_or_cli(double p = 0.4) { return r.p(p) ? "cli" : "lib"; }
    std::string newpkg(const std::string &f, int hk = 0, int sk = 0, const std::string &via = "") {
        Op &o = op("create");
        if (!hk) hk = r.p(0.6) ? 1 : r.range(1, 3);
        if (!sk) sk = r.range(1, 4);
        o.set("f", f).set("hk", hk).set("sk", sk).set("via", via.empty() ? lib_or_cli() : via);
        if (r.p(0.3) && o.s("via") == "cli") o.set("prompt", 1);
        PState p; p.hk = hk; p.sk = sk;
        pk[f] = p;
        return f;
    }
    // attach target: file via lib/cli, or an open handle of that file
    void target(Op &o, const std::string &f, double pcli = 0.4) {
        for (auto &h : open) if (h.second == f) { o.set("h", h.first); return; }
        o.set("f", f).set("via", lib_or_cli(pcli));
        if (py && r.p(0.5)) { o.set("via", "py"); if (r.p(0.25)) o.set("end", r.p(0.5) ? "with" : "drop"); }
    }
    bool is_open(const std::string &f) { for (auto &h : open) if (h.second == f) return true; return false; }
    void apply(const std::string &f, Op &o) {
        Inputs in; std::string n = o.kind == "addfile" ? o.s("in") : o.s("file");
        if (!n.empty() && content.count(n)) in.in = &content[n];
        std::string why;
        PState t = pk[f];
        if (model_apply(t, o, in, why) == E_MUST) pk[f] = t;
    }
    void open_h(const std::string &f, int h) { op("open").set("f", f).set("h", h).set("mode", "r+"); open[h] = f; }
    void close_h(int h) { op("close").set("h", h); open.erase(h); }
    void close_all() { while (!open.empty()) close_h(open.begin()->first); }

    Op &addfile(const std::string &f, bool merkle = false, const std::string &in = "", const std::string &part = "", double pcli = 0.4) {
        std::string i = in.empty() ? file(merkle ? treelen() : len()) : in;
        Op &o = op("addfile");
        o.set("part", part.empty() ? pname() : part).set("in", i);
        if (merkle) o.set("merkle", 1);
        if (allow_nohash && r.p(0.15)) o.set("nohash", 1);
        target(o, f, pcli);
        apply(f, o);
        return o;
    }
    // P-256 is much the cheapest; the other curves take the same paths
    std::string key() { return allow_rsa && r.p(0.15) ? (r.p(0.5) ? "rsaa" : "rsab") : r.p(0.65) ? (r.p(0.5) ? "p256a" : "p256b") : r.pick(keys); }
    Op &addkey(const std::string &f, const std::string &k = "", const std::string &part = "") {
        Op &o = op("addkey");
        std::string kk = k.empty() ? (r.p(0.25) ? (r.p(0.5) ? "rsaa" : "rsab") : key()) : k;
        o.set("key", kk).set("part", part.empty() ? pname() : part);
        if (r.p(0.2)) o.set("keyfile", kk + ".pub.der");
        if (allow_nohash && r.p(0.1)) o.set("nohash", 1);
        target(o, f);
        apply(f, o);
        return o;
    }
    std::string uuid() { Bytes b = gen_content(r.next(), 16, "rand"); std::string h = hex(b.data(), 16); return h.substr(0, 8) + "-" + h.substr(8, 4) + "-" + h.substr(12, 4) + "-" + h.substr(16, 4) + "-" + h.substr(20); }
    std::string word(int a, int b) { std::string w; for (int n = r.range(a, b); n--;) w += (char)('a' + r.below(26)); return w; }
    Op &addmeta(const std::string &f, const std::string &id = "") {
        Op &o = op("addmeta");
        int k = r.below(8);
        if (!id.empty()) o.set("id", id);
        if (k == 0 && id.empty()) o.set("id", "bpak-package").set("str", uuid()).set("enc", "uuid");
        else if (k == 1 && id.empty()) o.set("id", "bpak-version").set("str", word(1, 40));
        else if (k == 2 && id.empty()) o.set("id", "pb-load-addr").set("str", strf("0x%llx", (unsigned long long)r.below(1ull << 40))).set("enc", "integer");
        else if (k == 3 && id.empty()) o.set("id", "keystore-provider-id").set("str", word(3, 9)).set("enc", "id");
        else {
            if (id.empty()) o.set("id", strf("meta%d", nextmeta++));
            int q = r.below(5);
            if (q == 0) o.set("hex", hexof(r.range(0, 40)));
            else if (q == 1) o.set("file", file(r.p(0.1) ? r.range(1900, 2500) : r.range(1, 300), "rand"));
            else if (q == 2) o.set("str", std::to_string(r.range(-1000, 100000))).set("enc", "integer");
            else o.set("str", word(0, 60));
        }
        if (!pk[f].parts.empty() && r.p(0.35) && o.s("id") != "bpak-package") o.set("ref", strf("0x%08x", r.pick(pk[f].parts).id));
        target(o, f);
        apply(f, o);
        return o;
    }
    std::string hexof(size_t n) { Bytes b = gen_content(r.next(), n, "rand"); return hex(b.data(), n); }
    std::string uuid_meta(const std::string &f, const std::string &u) {
        Op &o = op("addmeta"); o.set("id", "bpak-package").set("str", u).set("enc", "uuid");
        target(o, f); apply(f, o);
        return u;
    }
    std::string idhex(uint32_t id) { return strf("0x%08x", id); }
    Op &sign(const std::string &f, const std::string &k = "") {
        if (!direct_sign) {
            std::string kk = k.empty() ? key() : k, sf = strf("sig%d", nsig++);
            for (auto it = open.begin(); it != open.end();) { if (it->second == f) { int h = it->first; ++it; close_h(h); } else ++it; }
            op("extsign").set("f", f).set("key", kk).set("o", sf);
            Op &o = op("signraw"); o.set("file", sf); target(o, f);
            return o;
        }
        Op &o = op("sign");
        o.set("key", k.empty() ? key() : k);
        target(o, f);
        apply(f, o);
        return o;
    }
    Op &setid(const std::string &f) {
        Op &o = op("setid");
        if (r.p(0.7)) o.set("key", r.p(0.5) ? word(3, 8) : idhex(r.next()));
        if ((r.p(0.7) && !py) || !o.has("key")) o.set("ks", r.p(0.5) ? word(3, 8) : idhex(r.next()));
        target(o, f); apply(f, o);
        return o;
    }
    Op *setmeta(const std::string &f) {
        if (is_open(f)) return nullptr;
        std::vector<Meta> c;
        for (auto &m : pk[f].metas) if (m.ref == 0 && !m.wild) c.push_back(m);
        if (c.empty()) return nullptr;
        Meta m = r.pick(c);
        Op &o = op("setmeta");
        o.set("id", idhex(m.id)).set("f", f).set("via", "cli");
        if (m.data.size() == 8 && r.p(0.7)) o.set("str", std::to_string(r.range(-100, 1 << 30))).set("enc", "integer");
        else if (m.data.size() == 4 && r.p(0.7)) o.set("str", word(2, 9)).set("enc", "id");
        else o.set("str", word(0, r.p(0.5) ? 90 : 12));
        if (r.p(0.15)) { if (r.p(0.6)) o.set("key", word(3, 8)); if (r.p(0.6)) o.set("ks", idhex(r.next())); }
        apply(f, o);
        return &o;
    }
    Op *delmeta(const std::string &f) {
        auto &m = pk[f].metas;
        if (m.empty()) return nullptr;
        Meta x = r.pick(m);
        if (x.id == ID_SALT || x.id == ID_ROOT) return nullptr;
        Op &o = op("delmeta");
        o.set("id", idhex(x.id)); if (x.ref) o.set("ref", idhex(x.ref));
        target(o, f, 0); apply(f, o);
        return &o;
    }
    Op *delpart(const std::string &f) {
        auto &p = pk[f].parts;
        if (p.empty()) return nullptr;
        Part x = r.pick(p);
        Op &o = op("delpart");
        o.set("part", idhex(x.id)); if (!py && r.p(0.3)) o.set("keep", 1);
        target(o, f); apply(f, o);
        return &o;
    }
    Op &delall(const std::string &f) { Op &o = op("delall"); if (r.p(0.4)) o.set("keep", 1); target(o, f); apply(f, o); return o; }
    Op *tradd(const std::string &f, uint32_t id, int kind) {
        static const char *en[] = { "bsdiff", "bsdiff-lzma", "bsdiff-no-comp", "remove-data" };
        static const char *de[] = { "bspatch", "bspatch-lzma", "bspatch-no-comp", "merkle-generate" };
        Op &o = op("tradd");
        o.set("part", idhex(id)).set("enc", en[kind]).set("dec", de[kind]);
        target(o, f); apply(f, o);
        return &o;
    }
    int trkind() { int k = r.below(10); return k < 5 ? 0 : k < 7 ? 1 : 2; }        // LZMA clears 94 MB for every part
    void signraw(const std::string &f) {
        Op &o = op("signraw");
        size_t n = r.p(0.15) ? 0 : r.p(0.15) ? r.range(513, 700) : r.p(0.2) ? 512 : r.range(1, 511);
        if (r.p(0.5)) o.set("hex", hexof(n));
        else { std::string nm = strf("sigf%d", nsig++); raw(nm, gen_content(r.next(), n, "rand")); o.set("file", nm); }
        target(o, f); apply(f, o);
    }
    void refused(const std::string &f) {        // an edit that must be refused
        PState &p = pk[f];
        switch (r.below(12)) {
        case 0: if (!p.parts.empty()) { // duplicate part: names are only known by id, so repeat the last add
                    for (int i = (int)s.ops.size() - 1; i >= 0; i--) if (s.ops[i].kind == "addfile" && !s.ops[i].i("merkle") && p.part(ref_id(s.ops[i].s("part")))) {
                        Op c = s.ops[i]; Op &o = op("addfile"); o.a = c.a; o.a.erase("h"); o.a.erase("f"); o.a.erase("via"); target(o, f); apply(f, o); return; } } break;
        case 1: { Op &o = op("addfile"); o.set("part", pname()).set("in", "missing-file"); if (r.p(0.3)) o.set("merkle", 1); target(o, f); break; }
        case 2: { Op &o = op("addfile"); o.set("part", pname()).set("in", file(r.p(0.3) ? 0 : 4096 * r.range(0, 3) + r.range(1, 4095))).set("merkle", 1); target(o, f); break; }
        case 3: { Op &o = op("delpart"); o.set("part", "no-such-part"); target(o, f); break; }
        case 4: { Op &o = op("sign"); o.set("key", "none").set("keyfile", r.p(0.5) ? "missing.pem" : "k1.pub.pem").set("badkey", 1); target(o, f); break; }
        case 5: { Op &o = op("addkey"); o.set("key", "none").set("keyfile", r.p(0.3) ? "missing.pem" : r.p(0.5) ? "rsa2k.pub.pem" : "k1.pub.pem").set("part", pname()).set("badkey", 1); target(o, f); break; }
        case 6: if (!p.metas.empty()) { Meta m = r.pick(p.metas); Op &o = op("addmeta"); o.set("id", idhex(m.id)).set("str", word(1, 9)); if (m.ref) o.set("ref", idhex(m.ref)); target(o, f); apply(f, o); } break;
        case 7: { Op &o = op("addmeta"); o.set("id", strf("meta%d", nextmeta++)); if (r.p(0.5)) o.set("hex", hexof(1921 + r.below(60))); else o.set("file", file(1921 + r.below(900), "rand")); target(o, f); apply(f, o); break; }
        case 8: if (!is_open(f)) { Op &o = op("setmeta"); o.set("id", "no-such-meta").set("str", "x").set("f", f).set("via", "cli"); } break;
        case 9: { Op &o = op("signraw"); if (r.p(0.5)) o.set("hex", r.p(0.5) ? "" : hexof(513 + r.below(200)));
                  else { std::string nm = strf("sigf%d", nsig++); raw(nm, gen_content(r.next(), r.p(0.5) ? 0 : 513 + r.below(3000), "rand")); o.set("file", nm); }
                  target(o, f); apply(f, o); break; }
        case 10: { Op &o = op("addmeta"); o.set("id", strf("meta%d", nextmeta++)).set("str", r.p(0.5) ? "not-a-uuid" : "zzz"); o.set("enc", r.p(0.5) ? "uuid" : "integer"); target(o, f, 1.0); if (o.has("h")) { s.ops.pop_back(); nid--; } else apply(f, o); break; }
        case 11: if (!is_open(f)) {
                std::vector<Meta> c; for (auto &m : p.metas) if (m.ref == 0) c.push_back(m);
                if (c.empty()) break;
                Meta m = r.pick(c); Op &o = op("setmeta"); o.set("id", idhex(m.id)).set("f", f).set("via", "cli");
                if (m.data.size() != 8 && r.p(0.5)) o.set("str", "77").set("enc", "integer");
                else if (m.data.size() != 4 && r.p(0.5)) o.set("str", "abc").set("enc", "id");
                else if (r.p(0.5)) o.set("str", "abc").set("enc", "nonsense");
                else o.set("str", word(1921, 2100));
                apply(f, o); } break;
        }
    }
    // almost or completely full tables
    void crowd(const std::string &f) {
        bool mine = false;
        if (!is_open(f) && r.p(0.8)) { open_h(f, 70); mine = true; }
        if (r.p(0.55)) {
            std::vector<std::string> in; for (int k = r.range(1, 3); k--;) in.push_back(file(r.range(0, 700)));
            for (int want = r.range(29, 33); (int)pk[f].parts.size() < want;) { size_t n = pk[f].parts.size(); addfile(f, false, r.pick(in), "", 0.1); if (pk[f].parts.size() == n) break; }
        } else {
            bool one = r.p(0.4);
            for (int want = r.range(28, 33); (int)pk[f].metas.size() < want;) {
                size_t n = pk[f].metas.size(); int left = 1920 - (int)pk[f].meta_space_used();
                Op &o = op("addmeta"); o.set("id", strf("meta%d", nextmeta++)).set("hex", hexof(one ? std::max<int>(0, left - (int)r.range(0, 160)) : r.range(0, 40)));
                target(o, f, 0); apply(f, o);
                if (one || pk[f].metas.size() == n) break;
            }
        }
        if (mine && r.p(0.6)) close_h(70);
    }
    void edit(const std::string &f, double prefused = 0.12) {
        if (r.p(prefused)) { refused(f); return; }
        PState &p = pk[f];
        int k = r.below(100);
        if (k < 26 || p.parts.empty()) addfile(f, false);
        else if (k < 38 && allow_merkle) addfile(f, true);
        else if (k < 44) addkey(f);
        else if (k < 60) addmeta(f);
        else if (k < 66) setmeta(f);
        else if (k < 72) setid(f);
        else if (k < 78) delmeta(f);
        else if (k < 86) delpart(f);
        else if (k < 88) delall(f);
        else if (k < 95) sign(f);
        else if (k < 98) signraw(f);
        else if (!p.parts.empty()) { Part x = r.pick(p.parts); tradd(f, x.id, trkind()); }
    }
    void maybe_handles(const std::string &f, int &h) {
        if (!is_open(f)) { if (r.p(0.25)) open_h(f, h++); }
        else if (r.p(0.3)) close_all();
    }
    // copy of a finished package, so that it can be damaged
    std::string copy(const std::string &f, const std::string &t) { op("copy").set("f", f).set("o", t); return t; }
    void env(bool shorts = true) {
        static const std::vector<int> st = { 4096, 4096, 4096, 512, 512, 1024, 1024, 8192, 65536, 65536, 256, 1 };
        s.env.stdio = r.pick(st); s.env.rnd = r.below(1000); s.env.ent = r.below(1000); s.env.fill = r.below(256);
        s.env.time = 1500000000 + r.below(400000000);
        s.env.shorts = shorts && r.p(0.3) ? r.range(5, 60) : 0; s.env.shortseed = r.below(1000);
    }
    void reads(const std::string &f, int n, double pcli = 0.5);
    void verify(const std::string &f, const std::string &key, const std::string &ks = "") {
        Op &o = op("verify"); o.set("f", f).set("via", lib_or_cli(0.4));
        if (!ks.empty()) o.set("ks", ks); else o.set("key", key);
        if (o.s("via") == "lib" && r.p(0.3)) o.set("mode", "r+");
    }
    // keystore with some keys; returns file name, fills key ids
    std::string keystore(const std::string &f, const std::string &ksname, std::vector<std::pair<std::string, std::string>> &parts, int n) {
        newpkg(f, 0, 0);
        uuid_meta(f, uuid());
        Op &o = op("addmeta"); o.set("id", "keystore-provider-id").set("str", ksname).set("enc", "id"); target(o, f); apply(f, o);
        for (int i = 0; i < n; i++) {
            std::string part = strf("key-%s%d", f.c_str(), i), k = r.p(0.15) ? "rsaa" : r.pick(keys);
            addkey(f, k, part);
            parts.push_back({ part, k });
        }
        return f;
    }
    void corrupt_header(const std::string &f, bool hostile);
    void corrupt_any(const std::string &f);
    void origin_target(const std::string &fo, const std::string &ft, bool signit, const std::string &key, bool &trees);
    void finish(const std::string &prop, uint64_t seed) {
        s.prop = prop; s.seed = seed;
        double pv = r.p(0.3) ? 0.4 : 0.04, po = r.p(0.3) ? 0.7 : 0.2;      // how commands are spelled
        for (auto &o : s.ops) {
            if ((o.kind == "encode" || o.kind == "decode") && o.s("via") != "cli") { if (r.p(0.15)) o.set("again", r.range(1, 2)); if (r.p(0.15)) o.set("rewrite", 1); }
            if (o.kind == "cli" && o.i("bare")) continue;
            if (r.p(pv) && o.kind != "extractmeta" && o.kind != "extsign" && o.kind != "generate" && !(o.kind == "extract" && !o.has("o"))) o.set("verb", r.range(1, 7));
            if (r.p(po)) o.set("opt", r.range(1, 7));
        }
    }
};

void Gen::reads(const std::string &f, int n, double pcli) {
    while (n-- > 0) {
        bool haspart = pk.count(f) && !pk[f].parts.empty() && r.p(0.85);
        std::string part = haspart ? idhex(r.pick(pk[f].parts).id) : r.p(0.5) ? "no-such-part" : "part0";
        bool hasmeta = pk.count(f) && !pk[f].metas.empty() && r.p(0.85);
        Meta m; if (hasmeta) m = r.pick(pk[f].metas);
        std::string mid = hasmeta ? idhex(m.id) : "no-such-meta";
        switch (r.below(10)) {
        case 0: case 1: { Op &o = op("extract"); o.set("f", f).set("part", part).set("via", lib_or_cli(pcli)); if (r.p(0.7)) o.set("o", r.p(0.06) ? f : strf("out%d", (int)r.below(3))); break; }
        case 2: { Op &o = op("extractmeta"); o.set("f", f).set("id", mid); if (hasmeta && m.ref) o.set("ref", idhex(m.ref)); if (r.p(0.6)) o.set("o", r.p(0.06) ? f : strf("out%d", (int)r.below(3))); break; }
        case 3: op("show").set("f", f).set("what", "all"); break;
        case 4: { Op &o = op("show"); o.set("f", f).set("what", "meta").set("id", mid); if (hasmeta && m.ref) o.set("ref", idhex(m.ref)); break; }
        case 5: op("show").set("f", f).set("what", r.p(0.5) ? "part" : "parthash").set("part", part); break;
        case 6: op("show").set("f", f).set("what", r.p(0.5) ? "hash" : "bhash"); break;
        case 7: op("parthash").set("f", f).set("part", part); break;
        case 8: op("compare").set("a", f).set("b", pk.size() > 1 && r.p(0.7) ? std::next(pk.begin(), r.below(pk.size()))->first : f); break;
        case 9: verify(f, key()); break;
        }
    }
}
void Gen::corrupt_header(const std::string &f, bool hostile) {
    Op &o = op("corrupt"); o.set("f", f);
    auto u = [&](int n) { // interesting integers
        static const uint64_t v[] = { 0, 1, 2, 511, 512, 513, 4095, 4096, 4097, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0xfffffffffffff000ull, 1920, 1919, 65535, 33, 1ull << 40 };
        uint64_t x = r.p(0.75) ? v[r.below(21)] : r.next() >> r.below(64);
        if (r.p(0.15)) x = 0 - x;
        Bytes b(8); wr64(b.data(), x); b.resize(n);
        return hex(b.data(), n);
    };
    // layout: meta header {id4,size2,offset2,ref4,pad4}; part header {id4,size8,offset8,transport8,pad2,flags1,rz1}
    int i = r.below(r.p(0.7) ? 4 : 32);
    switch (r.below(hostile ? 14 : 14)) {
    case 0: o.set("how", "set").set("at", OFF_META + 16 * i + 4).set("hex", u(2)); break;
    case 1: o.set("how", "set").set("at", OFF_META + 16 * i + 6).set("hex", u(2)); break;
    case 2: o.set("how", "set").set("at", OFF_META + 16 * i).set("hex", u(4)); break;
    case 3: o.set("how", "set").set("at", OFF_META + 16 * i + 8).set("hex", u(4)); break;
    case 4: o.set("how", "set").set("at", OFF_PARTS + 32 * i + 4).set("hex", u(8)); break;
    case 5: o.set("how", "set").set("at", OFF_PARTS + 32 * i + 12).set("hex", u(8)); break;
    case 6: o.set("how", "set").set("at", OFF_PARTS + 32 * i + 20).set("hex", u(8)); break;
    case 7: o.set("how", "set").set("at", OFF_PARTS + 32 * i + 28).set("hex", u(2)); break;
    case 8: o.set("how", "set").set("at", OFF_PARTS + 32 * i + 30).set("hex", u(1)); break;
    case 9: o.set("how", "set").set("at", OFF_HK + (int)r.below(4)).set("hex", u(1)); break;
    case 10: o.set("how", "set").set("at", OFF_SIGSZ).set("hex", u(2)); break;
    case 11: o.set("how", "flip").set("at", (int64_t)r.below(HDR)).set("x", 1 << r.below(8)); break;
    case 12: { int from = r.below(32), to = r.below(32); bool parts = r.p(0.5); o.set("how", "swap").set("at", parts ? OFF_PARTS + 32 * from : OFF_META + 16 * from).set("at2", parts ? OFF_PARTS + 32 * to : OFF_META + 16 * to).set("len", parts ? 32 : 16); break; }
    case 13: o.set("how", "rand").set("at", (int64_t)r.below(HDR)).set("len", r.range(1, 64)).set("seed", (int64_t)r.below(100000)); break;
    }
}
void Gen::corrupt_any(const std::string &f) {
    uint64_t total = HDR;
    PState &p = pk[f];
    for (auto &q : p.parts) total += q.stored_len();
    int k = r.below(13);
    if (k > 9) { // one bit or a few bytes of one header field, every field alike
        int np = std::max<int>(1, p.parts.size()), nm = std::max<int>(1, p.metas.size());
        int i = r.p(0.75) ? r.below(np) : r.below(32), j = r.p(0.75) ? r.below(nm) : r.below(32);
        int P = OFF_PARTS + 32 * i, M = OFF_META + 16 * j;
        const std::pair<int, int> fs[] = { { 0, 4 }, { 4, 4 }, { M, 4 }, { M + 4, 2 }, { M + 6, 2 }, { M + 8, 4 }, { M + 12, 4 },
            { P, 4 }, { P + 4, 8 }, { P + 12, 8 }, { P + 20, 8 }, { P + 28, 2 }, { P + 30, 1 }, { P + 31, 1 },
            { OFF_METADATA, p.meta_space_used() ? (int)p.meta_space_used() : 8 }, { OFF_METADATA, 1920 }, { OFF_HK, 1 }, { OFF_HK + 1, 1 }, { OFF_HK + 2, 2 },
            { OFF_HK + 4, 64 }, { OFF_HK + 68, 4 }, { OFF_HK + 72, 4 }, { OFF_HK + 76, 42 }, { OFF_SIG, 512 }, { OFF_SIG, 70 }, { OFF_SIGSZ, 2 } };
        auto w = fs[r.below(sizeof(fs) / sizeof(*fs))];
        Op &o = op("corrupt"); o.set("f", f).set("at", (int64_t)(w.first + r.below(w.second)));
        if (r.p(0.7)) o.set("how", "flip").set("x", 1 << r.below(8)); else o.set("how", "set").set("hex", hexof(1));
        return;
    }
    if (k < 4 || total == HDR) { corrupt_header(f, false); return; }
    if (k == 4 && !p.parts.empty()) { // the edges of a part: first, last, padding
        uint64_t at = HDR; auto pi = r.below(p.parts.size());
        for (size_t q = 0; q < pi; q++) at += p.parts[q].stored_len();
        uint64_t n = p.parts[pi].stored_len();
        if (n) { static const int d[] = { 0, 1, 511, 512, 4095, 4096 };
            uint64_t off = std::min<uint64_t>(n - 1, d[r.below(6)]);
            op("corrupt").set("f", f).set("how", "flip").set("at", (int64_t)(at + (r.p(0.5) ? off : n - 1 - off))).set("x", 1 << r.below(8));
            return; }
    }
    Op &o = op("corrupt"); o.set("f", f);
    if (k < 7) o.set("how", "flip").set("at", (int64_t)(HDR + r.below(total - HDR))).set("x", 1 << r.below(8));
    else if (k == 7) o.set("how", "trunc").set("at", (int64_t)(r.p(0.3) ? r.below(HDR + 1) : HDR + r.below(total - HDR)));
    else if (k == 8) o.set("how", "zero").set("at", (int64_t)(HDR + r.below(total - HDR))).set("len", r.range(1, 5000));
    else { uint64_t a = HDR + r.below(total - HDR), b = HDR + r.below(total - HDR); o.set("how", "swap").set("at", (int64_t)a).set("at2", (int64_t)b).set("len", r.range(1, 600)); }
}
// two packages of one identity: origin fo, target ft with transport metadata
void Gen::origin_target(const std::string &fo, const std::string &ft, bool signit, const std::string &k, bool &trees) {
    std::string u = uuid();
    bool many = r.p(0.02);
    int n = many ? r.range(8, 30) : r.range(1, 4);
    struct P { std::string name, in, in2; bool merkle; int tr; };
    std::vector<P> ps;
    trees = false;
    for (int i = 0; i < n; i++) {
        P p; p.name = pname();
        p.merkle = allow_merkle && !many && r.p(0.3);
        if (many) { p.in = ps.empty() ? file(r.range(1, 900)) : mutated(ps[0].in, 1); p.in2 = mutated(p.in, 1); }
        else if (p.merkle) { p.in = file(treelen()); p.in2 = mutated(p.in, r.range(0, 5), treelen()); }
        else {
            p.in = file(len());
            if (r.p(0.12)) p.in2 = file(len()); else p.in2 = mutated(p.in, r.p(0.1) ? 0 : r.range(1, 6));
        }
        p.tr = r.p(many ? 0.4 : 0.75) ? many ? r.p(0.5) ? 0 : 2 : trkind() : -1;
        ps.push_back(p);
    }
    int hk = r.p(0.6) ? 1 : r.range(1, 3);
    newpkg(fo, hk); newpkg(ft, hk);
    auto fill = [&](const std::string &f, bool second) {
        bool inh = r.p(0.3);
        if (inh) open_h(f, second ? 61 : 60);
        bool ulate = r.p(0.3);
        // another value under the identity's name, but about one part only
        bool decoy = r.p(0.2), before = r.p(0.5);
        auto dec = [&]() { Op &o = op("addmeta"); o.set("id", "bpak-package").set("str", uuid()).set("enc", "uuid").set("ref", idhex(ref_id(ps[0].name))); target(o, f); apply(f, o); };
        if (decoy && before) dec();
        if (!ulate) uuid_meta(f, u);
        if (decoy && !before) dec();
        std::vector<P> v = ps;
        if (!second && r.p(0.4)) std::reverse(v.begin(), v.end());
        if (!second && r.p(0.3)) addfile(f, false);
        for (auto &p : v) { bool nh = allow_nohash; addfile(f, p.merkle, second ? p.in2 : p.in, p.name); allow_nohash = nh; }
        if (ulate) uuid_meta(f, u);
        if (second) {
            for (auto &p : v) {
                if (p.tr >= 0) tradd(f, ref_id(p.name), p.tr);
                if (p.merkle && r.p(0.75)) { tradd(f, ref_tree_id(ref_id(p.name)), 3); trees = true; }
                else if (p.merkle && r.p(0.5)) tradd(f, ref_tree_id(ref_id(p.name)), trkind());
            }
        }
        if (r.p(0.4)) addmeta(f);
        if (r.p(0.3)) setid(f);
        if (signit) sign(f, k);
        if (inh) close_all();
    };
    fill(fo, false);
    fill(ft, true);
    close_all();
}

// ------------------------------------------------------------------ generators
static void gen_edits(Gen &G, int lo, int hi, double prefused, bool handles) {
    G.newpkg("a.bpak");
    bool two = G.r.p(0.2);
    if (two) G.newpkg("b.bpak");
    int n = G.r.range(lo, hi), h = 1, full = G.r.p(0.06) ? G.r.below(n) : -1;
    for (int i = 0; i < n; i++) {
        if (i == full) G.crowd("a.bpak");
        std::string f = two && G.r.p(0.3) ? "b.bpak" : "a.bpak";
        if (handles) G.maybe_handles(f, h);
        G.edit(f, prefused);
    }
    G.close_all();
}
static void gen_junk(Gen &G) {
    static const std::vector<std::string> ops = { "addfile", "addkey", "addmeta", "setmeta", "setid", "delpart", "delall", "sign", "signraw", "tradd" };
    Bytes b;
    switch (G.r.below(6)) {
    case 0: b = gen_content(G.r.next(), G.r.range(1, 4095), "text"); break;
    case 1: b = gen_content(G.r.next(), G.r.range(4096, 9000), "rand"); break;
    case 2: b = gen_content(G.r.next(), G.r.range(1, 3), "rand"); break;
    case 3: { b = gen_content(G.r.next(), 4095, "zero"); b[0] = 'B'; b[1] = 'P'; b[2] = 'A'; b[3] = 'K'; b[4] = '2'; break; }
    case 4: b = gen_content(G.r.next(), 4096, "zero"); break;
    case 5: b = gen_content(G.r.next(), G.r.range(4000, 20000), "text"); break;
    }
    std::string f = strf("junk%d", (int)G.r.below(1000));
    G.raw(f, b, true);
    for (int n = G.r.range(1, 4); n--;) {
        std::string k = G.r.pick(ops);
        if (G.r.p(0.25)) { G.op("open").set("f", f).set("h", 90).set("mode", G.r.p(0.5) ? "r+" : "rb"); G.op("close").set("h", 90); continue; }
        Op &o = G.op(k);
        o.set("f", f).set("via", G.lib_or_cli(0.5));
        if (k == "addfile") { o.set("part", "px").set("in", G.file(G.r.range(1, 3000))); if (G.r.p(0.2)) o.set("merkle", 1); }
        if (k == "addkey") o.set("part", "px").set("key", "p256a");
        if (k == "addmeta") o.set("id", "mx").set("str", "val");
        if (k == "setmeta") o.set("id", "mx").set("str", "val");
        if (k == "setid") o.set("key", "kx");
        if (k == "delpart") o.set("part", "px");
        if (k == "sign") o.set("key", "p256a");
        if (k == "signraw") o.set("hex", "0102030405");
        if (k == "tradd") o.set("part", "px").set("enc", "bsdiff").set("dec", "bspatch");
    }
}
static void gen_transport_run(Gen &G, bool faulty) {
    Rng &r = G.r;
    std::string key = G.key();
    bool trees, sg = r.p(0.7) || faulty;
    G.origin_target("o.bpak", "t.bpak", sg, key, trees);
    Op &e = G.op("encode"); e.set("f", "t.bpak").set("origin", "o.bpak").set("o", "x.tr").set("via", G.lib_or_cli());
    auto dec = [&](const std::string &f, const std::string &o, const std::string &out) {
        Op &d = G.op("decode"); d.set("f", f).set("origin", o).set("o", out).set("via", G.lib_or_cli()).set("target", "t.bpak");
        if (sg) d.set("key", key);
    };
    if (faulty) {
        int n = r.range(1, 3);
        for (int i = 0; i < n; i++) {
            std::string f = "x.tr", o = "o.bpak";
            int c = r.below(4);
            if (c == 1) { // damaged patch
                G.copy("x.tr", "y.tr"); f = "y.tr";
                int k = r.below(6);
                if (k < 2) { Op &q = G.op("corrupt"); q.set("f", f).set("how", "flip").set("at", (int64_t)(HDR + r.below(3000))).set("x", 1 << r.below(8)); }
                else if (k == 2) { Op &q = G.op("corrupt"); q.set("f", f).set("how", "trunc").set("at", (int64_t)(HDR + r.below(2000))); }
                else if (k == 3) { Op &q = G.op("corrupt"); q.set("f", f).set("how", "rand").set("at", (int64_t)(HDR + r.below(1000))).set("len", r.range(1, 100)).set("seed", (int64_t)r.below(1000)); }
                else { // header, but not the uncovered end of the signature field
                    Op &q = G.op("corrupt"); q.set("f", f).set("how", "flip").set("at", (int64_t)(8 + r.below(OFF_SIG - 8))).set("x", 1 << r.below(8));
                }
            } else if (c == 2) { // another origin
                G.copy("o.bpak", "p.bpak"); o = "p.bpak";
                Op &q = G.op("corrupt"); q.set("f", o);
                if (r.p(0.6)) q.set("how", "flip").set("at", (int64_t)(HDR + r.below(9000))).set("x", 1 << r.below(8));
                else if (r.p(0.5)) q.set("how", "trunc").set("at", (int64_t)(HDR + r.below(9000)));
                else q.set("how", "zero").set("at", (int64_t)(HDR + r.below(9000))).set("len", r.range(1, 3000));
            }
            dec(f, o, "d.bpak");
        }
        dec("x.tr", "o.bpak", r.p(0.5) ? "d.bpak" : "e.bpak");
    } else {
        dec("x.tr", "o.bpak", "d.bpak");
        if (sg) G.op("verify").set("f", "d.bpak").set("key", key).set("via", G.lib_or_cli());
        if (r.p(0.25)) { // encode without origin what needs none
            G.newpkg("n.bpak"); G.addfile("n.bpak", true, "", "fsn");
            if (r.p(0.7)) { G.tradd("n.bpak", ref_tree_id(ref_id("fsn")), 3); }
            G.addfile("n.bpak", false);
            if (r.p(0.5)) G.sign("n.bpak");
            G.op("encode").set("f", "n.bpak").set("o", "n.tr").set("via", G.lib_or_cli());
            G.op("decode").set("f", "n.tr").set("o", "n2.bpak").set("via", G.lib_or_cli());
        }
        if (r.p(0.3)) { // the decoded package is the origin of the next generation
            G.pk["d.bpak"] = G.pk["t.bpak"];
            G.copy("t.bpak", "u.bpak"); G.pk["u.bpak"] = G.pk["t.bpak"];
            G.addmeta("u.bpak");
            G.op("encode").set("f", "u.bpak").set("origin", "d.bpak").set("o", "u.tr").set("via", G.lib_or_cli());
            G.op("decode").set("f", "u.tr").set("origin", "d.bpak").set("o", "v.bpak").set("via", G.lib_or_cli());
        }
    }
}
// steps: verify, damage, streamed verify, extract, hash, show, compare, transport; then edits
static void bigop(Gen &G, const std::string &f, const std::string &reads, const std::string &edits, const std::string &t = "") {
    Rng &r = G.r;
    static const std::vector<int64_t> base = { 1ll << 31, 1ll << 32, 3ll << 31, 5ll << 32, (1ll << 32) - 4096, (1ll << 31) - 4096, 1ll << 35 };
    std::string d;
    for (int n = r.range(1, 3); n-- && !reads.empty();) d += reads[r.below(reads.size())];
    for (int n = r.range(1, 3); n-- && !edits.empty();) d += edits[r.below(edits.size())];
    if (!edits.empty() && r.p(0.5)) d += 'R';
    if (d.empty()) return;
    std::string in = G.file(r.p(0.3) ? G.treelen() : G.len());
    Op &o = G.op("big");
    o.set("f", f).set("do", d).set("size", r.pick(base) + (r.p(0.5) ? r.range(0, 20000) : 512 * r.range(0, 40))).set("slot", r.p(0.4) ? 0 : (int64_t)r.below(8)).set("part", (int64_t)r.below(1000)).set("in", in).set("key", r.p(0.8) ? "p256a" : "p384a").set("cli", r.p(0.4));
    if (!t.empty()) o.set("t", t);
    if (r.p(0.3)) o.set("merkle", 1);
    if (r.p(0.3)) o.set("keep", 1);
    if (r.p(0.5)) o.set("ibase", r.p(0.5) ? 0 : (int64_t)r.below(1ll << 33));
}
static void rand_style(Gen &G, Op &o) {
    static const std::vector<int> bl = { 4096, 2, 4, 16, 64, 100, 256, 1024, 8192 };
    o.set("style", (int64_t)G.r.below(8)).set("seed", (int64_t)G.r.below(100000)).set("buflen", G.r.pick(bl));
    o.set("ibase", (int64_t)(G.r.p(0.5) ? 4096 : G.r.below(G.r.p(0.3) ? 1ull << 34 : 1ull << 20))).set("obase", (int64_t)(G.r.p(0.5) ? 4096 : G.r.below(G.r.p(0.3) ? 1ull << 34 : 1ull << 20)));
}
static void gen_stream(Gen &G) {
    Rng &r = G.r;
    int n = r.range(1, 3);
    for (int i = 0; i < n; i++) {
        switch (r.below(10)) {
        case 0: case 1: case 2: case 3: {
            std::string a = G.file(r.p(0.06) ? 0 : G.len()), b;
            if (r.p(0.2)) b = G.file(G.len()); else b = G.mutated(a, r.range(0, 7), r.p(0.1) ? (int64_t)r.below(200) : -1);
            Op &o = G.op("sdiff"); o.set("a", a).set("b", b).set("comp", (int64_t)r.below(3) + 0).set("off", (int64_t)r.below(r.p(0.2) ? 1ull << 34 : 10000));
            rand_style(G, o);
            if (r.p(0.1)) o.set("cut", (int64_t)r.below(100));
            else if (r.p(0.05)) o.set("flip", (int64_t)r.below(10000));
            break;
        }
        case 4: case 5: {
            Op &o = G.op("smerkle");
            o.set("a", G.file(r.p(0.15) ? G.len() : G.treelen())).set("salt", (int64_t)r.below(10000)).set("off", (int64_t)(r.p(0.5) ? 0 : 512 * r.below(r.p(0.3) ? 1 << 25 : 1000))).set("zerofill", r.p(0.7));
            rand_style(G, o);
            break;
        }
        case 6: {
            std::string f = strf("v%d.bpak", i);
            G.newpkg(f); for (int k = r.range(1, 4); k--;) G.addfile(f, r.p(0.4));
            Op &o = G.op("sverify"); o.set("f", f).set("ibase", (int64_t)(r.p(0.5) ? 4096 : r.below(r.p(0.3) ? 1ull << 34 : 1ull << 20)));
            if (r.p(0.2)) bigop(G, f, "s", "");
            break;
        }
        default: {
            if (G.pk.count("t.bpak")) break;
            bool trees; G.origin_target("o.bpak", "t.bpak", r.p(0.3), "p256a", trees);
            G.op("encode").set("f", "t.bpak").set("origin", "o.bpak").set("o", "x.tr").set("via", "lib");
            for (int k = r.range(1, 4); k--;) { Op &o = G.op("sdecode"); o.set("f", "x.tr").set("origin", "o.bpak"); rand_style(G, o); }
            break;
        }
        }
    }
}
static void gen_hostile(Gen &G) {
    Rng &r = G.r;
    // a package, a transport package with origin and a keystore
    int what = r.below(4);
    std::string f;
    if (what == 0) {
        f = "a.bpak"; G.newpkg(f);
        for (int n = r.range(1, 6); n--;) G.edit(f, 0);
        G.sign(f);
    } else if (what == 1) {
        bool t; G.origin_target("o.bpak", "t.bpak", r.p(0.5), "p256a", t);
        G.op("encode").set("f", "t.bpak").set("origin", "o.bpak").set("o", "x.tr").set("via", "lib");
        f = r.p(0.75) ? "x.tr" : r.p(0.5) ? "o.bpak" : "t.bpak";
    } else if (what == 2) {
        std::vector<std::pair<std::string, std::string>> ps;
        f = "k.bpak"; G.keystore(f, "ks-one", ps, r.range(1, 3));
    } else { f = "b.bpak"; G.newpkg(f); G.addfile(f, true); G.addfile(f); if (r.p(0.5)) G.addmeta(f); }
    std::string src = f;
    int rounds = r.range(1, 3);
    for (int i = 0; i < rounds; i++) {
        std::string c = strf("c%d", i);
        G.copy(src, c);
        if (G.pk.count(src)) G.pk[c] = G.pk[src]; else if (src == "x.tr") G.pk[c] = G.pk["t.bpak"];
        for (int n = r.range(1, 4); n--;) {
            int k = r.below(12);
            if (k < 7) G.corrupt_header(c, true);
            else if (k == 7) { // metadata area
                Op &o = G.op("corrupt"); o.set("f", c).set("how", "rand").set("at", (int64_t)(OFF_METADATA + r.below(200))).set("len", r.range(1, 64)).set("seed", (int64_t)r.below(100000));
            } else if (k == 8) { Op &o = G.op("corrupt"); o.set("f", c).set("how", "trunc").set("at", (int64_t)(r.p(0.3) ? r.below(HDR + 2) : HDR + r.below(12000))); }
            else if (k == 9) { Op &o = G.op("corrupt"); o.set("f", c).set("how", "rand").set("at", (int64_t)(HDR + r.below(r.p(0.5) ? 64 : 6000))).set("len", r.range(1, 64)).set("seed", (int64_t)r.below(100000)); }
            else if (k == 10) { Op &o = G.op("corrupt"); o.set("f", c).set("how", "append").set("len", r.range(1, 5000)).set("seed", (int64_t)r.below(100000)); }
            else { // control block of a patch: huge or negative counts
                static const uint64_t v[] = { 0, 1, 0x8000000000000001ull, 0x7fffffffffffffffull, 0xffffffffffffffffull, 0x10000, 0x8000000000001000ull, 4096, 0x7fffffff };
                Bytes b(8); wr64(b.data(), v[r.below(9)]);
                Op &o = G.op("corrupt"); o.set("f", c).set("how", "set").set("at", (int64_t)(HDR + 8 * r.below(3))).set("hex", hex(b.data(), 8));
            }
        }
        int nops = r.range(3, 7);
        for (int n = 0; n < nops; n++) {
            int k = r.below(what == 1 ? 22 : 15);
            if (k < 6) G.reads(c, 1);
            else if (k == 6) G.verify(c, G.key());
            else if (k == 7) { Op &o = G.op("ksload"); o.set("ks", c).set("ksid", "ks-one").set("key", r.p(0.7) ? "key-k.bpak0" : "key-k.bpak1"); }
            else if (k == 8) G.verify("" + c, "", r.p(0.5) ? c : "k.bpak");
            else if (k == 9) G.op("generate").set("f", c).set("what", "keystore");
            else if (k == 10) { G.op("sverify").set("f", c); }
            else if (k < 15) { // edit a hostile package copy
                std::string e = c + "e"; G.copy(c, e); G.pk[e] = G.pk[c];
                G.edit(e, 0.1);
            } else if (k < 17) { Op &o = G.op("sdecode"); o.set("f", c).set("origin", "o.bpak"); rand_style(G, o); if (r.p(0.2)) { o.set("f", "x.tr").set("origin", c); } }
            else if (k < 20) { Op &o = G.op("decode"); o.set("f", c).set("o", "out.d").set("via", G.lib_or_cli()); if (r.p(0.9)) o.set("origin", "o.bpak"); if (r.p(0.2)) o.set("f", "x.tr").set("origin", c); }
            else { Op &o = G.op("encode"); o.set("f", c).set("o", "out.e").set("via", G.lib_or_cli()); if (r.p(0.9)) o.set("origin", "o.bpak"); if (r.p(0.2)) o.set("f", "t.bpak").set("origin", c); }
        }
    }
    if (r.p(0.25)) { // hostile key and signature files
        static const std::vector<std::string> ks = { "p256a.pub.pem", "p256a.pem", "rsaa.pub.der", "p521a.pub.der", "rsaa.pem" };
        std::string base = r.pick(ks);
        G.op("copy").set("f", base).set("o", "hk");
        for (int n = r.range(1, 3); n--;) { Op &o = G.op("corrupt"); o.set("f", "hk"); if (r.p(0.7)) o.set("how", "flip").set("at", (int64_t)r.below(200)).set("x", 1 << r.below(8)); else if (r.p(0.5)) o.set("how", "trunc").set("at", (int64_t)r.below(200)); else o.set("how", "append").set("len", r.range(1, 4000)).set("seed", 5); }
        G.newpkg("z.bpak");
        for (int n = r.range(1, 3); n--;) {
            int k = r.below(4);
            if (k == 0) { Op &o = G.op("addkey"); o.set("f", "z.bpak").set("via", G.lib_or_cli()).set("part", G.pname()).set("key", "wild").set("keyfile", "hk").set("wildkey", 1); }
            else if (k == 1) { Op &o = G.op("sign"); o.set("f", "z.bpak").set("via", G.lib_or_cli()).set("key", "wild").set("keyfile", "hk").set("wildkey", 1); }
            else if (k == 2) { Op &o = G.op("verify"); o.set("f", "z.bpak").set("via", G.lib_or_cli()).set("key", "wild").set("keyfile", "hk"); }
            else { Op &o = G.op("signraw"); o.set("f", "z.bpak").set("via", "cli").set("file", "hk"); }
        }
    }
}
// what a boot loader or an application does with the header of f in memory
static void hdrop(Gen &G, const std::string &f, const char *kinds, int lo, int hi) {
    Rng &r = G.r;
    Op &o = G.op("hdr"); o.set("f", f);
    bool fresh = r.p(0.2); if (fresh) o.set("fresh", 1);
    std::vector<std::pair<uint32_t, uint32_t>> ms; std::vector<uint32_t> ps;
    if (!fresh && G.pk.count(f)) { for (auto &m : G.pk[f].metas) ms.push_back({ m.id, m.ref }); for (auto &p : G.pk[f].parts) ps.push_back(p.id); }
    int crowd = r.below(5);
    std::string s;
    size_t nk = strlen(kinds);
    for (int n = r.range(lo, hi); n--;) {
        std::string e;
        static const std::vector<uint32_t> known = { ID_SALT, ID_ROOT, ID_PACKAGE, ID_TRANSPORT, ID_KEYID, ID_KEYSTORE, ID_LOADADDR, ID_VERSION, ID_PROVIDER };
        switch (kinds[r.below(nk)]) {
        case 'a': {
            uint32_t id = r.p(0.1) ? r.below(3) : r.p(0.15) ? r.pick(known) : r.p(0.12) && !ms.empty() ? r.pick(ms).first : 0x1000 + r.below(r.p(0.5) ? 40 : 1u << 30), ref = r.p(0.6) ? 0 : r.p(0.6) && !ps.empty() ? r.pick(ps) : r.below(5);
            size_t sz = crowd == 0 ? r.range(0, 12) : crowd == 1 ? r.range(100, 900) : crowd == 2 && r.p(0.3) ? r.range(1800, 1930) : r.p(0.03) ? r.range(1900, 65535) : r.p(0.2) ? 32 : r.range(0, 90);
            if (std::find(known.begin(), known.end(), id) != known.end() && r.p(0.7)) { static const int z[] = { 4, 8, 16, 32 }; sz = z[r.below(4)]; }
            e = strf("am,%x,%x,%zx,%x", id, ref, sz, (unsigned)r.below(1 << 20)); ms.push_back({ id, ref }); break; }
        case 'd': { if (ms.empty()) continue; size_t i = r.below(ms.size()); e = strf("dm,%x,%x", ms[i].first, ms[i].second); if (r.p(0.9)) ms.erase(ms.begin() + i); break; }
        case 't': { uint32_t p = r.p(0.8) && !ps.empty() ? r.pick(ps) : r.below(9); e = strf("tm,%x,%x,%x", p, (unsigned)r.next(), (unsigned)r.next()); ms.push_back({ ID_TRANSPORT, p }); break; }
        case 'p': { uint32_t id = r.p(0.05) ? 0 : r.p(0.1) && !ps.empty() ? r.pick(ps) : 0x2000 + r.below(1 << 28); e = strf("ap,%x,%x,%x", id, (unsigned)(r.p(0.2) ? 512 * r.below(9) : r.below(1 << r.range(1, 30))), r.p(0.2)); ps.push_back(id); break; }
        case 'q': { if (ps.empty()) continue; size_t i = r.below(ps.size()); e = strf("dp,%x", ps[i]); if (r.p(0.9)) ps.erase(ps.begin() + i); break; }
        case 'i': e = strf("id,%x,%x", (unsigned)r.next(), (unsigned)r.next()); break;
        case 'h': e = "hh"; break;
        case 'c': e = strf("cz,%x", (unsigned)(r.p(0.5) ? 512 : r.p(0.5) ? r.range(60, 110) : r.below(600))); break;
        case 's': e = strf("st,%x", (unsigned)(r.p(0.4) ? 512 : r.p(0.3) ? r.range(36, 66) : r.below(80))); break;
        case 'e': e = "es"; break;
        case 'x': { int k = r.below(70); e = strf("bx,%x,%x", k, (unsigned)std::max<int>(0, 2 * k + (int)r.range(-3, 3))); break; }
        }
        s += (s.empty() ? "" : ";") + e;
    }
    o.set("steps", s);
}
static void gen_meta(Gen &G) {
    Rng &r = G.r;
    std::string f = "a.bpak";
    G.newpkg(f);
    G.addfile(f, false, G.file(r.range(0, 900)), "pa"); if (r.p(0.5)) G.addfile(f, false, G.file(r.range(0, 900)), "pb");
    int mode = r.below(4);      // 0 many small, 1 few large, 2 mixed, 3 exact capacity
    int n = r.range(8, mode == 0 ? 60 : 30), h = 1;
    for (int i = 0; i < n; i++) {
        if (!G.is_open(f) && r.p(0.3)) G.open_h(f, h++); else if (G.is_open(f) && r.p(0.12)) G.close_all();
        PState &p = G.pk[f];
        int used = p.meta_space_used();
        double padd = p.metas.size() >= 32 ? 0.25 : p.metas.size() < 5 ? 0.8 : 0.6;
        int k = r.below(100);
        if (k < padd * 100) {
            Op &o = G.op("addmeta");
            o.set("id", strf("m%d", r.p(0.85) ? G.nextmeta++ : (int)r.below(std::max(1, G.nextmeta))));
            size_t sz = mode == 0 ? r.range(0, 30) : mode == 1 ? r.range(1, 700) : r.p(0.5) ? r.range(0, 20) : r.range(20, 400);
            if (mode == 3 || r.p(0.06)) { int left = 1920 - used; sz = r.p(0.6) ? (size_t)left : (size_t)(left + r.range(1, 5)); if (mode == 3 && r.p(0.6)) sz = r.range(0, 200); }
            o.set("hex", G.hexof(sz));
            if (r.p(0.3)) o.set("ref", r.p(0.5) ? "pa" : "pb");
            G.target(o, f, 0); G.apply(f, o);
        } else if (k < 88) G.delmeta(f);
        else if (k < 96) { G.close_all(); G.setmeta(f); }
        else if (r.p(0.5)) { Op &o = G.op("delmeta"); o.set("id", "gone"); G.target(o, f, 0); }
        else G.delpart(f);
    }
    G.close_all();
}
static void gen_keystore(Gen &G) {
    Rng &r = G.r;
    std::vector<std::pair<std::string, std::string>> ka, kb;
    G.keystore("ka.bpak", "ks-a", ka, r.range(1, 4));
    bool two = r.p(0.5);
    if (two) {
        G.keystore("kb.bpak", r.p(0.3) ? "ks-a" : "ks-b", kb, r.range(0, 2));
        // the same part name with another key
        if (r.p(0.6)) { G.addkey("kb.bpak", "", ka[0].first); kb.push_back({ ka[0].first, "?" }); }
    }
    if (r.p(0.3) && ka.size() > 1) { Op &o = G.op("delpart"); o.set("part", ka[0].first).set("f", "ka.bpak").set("via", G.lib_or_cli()); G.apply("ka.bpak", o); }
    if (r.p(0.2)) { Op &o = G.op("addfile"); o.set("part", "notakey").set("in", G.file(r.range(0, 900))).set("f", "ka.bpak").set("via", "lib"); G.apply("ka.bpak", o); }
    if (r.p(0.2)) G.delmeta("ka.bpak");
    // a keystore whose provider id is too short to be one
    if (r.p(0.15)) {
        std::string id = r.p(0.5) ? strf("%02x%02x", r.range(1, 255), r.range(0, 255)) : strf("%02x", r.range(1, 255)), part = "short";
        G.newpkg("ks.bpak");
        G.uuid_meta("ks.bpak", G.uuid());
        Op &o = G.op("addmeta"); o.set("id", "keystore-provider-id").set("hex", r.p(0.2) ? "" : id); G.target(o, "ks.bpak", 0); G.apply("ks.bpak", o);
        G.addkey("ks.bpak", "", part);
        uint32_t v = 0;
        for (size_t i = 0; i + 1 < id.size(); i += 2) v |= (uint32_t)strtoul(id.substr(i, 2).c_str(), nullptr, 16) << (4 * i);
        G.op("ksload").set("ks", "ks.bpak").set("ksid", o.s("hex").empty() ? "0x0" : strf("0x%x", v)).set("key", part);
    }
    std::string damaged;
    if (r.p(0.35)) { G.copy("ka.bpak", "kd.bpak"); G.pk["kd.bpak"] = G.pk["ka.bpak"]; for (int n = r.range(1, 2); n--;) G.corrupt_any("kd.bpak"); damaged = "kd.bpak"; }
    if (r.p(0.15)) G.raw("kj.bpak", gen_content(r.next(), r.range(1, 6000), "rand"), true);
    for (int n = r.range(2, 6); n--;) {
        Op &o = G.op("ksload");
        std::string ks = r.p(0.6) ? "ka.bpak" : two && r.p(0.5) ? "kb.bpak" : !damaged.empty() ? damaged : "ka.bpak";
        if (r.p(0.05)) ks = "missing.bpak"; else if (G.content.count("kj.bpak") && r.p(0.2)) ks = "kj.bpak";
        o.set("ks", ks).set("ksid", r.p(0.75) ? "ks-a" : r.p(0.5) ? "ks-b" : "other");
        o.set("key", r.p(0.85) ? r.pick(ka).first : r.p(0.5) ? "notakey" : "none");
        if (r.p(0.4)) { bool acc = r.p(0.6); o.set("chk", acc ? "accept" : "reject"); static const int code[] = { -77, -1, 1, 77, 0x7fffffff }; if (!acc) o.set("code", code[r.below(5)]); }
    }
    // a package verified through the keystore
    if (r.p(0.7)) {
        G.newpkg("p.bpak"); G.addfile("p.bpak");
        auto k = r.pick(ka);
        Op &o = G.op("setid"); o.set("key", r.p(0.85) ? k.first : "other").set("ks", r.p(0.85) ? "ks-a" : "ks-b").set("f", "p.bpak").set("via", G.lib_or_cli()); G.apply("p.bpak", o);
        std::string sk = r.p(0.8) ? k.second : r.pick(G.keys);
        G.sign("p.bpak", sk);
        G.verify("p.bpak", "", "ka.bpak");
        if (two) G.verify("p.bpak", "", "kb.bpak");
        if (!damaged.empty()) G.verify("p.bpak", "", damaged);
    }
    if (r.p(0.4)) G.op("generate").set("f", r.p(0.7) ? "ka.bpak" : two ? "kb.bpak" : "ka.bpak").set("what", "keystore").set("name", "my-ks").set("decorate", r.p(0.3));
    if (r.p(0.3)) G.op("ksget").set("n", r.range(0, 9)).set("seed", (int64_t)r.below(10000)).set("unverified", r.p(0.1));
}
static void gen_reading(Gen &G) {
    Rng &r = G.r;
    G.newpkg("a.bpak");
    for (int n = r.range(1, 5); n--;) G.edit("a.bpak", 0);
    std::string f = "a.bpak";
    std::vector<std::string> fs = { "a.bpak" };
    if (r.p(0.5)) { // truncated or damaged copy
        G.copy("a.bpak", "c.bpak");
        G.pk["c.bpak"] = G.pk["a.bpak"];
        if (r.p(0.5)) G.op("corrupt").set("f", "c.bpak").set("how", "trunc").set("at", (int64_t)(r.p(0.6) ? r.below(HDR) : HDR + r.below(2000)));
        else G.corrupt_any("c.bpak");
        fs.push_back("c.bpak");
    }
    if (r.p(0.4)) { G.raw("j.bpak", gen_content(r.next(), r.range(1, 9000), r.p(0.5) ? "text" : "rand"), true); fs.push_back("j.bpak"); }
    for (int n = r.range(3, 8); n--;) {
        std::string x = r.pick(fs);
        int k = r.below(12);
        if (k < 6) G.reads(x, 1, 0.7);
        else if (k == 6) G.verify(x, G.key());
        else if (k == 7) { Op &o = G.op("ksload"); o.set("ks", x).set("ksid", "ks-a").set("key", "part0"); }
        else if (k == 8) G.op("generate").set("f", x).set("what", "keystore");
        else if (k == 9) G.op("compare").set("a", r.pick(fs)).set("b", x);
        else if (k == 10) { G.op("encode").set("f", x).set("o", "out.tr").set("via", G.lib_or_cli(0.7)); if (r.p(0.6)) G.s.ops.back().set("origin", r.pick(fs)); }
        else { Op &o = G.op("decode"); o.set("f", x).set("o", "out.d").set("via", G.lib_or_cli(0.7)); if (r.p(0.6)) o.set("origin", r.pick(fs)); }
    }
    if (r.p(0.3)) { bool t; G.origin_target("o.bpak", "t.bpak", false, "", t);
        G.op("encode").set("f", "t.bpak").set("origin", "o.bpak").set("o", "x.tr").set("via", G.lib_or_cli());
        G.op("decode").set("f", "x.tr").set("origin", "o.bpak").set("o", "d.bpak").set("via", G.lib_or_cli()); }
}
static void gen_signlife(Gen &G) {
    Rng &r = G.r;
    std::string f = "a.bpak", last;
    G.newpkg(f, r.range(1, 3), r.range(1, 4));
    for (int n = r.range(0, 3); n--;) G.edit(f, 0);
    int h = 1;
    for (int n = r.range(3, 9); n--;) {
        if (r.p(0.2) && !G.is_open(f)) G.open_h(f, h++); else if (r.p(0.4)) G.close_all();
        int k = r.below(12);
        if (k < 3) { last = G.key(); G.sign(f, last); }
        else if (k == 3) { // externally made signature over the reported hash
            G.close_all();
            last = G.key(); std::string sf = strf("sig%d", G.nsig++);
            G.op("extsign").set("f", f).set("key", last).set("o", sf).set("hashvia", r.p(0.5) ? "cli" : "ref");
            Op &o = G.op("signraw"); o.set("file", sf).set("f", f).set("via", G.lib_or_cli(0.5));
        } else if (k == 4) { G.signraw(f); }
        else if (k == 5) { Op &o = G.op("sign"); static const std::vector<std::string> bad = { "missing.pem", "k1.pub.pem", "rsa2k.pem", "p256a.pub.pem", "junkkey" }; o.set("key", "none").set("keyfile", r.pick(bad)).set("badkey", 1); G.target(o, f); }
        else if (k < 10) G.edit(f, 0.1);
        else { G.close_all(); if (!last.empty()) { G.verify(f, last); if (r.p(0.5)) G.verify(f, G.key()); } }
    }
    G.close_all();
    G.raw("junkkey", gen_content(r.next(), r.range(1, 600), "text"));
    if (!last.empty()) { G.verify(f, last); G.verify(f, G.key()); }
}
static void cli_raw(Gen &G, std::vector<std::string> a, const std::string &want, int inert = 1) {
    std::string s; for (size_t i = 0; i < a.size(); i++) s += (i ? "\x1f" : "") + a[i];
    G.op("cli").set("args", s).set("want", want).set("inert", inert);
}
static void gen_cli(Gen &G) {
    Rng &r = G.r;
    std::string f = "a.bpak";
    G.newpkg(f, 0, 0, "cli");
    struct Force { Gen &g; size_t from; } F{ G, G.s.ops.size() };
    for (int n = r.range(2, 9); n--;) {
        int k = r.below(20);
        if (k < 9) { G.edit(f, 0.25); }
        else if (k < 14) G.reads(f, 1, 1.0);
        else {
            PState &p = G.pk[f];
            std::string part = p.parts.empty() ? "nope" : G.idhex(r.pick(p.parts).id);
            std::string have = p.parts.empty() ? "part0" : part, in = G.file(r.range(1, 900));
            switch (r.below(55)) {
            case 46: case 47: case 48: { static const std::vector<std::string> ans = { "N\n", "n\n", "y\n", "\n", "", "no\n", "Y\n" };
                std::string x = r.pick(ans); Op &o = G.op("create"); int hk = r.range(1, 3), sk = r.range(1, 4);
                o.set("f", f).set("hk", hk).set("sk", sk).set("via", "cli").set("answer", x);
                if (x[0] == 'Y') { PState n; n.hk = hk; n.sk = sk; G.pk[f] = n; } break; }
            case 22: cli_raw(G, { "add", f, "-p", "xx", "-m", "yy", "-f", in }, "fail"); break;
            case 23: cli_raw(G, { "add", f, "-p", "xx", "-s", "yy" }, "fail"); break;
            case 24: cli_raw(G, { "add", f, "-p", "xx", "-f", in, "-e", "frob" }, "fail"); break;
            case 25: cli_raw(G, { "add", f, "-p", "xx", "-f", in, "-F", "frob" }, "fail"); break;
            case 26: cli_raw(G, { "add", "-p", "xx", "-f", in }, "fail"); break;
            case 27: cli_raw(G, { "add", "missing.bpak", "-p", "xx", "-f", in }, "fail"); break;
            case 28: cli_raw(G, { "add", f, "-m", "xx", "-f", "missing-input" }, "fail"); break;
            case 29: cli_raw(G, { "add", f, "-m", "xx", "-s", "12", "-e", "frob" }, "fail"); break;
            case 30: cli_raw(G, { "extract", f, "-p", have, "-m", "xx" }, "fail"); break;
            case 31: cli_raw(G, { "extract", f, "-m", "nometa" }, "fail"); break;
            case 32: cli_raw(G, { "transport", f, "-E", "--decode", "-o", "o1" }, "fail"); break;
            case 33: cli_raw(G, { "transport", f, "-E", "-o", f }, "fail"); break;
            case 34: cli_raw(G, { "transport", f, "-a", "-r", have, "-e", "bsdiff" }, "fail"); break;
            case 35: cli_raw(G, { "transport", f, "-E", "-o", "o1", "-O", "missing.bpak" }, "fail", 0); break;
            case 36: cli_raw(G, { "sign", f, "--signature", "missing-sig" }, "fail"); break;
            case 37: cli_raw(G, { "sign", f, "-k", "missing.pem" }, "fail"); break;
            case 38: cli_raw(G, { "delete", f, "-p", "nope" }, "fail"); break;
            case 39: cli_raw(G, { "delete", "missing.bpak", "--all" }, "fail"); break;
            case 40: { std::string m; for (auto &q : p.metas) if (!q.ref) for (auto &o : G.s.ops) if (o.kind == "addmeta" && ref_id(o.s("id")) == q.id) m = o.s("id");
                if (m.empty() || r.p(0.3)) cli_raw(G, { "set", f, "-m", "xx" }, "fail");
                else if (r.p(0.5)) cli_raw(G, { "set", f, "-m", m, "-s", "1", "-e", "frob", "-k", "newkey" }, "fail");
                else cli_raw(G, { "set", f, "-m", m, "-s", r.p(0.5) ? "nonumber" : "", "-e", "integer", "-i", "newks" }, "fail");
                break; }
            case 41: cli_raw(G, { "set", f }, "fail"); break;
            case 42: cli_raw(G, { "set", "missing.bpak", "-k", "xx" }, "fail"); break;
            case 43: cli_raw(G, { "verify", f, "-K", "missing.bpak" }, "fail"); break;
            case 44: cli_raw(G, { "show", f, "-m", "nometa" }, "fail"); break;
            case 45: cli_raw(G, { r.p(0.5) ? "create" : r.p(0.5) ? "verify" : "show" }, "fail"); break;
            case 49: case 50: case 51: case 52: case 53: case 54: { // a command that would work, but for one argument
                static const std::vector<std::vector<std::string>> good = {
                    { "add", "@", "-p", "xx", "-f", "#" }, { "add", "@", "-m", "xx", "-s", "text" }, { "set", "@", "-k", "someid" }, { "set", "@", "-i", "someks", "-k", "x" },
                    { "sign", "@", "-k", "p256a.pem" }, { "verify", "@", "-k", "p256a.pub.pem" }, { "show", "@" }, { "extract", "@", "-p", "&", "-o", "o1" }, { "delete", "@", "-a" }, { "delete", "@", "-p", "&" },
                    { "transport", "@", "-a", "-r", "&", "-e", "bsdiff", "-d", "bspatch" }, { "transport", "@", "-E", "-o", "o1" }, { "compare", "@", "@" }, { "generate", "id", "word" }, { "create", "@", "-Y" } };
                std::vector<std::string> c = r.pick(good);
                for (auto &x : c) x = x == "@" ? f : x == "#" ? in : x == "&" ? have : x;
                size_t at = r.p(0.5) ? 1 : c.size();
                static const std::vector<std::string> bad = { "--nonsense", "-Z", "--nonsense=3", "-9" };
                static const std::map<std::string, std::vector<std::string>> lack = { { "add", { "-p", "-m", "-f", "-e", "--part" } }, { "set", { "-m", "-k", "-i", "-s" } }, { "sign", { "-k", "--signature" } }, { "verify", { "-k", "-K" } },
                    { "show", { "-m", "-p", "-P" } }, { "extract", { "-m", "-p", "-o", "-r" } }, { "delete", { "-p" } }, { "transport", { "-o", "-O", "-e", "-r" } }, { "create", { "-H", "-S" } } };
                auto l = lack.find(c[0]);
                if (l != lack.end() && r.p(0.5)) c.push_back(r.pick(l->second));
                else c.insert(c.begin() + at, r.pick(bad));
                cli_raw(G, c, "fail", 1);
                G.s.ops.back().set("bare", 1);
                break; }
            case 0: cli_raw(G, { "show", "missing.bpak" }, "fail"); break;
            case 1: cli_raw(G, { "verify", f }, "fail"); break;
            case 2: cli_raw(G, { "frobnicate", f }, "fail"); break;
            case 3: cli_raw(G, { "show", f, "--nonsense" }, "fail"); break;
            case 4: cli_raw(G, { "add", f, "-p", "xx" }, "fail"); break;
            case 5: cli_raw(G, { "add", f, "-m", "xx" }, "fail"); break;
            case 6: cli_raw(G, { "add", f }, "fail"); break;
            case 7: cli_raw(G, { "extract", f }, "fail"); break;
            case 8: cli_raw(G, { "extract", f, "-p", "nope", "-o", "o1" }, "fail"); break;
            case 9: cli_raw(G, { "sign", f }, "fail"); break;
            case 10: cli_raw(G, { "delete", f }, "fail"); break;
            case 11: cli_raw(G, { "set", f, "-m", "nometa", "-s", "v" }, "fail"); break;
            case 12: cli_raw(G, { "transport", f }, "fail"); break;
            case 13: cli_raw(G, { "generate", "keystore", f }, "fail"); break;
            case 14: cli_raw(G, { "generate" }, "fail"); break;
            case 15: cli_raw(G, { "create", "bad.bpak", "-H", "md5", "-S", "prime256v1", "-Y" }, "fail", 0); break;
            case 16: cli_raw(G, { "transport", f, "-E" }, "fail"); break;
            case 17: cli_raw(G, { "compare", f }, "fail"); break;
            case 18: cli_raw(G, { "compare", f, "missing.bpak" }, "fail"); break;
            case 19: cli_raw(G, { "show", f, "-p", "nope" }, "fail"); break;
            case 20: cli_raw(G, { "verify", f, "-k", "missing.pem" }, "fail"); break;
            case 21: cli_raw(G, { "add", f, "-p", "xx", "-f", "missing-input" }, "fail"); break;
            }
        }
    }
    for (size_t i = F.from; i < G.s.ops.size(); i++) { Op &o = G.s.ops[i]; if (o.has("via")) o.set("via", "cli"); if (o.kind == "addmeta" && o.has("hex")) { o.a.erase("hex"); o.set("str", "value"); } }
    if (r.p(0.25)) {
        bool t; size_t from = G.s.ops.size(); G.origin_target("o.bpak", "t.bpak", r.p(0.5), "p256a", t);
        G.op("encode").set("f", "t.bpak").set("origin", "o.bpak").set("o", "x.tr");
        G.op("decode").set("f", "x.tr").set("origin", "o.bpak").set("o", "d.bpak");
        for (size_t i = from; i < G.s.ops.size(); i++) if (G.s.ops[i].kind == "encode" || G.s.ops[i].kind == "decode") G.s.ops[i].set("via", "cli");
    }
    if (r.p(0.35) && !G.pk[f].metas.empty()) { Meta &m = G.pk[f].metas[r.below(G.pk[f].metas.size())]; Op &o = G.op("extractmeta"); o.set("f", f).set("id", G.idhex(m.id)).set("o", "xm"); if (m.ref) o.set("ref", G.idhex(m.ref)); }
    if (r.p(0.15)) G.op("generate").set("what", "id").set("name", G.word(1, 20));
    if (r.p(0.15)) { std::vector<std::pair<std::string, std::string>> ks; G.keystore("k.bpak", "ks-a", ks, r.range(0, 3)); G.op("generate").set("f", "k.bpak").set("what", "keystore"); }
}
static void gen_compare(Gen &G) {
    Rng &r = G.r;
    G.newpkg("a.bpak");
    for (int n = r.range(1, 6); n--;) G.edit("a.bpak", 0);
    G.copy("a.bpak", "b.bpak"); G.pk["b.bpak"] = G.pk["a.bpak"];
    int h = 1;
    for (int n = r.range(0, 5); n--;) {
        std::string f = r.p(0.7) ? "b.bpak" : "a.bpak";
        G.maybe_handles(f, h);
        int k = r.below(10);
        if (k < 3) { // same id, other contents
            if (!G.pk[f].parts.empty()) {
                for (auto &o : G.s.ops) if (o.kind == "addfile" && !o.i("merkle") && G.pk[f].part(ref_id(o.s("part")))) {
                    std::string part = o.s("part"), in = o.s("in");
                    Op &d = G.op("delpart"); d.set("part", part).set("keep", 1); G.target(d, f); G.apply(f, d);
                    std::string nf = r.p(0.4) ? in : G.mutated(in, 1, r.p(0.6) ? (int64_t)G.content[in].size() : -1);
                    Op &e = G.op("addfile"); e.set("part", part).set("in", nf); G.target(e, f); G.apply(f, e);
                    break;
                }
            }
        } else G.edit(f, 0);
    }
    G.close_all();
    for (int n = r.range(1, 3); n--;) { if (r.p(0.5)) G.op("compare").set("a", "a.bpak").set("b", "b.bpak"); else G.op("compare").set("a", "b.bpak").set("b", "a.bpak"); }
    G.reads("a.bpak", r.range(1, 4), 1.0);
    G.reads("b.bpak", r.range(1, 4), 1.0);
    if (r.p(0.12)) {
        bool t; G.allow_nohash = false; G.origin_target("o.bpak", "t.bpak", r.p(0.5), "p256a", t);
        Op &o = G.op("encode"); o.set("f", "t.bpak").set("o", "x.tr").set("via", "lib"); if (r.p(0.9)) o.set("origin", "o.bpak");
        G.op("show").set("f", "x.tr").set("what", "all").set("verb", r.below(2)); G.op("show").set("f", "x.tr").set("what", r.p(0.5) ? "hash" : "bhash");
    }
    if (r.p(0.2)) { G.raw("j.bpak", gen_content(r.next(), r.range(1, 6000), "rand"), true); G.op("compare").set("a", "a.bpak").set("b", "j.bpak"); G.op("compare").set("a", "j.bpak").set("b", "a.bpak"); }
    if (r.p(0.2)) { G.copy("a.bpak", "c.bpak"); G.pk["c.bpak"] = G.pk["a.bpak"]; G.corrupt_any("c.bpak"); G.op("show").set("f", "c.bpak").set("what", "parthash").set("part", "part0"); G.op("compare").set("a", "a.bpak").set("b", "c.bpak"); }
}
static void gen_identity(Gen &G) {
    Rng &r = G.r;
    std::string u = G.uuid(), v = u;
    int mode = r.below(7);
    auto flip = [&](std::string s) { std::vector<int> ix; for (int i = 0; i < 36; i++) if (s[i] != '-') ix.push_back(i); int i = r.pick(ix); char c; do c = "0123456789abcdef"[r.below(16)]; while (c == s[i]); s[i] = c; return s; };
    if (mode >= 2 && mode < 5) v = r.p(0.6) ? flip(u) : G.uuid();
    std::string n1 = G.pname(), n2 = G.pname();
    std::string i1 = G.file(G.len()), i2 = G.mutated(i1, r.range(0, 4));
    bool tr = r.p(0.8);
    int kind = G.trkind();
    auto build = [&](const std::string &f, const std::string &id, const std::string &in, int pads) {
        G.newpkg(f);
        // values before the identity shift its place in the metadata area
        for (int n = pads; n--;) { Op &o = G.op("addmeta"); o.set("id", strf("meta%d", G.nextmeta++)).set("hex", G.hexof(r.range(1, 60))).set("f", f).set("via", "lib"); G.apply(f, o); }
        // a value under the identity's name that is about one part is no identity
        int decoy = r.below(6);
        auto dec = [&]() { Op &o = G.op("addmeta"); o.set("id", "bpak-package").set("str", r.p(0.6) ? u : r.p(0.7) ? v : G.uuid()).set("enc", "uuid").set("ref", G.idhex(ref_id(n1))).set("f", f).set("via", "lib"); G.apply(f, o); };
        if (decoy == 0) dec();
        if (!id.empty()) G.uuid_meta(f, id);
        if (decoy == 1) dec();
        G.addfile(f, false, in, n1);
        if (r.p(0.4)) G.addfile(f, false, "", "", 0.2);
    };
    build("o.bpak", mode == 5 ? "" : u, i1, r.below(3));
    build("t.bpak", mode == 6 ? "" : v, i2, r.below(3));
    build("g.bpak", v, i1, r.below(2));       // an origin of the target's identity
    if (tr) G.tradd("t.bpak", ref_id(n1), kind);
    if (r.p(0.3)) G.sign("t.bpak");
    // the other parts of the target must be in the origin as well for the tool to use it
    auto viaop = [&](Op &o) { o.set("via", G.lib_or_cli(0.4)); };
    viaop(G.op("encode").set("f", "t.bpak").set("origin", "o.bpak").set("o", "x1.tr"));
    if (mode != 6) viaop(G.op("encode").set("f", "t.bpak").set("origin", "g.bpak").set("o", "x2.tr"));
    if (r.p(0.4)) viaop(G.op("encode").set("f", "t.bpak").set("o", "x3.tr"));
    std::string src = mode == 6 ? (r.p(0.5) ? "x3.tr" : "x1.tr") : mode < 2 ? (r.p(0.5) ? "x1.tr" : "x2.tr") : "x2.tr";
    for (int n = r.range(1, 3); n--;) {
        std::string o = r.p(0.6) ? "o.bpak" : "g.bpak";
        if (r.p(0.4)) { Op &d = G.op("sdecode"); d.set("f", src); if (r.p(0.85)) d.set("origin", o); rand_style(G, d); }
        else { Op &d = G.op("decode"); d.set("f", src).set("o", "d.bpak"); if (r.p(0.85)) d.set("origin", o); viaop(d); }
    }
}
static void gen_merkle(Gen &G) {
    Rng &r = G.r;
    G.newpkg("a.bpak");
    int h = 1;
    for (int n = r.range(1, 3); n--;) {
        G.maybe_handles("a.bpak", h);
        if (r.p(0.3)) G.edit("a.bpak", 0.3);
        G.addfile("a.bpak", true);
        if (r.p(0.2)) { Op &o = G.op("addfile"); o.set("part", G.pname()).set("in", G.file(r.range(1, 9000))).set("merkle", 1); G.target(o, "a.bpak"); G.apply("a.bpak", o); }
    }
    G.close_all();
    if (r.p(G.thorough ? 0.01 : 0.004)) { // three levels
        Op &o = G.op("smerkle"); o.set("a", G.file(4096 * r.range(16383, 16386), "text")).set("salt", (int64_t)r.below(1000)).set("zerofill", r.p(0.7)); rand_style(G, o); o.set("style", r.p(0.5) ? 0 : 4);
    } else if (r.p(0.5)) { Op &o = G.op("smerkle"); o.set("a", G.file(G.treelen())).set("salt", (int64_t)r.below(1000)).set("off", (int64_t)(r.p(0.5) ? 0 : 4096 * r.below(9))).set("zerofill", r.p(0.7)); rand_style(G, o); }
    if (r.p(0.6)) { // inconsistent data, tree, salt or root, payload hash adjusted or part excluded from the hash
        G.op("sverify").set("f", "a.bpak");
        for (int n = r.range(1, 3); n--;) {
            G.copy("a.bpak", "c.bpak"); G.pk["c.bpak"] = G.pk["a.bpak"];
            uint64_t at = HDR; std::vector<std::pair<uint64_t, uint64_t>> ps;
            for (auto &q : G.pk["a.bpak"].parts) { if (q.stored_len()) ps.push_back({ at, q.stored_len() }); at += q.stored_len(); }
            if (ps.empty()) break;
            auto q = r.pick(ps);
            std::vector<uint32_t> tp; for (auto &x : G.pk["a.bpak"].parts) if (G.pk["a.bpak"].part(ref_tree_id(x.id))) tp.push_back(x.id);
            if (!tp.empty() && r.p(0.3)) { // salt, root hash or tree lost from the tables
                uint32_t id = r.pick(tp); int w = r.below(3);
                Op &o = G.op("corrupt"); o.set("f", "c.bpak");
                if (w == 2) o.set("how", "partren").set("id", G.idhex(ref_tree_id(id))).set("to", (int64_t)(uint32_t)(r.next() | 2));
                else { o.set("how", "metaout").set("id", G.idhex(w ? ID_SALT : ID_ROOT)).set("ref", G.idhex(id)); if (r.p(0.5)) o.set("to", r.p(0.5) ? 1 : (int64_t)(uint32_t)(r.next() | 2)); }
            } else if (r.p(0.15)) { // entries exchanged or moved behind an unused one
                int np = G.pk["a.bpak"].parts.size(), from = r.below(np), to = r.p(0.5) ? r.below(np) : r.below(32);
                G.op("corrupt").set("f", "c.bpak").set("how", "swap").set("at", OFF_PARTS + 32 * from).set("at2", OFF_PARTS + 32 * to).set("len", 32);
            } else if (r.p(0.7)) G.op("corrupt").set("f", "c.bpak").set("how", "flip").set("at", (int64_t)(q.first + r.below(q.second))).set("x", 1 << r.below(8));
            else G.op("corrupt").set("f", "c.bpak").set("how", "flip").set("at", (int64_t)(OFF_METADATA + r.below(G.pk["a.bpak"].meta_space_used() + 1))).set("x", 1 << r.below(8));
            G.op("rehash").set("f", "c.bpak");
            if (r.p(0.6)) G.op("sverify").set("f", "c.bpak").set("ibase", (int64_t)(r.p(0.5) ? 4096 : 0));
            else { G.op("resign").set("f", "c.bpak").set("key", "p256a"); G.verify("c.bpak", "p256a"); }
        }
    }
    if (r.p(0.4)) { // regenerated while decoding
        G.newpkg("n.bpak"); G.addfile("n.bpak", true, "", "fsn");
        G.tradd("n.bpak", ref_tree_id(ref_id("fsn")), 3);
        if (r.p(0.5)) G.sign("n.bpak", "p256a");
        G.op("encode").set("f", "n.bpak").set("o", "n.tr").set("via", G.lib_or_cli());
        if (r.p(0.5)) G.op("decode").set("f", "n.tr").set("o", "n2.bpak").set("via", G.lib_or_cli());
        else { Op &o = G.op("sdecode"); o.set("f", "n.tr"); rand_style(G, o); }
    }
}
static void gen_alloc(Gen &G) {
    Rng &r = G.r;
    G.s.env.alloc = r.p(0.5);
    int k = r.below(6);
    if (k < 2) gen_edits(G, 2, 6, 0.25, true);
    else if (k == 2) gen_transport_run(G, r.p(0.4));
    else if (k == 3) gen_keystore(G);
    else if (k == 4) gen_stream(G);
    else gen_reading(G);
    if (G.s.env.alloc) for (auto &o : G.s.ops) if (o.s("via") == "cli" && o.kind != "setmeta") o.set("via", "lib");
    if (G.s.env.alloc) { // the tool releases keys with free()
        std::vector<Op> v; for (auto &o : G.s.ops) if (o.kind != "generate" && o.kind != "cli") v.push_back(o); G.s.ops = v;
    }
}
static void gen_verify(Gen &G) {
    Rng &r = G.r;
    G.s.env.hash = r.p(0.5);
    G.direct_sign = !G.s.env.hash;
    if (G.s.env.hash) G.allow_rsa = false;
    std::string f = "a.bpak", key = G.key();
    std::vector<std::pair<std::string, std::string>> ks;
    bool useks = r.p(0.3);
    if (useks) { G.keystore("k.bpak", "ks-a", ks, r.range(1, 3)); key = ks[0].second; }
    G.newpkg(f, r.range(1, 3));
    if (G.s.env.hash) { std::vector<std::string> ok; }
    for (int n = r.range(1, 5); n--;) { G.edit(f, 0); }
    if (r.p(0.5)) G.addfile(f, true);
    if (useks) { Op &o = G.op("setid"); o.set("key", ks[0].first).set("ks", "ks-a").set("f", f).set("via", G.lib_or_cli()); G.apply(f, o); }
    G.close_all();
    G.sign(f, key);
    G.verify(f, key); if (useks) G.verify(f, "", "k.bpak");
    for (int n = r.range(2, 6); n--;) {
        std::string c = "c.bpak";
        G.copy(f, c); G.pk[c] = G.pk[f];
        for (int m = r.p(0.75) ? 1 : 2; m--;) G.corrupt_any(c);
        if (r.p(0.12)) { G.op("rehash").set("f", c); }
        G.verify(c, r.p(0.9) ? key : G.key(), useks && r.p(0.4) ? "k.bpak" : "");
        if (r.p(0.2)) G.op("sverify").set("f", c);
    }
    if (r.p(0.3)) { std::string k2 = G.key(); G.verify(f, k2); }
    if (r.p(0.3)) { Op &o = G.op("verify"); o.set("f", f).set("via", G.lib_or_cli()).set("key", "none").set("keyfile", r.p(0.5) ? "missing.pem" : "k1.pub.pem").set("badkey", 1); }
}

static void gen_py(Gen &G) {
    Rng &r = G.r;
    G.py = true; G.allow_nohash = r.p(0.15);
    std::string f = "a.bpak";
    G.newpkg(f, 0, 0, r.p(0.7) ? "py" : "");
    int h = 1, nother = 0;
    auto other = [&]() { std::string n = strf("b%d.bpak", nother++); G.copy(f, n); return n; };
    static const std::vector<std::string> ends = { "close", "close", "with", "drop" };
    auto shut = [&]() { while (!G.open.empty()) { int x = G.open.begin()->first; G.op("close").set("h", x).set("how", r.pick(ends)); G.open.erase(x); } };
    for (int n = r.range(5, 22); n--;) {
        if (!G.is_open(f)) { if (r.p(0.6)) { G.op("open").set("f", f).set("h", h).set("mode", r.p(0.5) ? "r+" : "rb+").set("via", r.p(0.9) ? "py" : "lib"); G.open[h++] = f; } }
        else if (r.p(0.12)) shut();
        PState &p = G.pk[f];
        bool op = G.is_open(f);
        int hh = op ? G.open.begin()->first : 0;
        int k = r.below(100);
        auto edit = [&](const std::string &kind) -> Op & { Op &o = G.op(kind); return o; };
        auto fin = [&](Op &o) { if (op) o.set("h", hh); else o.set("f", f).set("via", "py").set("end", r.p(0.2) ? "drop" : "close"); G.apply(f, o); };
        if (k < 28) { if (op && r.p(0.3)) G.refused(f); else { int q = r.below(7); if (q < 2) G.addfile(f, r.p(0.3)); else if (q < 4) G.addmeta(f); else if (q == 4) G.setid(f); else if (q == 5) G.sign(f); else G.delpart(f); } }
        else if (k < 33) G.edit(f, 0.15);
        else if (k < 36) { Op &o = edit("setkind"); if (r.p(0.5)) o.set("hk", r.range(1, 3)); else o.set("sk", r.range(1, 4)); fin(o); }
        else if (k < 40 && !p.parts.empty()) {
            Part &q = p.parts[r.below(p.parts.size())];
            bool refd = false; for (auto &m : p.metas) if (m.ref == q.id) refd = true;
            for (auto &x : p.parts) if (ref_tree_id(x.id) == q.id) refd = true;
            if (!refd) { Op &o = edit("partren"); o.set("part", G.idhex(q.id)).set("to", r.p(0.15) ? "0x0" : r.p(0.2) && p.parts.size() > 1 ? G.idhex(p.parts[0].id) : r.p(0.5) ? G.word(2, 9) : G.idhex(r.next() | 1)); fin(o); }
        } else if (k < 44 && !p.metas.empty()) {
            Meta &m = p.metas[r.below(p.metas.size())];
            if (m.id != ID_SALT && m.id != ID_ROOT) {
                Op &o = edit("metaren"); o.set("id", G.idhex(m.id)); if (m.ref) o.set("ref", G.idhex(m.ref));
                if (r.p(0.6)) o.set("to", r.p(0.1) ? "0x0" : r.p(0.2) ? G.idhex(p.metas[0].id) : r.p(0.5) ? G.word(2, 9) : G.idhex(r.next() | 1));
                else o.set("toref", r.p(0.3) ? "none" : r.p(0.3) && !p.parts.empty() ? G.idhex(p.parts[0].id) : r.p(0.2) ? "0x0" : G.idhex(r.next()));
                fin(o);
            }
        } else if (k < 50 && !p.metas.empty()) {
            Meta &m = p.metas[r.below(p.metas.size())];
            if (m.id != ID_SALT && m.id != ID_ROOT) {
                Op &o = edit("metaput"); o.set("id", G.idhex(m.id)); if (m.ref) o.set("ref", G.idhex(m.ref));
                size_t n = m.data.size();
                if (r.p(0.5)) o.set("hex", G.hexof(r.p(0.15) ? n + 1 : r.p(0.4) ? n : r.below(n + 1))); else o.set("str", G.word(0, (int)std::min<size_t>(n + 1, 70)));
                fin(o);
            }
        } else if (k < 53) { Op &o = edit("addmeta"); o.set("id", strf("meta%d", G.nextmeta++)).set("str", G.word(0, 30)).set("size", r.p(0.1) ? r.range(1800, 2100) : r.range(0, 60)); fin(o); }
        else if (k < 55) { Op &o = edit("clearsig"); if (r.p(0.4)) o.set("del", 1); fin(o); }
        else if (!op) { if (r.p(0.3)) G.reads(f, 1); else if (r.p(0.3)) { Op &o = G.op("verify"); o.set("f", f).set("via", "py").set("key", G.key()); } }
        else if (k < 70) { Op &o = G.op("pyget"); o.set("h", hh); if (r.p(0.3)) o.set("repr", 1); if (r.p(0.5)) o.set("digest", 0); }
        else if (k < 82) {
            static const std::vector<std::string> w = { "types", "args", "names", "partid", "metaid", "closed", "blank", "zombie", "zombie", "missing", "reinit", "stale" };
            std::string x = r.pick(w), b;
            bool pr = x == "closed" || x == "zombie" || x == "reinit" || x == "stale";
            if (pr) { shut(); b = other(); G.op("open").set("f", f).set("h", h).set("mode", "r+").set("via", "py"); G.open[h] = f; hh = h++; }
            Op &o = G.op("pyuse"); o.set("h", hh).set("what", x);
            if (pr) o.set("other", b);
            if (x == "names") o.set("name", G.word(0, 20));
            if (x == "metaid") o.set("pick", (int64_t)r.below(8));
            if (x == "zombie") o.set("close", r.p(0.6));
        } else if (k < 88) {
            static const std::vector<std::string> w = { "none", "ok", "ok", "raise", "reset", "value", "bad" };
            G.op("pylog").set("how", r.pick(w));
        } else if (k < 93) { Op &o = G.op("pyhold"); o.set("h", hh); if (r.p(0.4)) o.set("meta", 1); if (r.p(0.3)) o.set("free", 1); }
        else if (k < 95) {
            static const std::vector<std::string> w = { "digest", "lists", "open", "openfail", "addfail", "keyfail", "verify", "verifyfail", "metafail", "read", "log" };
            std::string x = r.pick(w), b;
            if (x == "open") { shut(); b = other(); G.op("open").set("f", f).set("h", h).set("mode", "r+").set("via", "py"); G.open[h] = f; hh = h++; }
            Op &o = G.op("pyloop"); o.set("h", hh).set("what", x); if (!b.empty()) o.set("other", b);
        } else { Op &o = G.op("pyget"); o.set("h", hh); }
    }
    shut();
    if (r.p(0.25)) {
        bool tr = true; G.allow_nohash = false;
        G.origin_target("o.bpak", "t.bpak", r.p(0.5), "p256a", tr);
        shut();
        Op &e = G.op("encode"); e.set("f", "t.bpak").set("o", "x.tr").set("via", r.p(0.7) ? "py" : "lib"); if (r.p(0.8)) e.set("origin", "o.bpak");
        Op &d = G.op("decode"); d.set("f", "x.tr").set("o", "d.bpak").set("via", r.p(0.7) ? "py" : "lib"); if (e.has("origin") || r.p(0.3)) d.set("origin", "o.bpak");
        if (r.p(0.3)) { Op &p = G.op("pyprobe"); p.set("f", "x.tr"); }
    }
    if (r.p(0.35)) {
        std::string c = other();
        G.pk[c] = G.pk[f];
        for (int n = r.range(1, 3); n--;) { if (r.p(0.6)) G.corrupt_header(c, true); else G.corrupt_any(c); }
        Op &p = G.op("pyprobe"); p.set("f", c); if (r.p(0.4)) p.set("edit", 1);
    }
    for (auto &o : G.s.ops) if (o.kind == "verify" && !o.has("ks") && r.p(0.5)) o.set("via", "py");
}
Scenario gen_scenario(const std::string &prop, uint64_t seed, bool thorough) {
    Gen G(seed * 1000003 + fnv(prop) % 1000003, thorough);
    Rng &r = G.r;
    G.allow_rsa = r.p(0.08);
    G.env(prop != "C17");
    int n = atoi(prop.c_str() + 1);
    int more = thorough && r.p(0.3) ? 2 : 1;
    if ((n == 3 || n == 8 || n == 13 || n == 20) && r.p(0.15)) { G.s.env.hash = 1; G.direct_sign = false; G.allow_rsa = false; }
    switch (n) {
    case 1: gen_edits(G, 3, 14 * more, 0.15, true); if (r.p(0.25)) hdrop(G, "a.bpak", "aadppqqithsxe", 3, 45); if (r.p(0.5)) G.reads("a.bpak", r.range(1, 3)); if (r.p(0.1)) gen_junk(G); break;
    case 2: gen_verify(G); if (r.p(0.2)) hdrop(G, r.p(0.5) ? "a.bpak" : "c.bpak", "chhiap", 2, 8); break;
    case 3: { int k = r.below(10);
        if (k < 6) { gen_edits(G, 2, 6 * more, 0.03, true); if (r.p(0.6)) G.reads("a.bpak", r.range(1, 2)); }
        else if (k < 9) gen_transport_run(G, false); else gen_merkle(G);
        break; }
    case 4: gen_edits(G, 2, 7 * more, 0.35, true); if (r.p(0.5)) gen_junk(G); break;
    case 5: gen_edits(G, 2, 7 * more, 0.03, true); break;
    case 6: gen_transport_run(G, false); break;
    case 7: G.allow_nohash = false; gen_transport_run(G, true); break;
    case 8: gen_stream(G); break;
    case 9: gen_identity(G); break;
    case 10: gen_hostile(G); for (auto &k : { "c0", "c1", "c2" }) if (r.p(0.3)) hdrop(G, k, "aaddptqqshcx", 2, 30); break;
    case 11: gen_alloc(G); break;
    case 12: gen_meta(G); if (r.p(0.4)) hdrop(G, "a.bpak", r.p(0.5) ? "aaaddt" : "aaaaddpqits", 3, 90); break;
    case 13: gen_merkle(G); break;
    case 14: gen_keystore(G); break;
    case 15: gen_reading(G); break;
    case 16: gen_signlife(G); if (r.p(0.4)) hdrop(G, "a.bpak", "cchhiad", 2, 9); break;
    case 17: { G.direct_sign = false; G.allow_rsa = false; int k = r.below(10);
        if (k < 7) gen_edits(G, 3, 12, 0.1, true); else gen_transport_run(G, false);
        std::vector<Op> v; for (auto &o : G.s.ops) { if (o.kind == "sign") continue; v.push_back(o); } G.s.ops = v;
        break; }
    case 18: gen_cli(G); break;
    case 19: gen_py(G); break;
    case 20: gen_compare(G); if (r.p(0.3)) hdrop(G, "a.bpak", "ssexadpqh", 2, 12); break;
    default: gen_edits(G, 3, 10, 0.1, true);
    }
    if (G.pk.count("a.bpak") && !G.is_open("a.bpak")) {
        static const std::map<int, std::pair<const char *, const char *>> bigs = { { 1, { "xxi", "aammrRA" } }, { 2, { "vvvdds", "" } }, { 3, { "xh", "aamrR" } }, { 4, { "xi", "aamr" } }, { 12, { "i", "mma" } }, { 13, { "vs", "aaa" } }, { 16, { "vd", "" } }, { 18, { "vxhic", "amrRA" } }, { 20, { "hiccx", "" } } };
        auto b = bigs.find(n);
        if (b != bigs.end() && r.p(0.06)) bigop(G, "a.bpak", b->second.first, b->second.second);
    }
    if ((n == 6 || n == 3 || n == 18) && G.pk.count("o.bpak") && G.pk.count("t.bpak") && r.p(n == 6 ? 0.06 : 0.1)) bigop(G, "o.bpak", "t", "", "t.bpak");
    // unbuffered streams make a step of every byte: keep that to small inputs
    if (G.s.env.stdio < 512) for (auto &f : G.s.files) if (f.i("len") > 65536) G.s.env.stdio = 1024;
    G.finish(prop, seed);
    return G.s;
}

// ------------------------------------------------------------------ faults
static const char *pickk(Rng &r, std::initializer_list<const char *> l) { auto i = l.begin(); std::advance(i, r.below(l.size())); return *i; }
int fault_variants(const std::string &prop, Rng &r, bool thorough) {
    int n = atoi(prop.c_str() + 1), k = 0;
    switch (n) {
    case 1: k = r.p(0.1) ? 1 : 0; break;
    case 2: k = 6; break;
    case 3: k = 14; break;
    case 4: k = 12; break;
    case 5: k = 18; break;
    case 6: k = 0; break;
    case 7: k = 10; break;
    case 8: k = 8; break;
    case 9: k = 2; break;
    case 10: k = 3; break;
    case 11: k = 14; break;
    case 12: k = 3; break;
    case 13: k = 8; break;
    case 14: k = 8; break;
    case 15: k = 8; break;
    case 16: k = 4; break;
    case 18: k = 10; break;
    case 19: k = 6; break;
    case 20: k = 6; break;
    }
    return thorough ? k * 2 : k;
}
std::vector<Fault> gen_faults(const Scenario &s, Rng &r, const std::vector<std::pair<int, std::vector<uint32_t>>> &counts, int variant) {
    int n = atoi(s.prop.c_str() + 1);
    std::map<int, const Op *> byid;
    for (auto &o : s.ops) byid[o.id] = &o;
    static const std::set<std::string> readers = { "verify", "extract", "extractmeta", "show", "parthash", "compare", "ksload", "generate", "encode", "decode", "sverify", "sdecode" };
    auto wants = [&](const Op &o) -> double {
        if (o.kind == "copy" || o.kind == "corrupt" || o.kind == "remove" || o.kind == "rehash" || o.kind == "resign" || o.kind == "extsign" || o.kind == "mkjunk") return 0;
        switch (n) {
        case 2: return o.kind == "verify" || o.kind == "sverify" ? 1 : 0.02;
        case 7: return o.kind == "decode" || o.kind == "sdecode" ? 1 : 0.02;
        case 14: return o.kind == "ksload" || o.kind == "verify" || o.kind == "generate" ? 1 : 0.02;
        case 15: return readers.count(o.kind) ? 1 : 0.05;
        case 18: return o.kind == "extractmeta" && o.has("o") ? 3 : 1;
        case 20: return o.kind == "compare" || o.kind == "show" || o.kind == "parthash" ? 1 : 0.02;
        case 8: return o.kind[0] == 's' && o.kind != "sign" ? 1 : 0;
        case 13: return o.i("merkle") || o.kind == "smerkle" || o.kind == "sverify" || o.kind == "verify" || o.kind == "decode" || o.kind == "sdecode" ? 1 : 0.05;
        case 16: return o.kind == "sign" || o.kind == "signraw" || o.kind == "verify" ? 1 : 0.2;
        default: return 1;
        }
    };
    // weights per event class
    double w[EV_N] = {};
    bool crash = false;
    switch (n) {
    case 1: w[EV_READ] = 1; w[EV_WRITE] = 1; break;
    case 2: w[EV_READ] = 3; w[EV_HASH] = 3; w[EV_CRYPTO] = 2; w[EV_SEEK] = 0.5; w[EV_OPEN] = 0.3; w[EV_ALLOC] = 0.7; w[EV_XALLOC] = 0.3; w[EV_CB] = 1; break;
    case 3: w[EV_READ] = 2; w[EV_HASH] = 1.5; w[EV_CRYPTO] = 0.3; w[EV_WRITE] = 4; w[EV_SEEK] = 0.7; w[EV_TRUNC] = 2; w[EV_CLOSE] = 2; w[EV_OPEN] = 0.5; w[EV_STAT] = 0.3; w[EV_MMAP] = 0.3; break;
    case 4: w[EV_READ] = 3; w[EV_WRITE] = 3; w[EV_SEEK] = 1; w[EV_TRUNC] = 1; w[EV_CLOSE] = 1; w[EV_OPEN] = 1; w[EV_STAT] = 0.5; w[EV_ALLOC] = 1; w[EV_XALLOC] = 0.7; w[EV_ENTROPY] = 0.7; break;
    case 5: crash = true; w[EV_WRITE] = 6; w[EV_SEEK] = 1; w[EV_READ] = 1; w[EV_TRUNC] = 2; w[EV_CLOSE] = 1.5; w[EV_OPEN] = 0.5; w[EV_ALLOC] = 0.2; break;
    case 7: w[EV_READ] = 3; w[EV_WRITE] = 3; w[EV_SEEK] = 1; w[EV_CLOSE] = 1; w[EV_ALLOC] = 1; w[EV_OPEN] = 0.3; w[EV_CB] = 1; crash = r.p(0.35); break;
    case 8: w[EV_HASH] = 1; w[EV_CB] = 6; w[EV_ALLOC] = 1; w[EV_XALLOC] = 0.3; break;
    case 9: w[EV_READ] = 2; w[EV_CB] = 1; w[EV_ALLOC] = 0.5; break;
    case 10: w[EV_READ] = 3; w[EV_SEEK] = 1; w[EV_CB] = 1; w[EV_ALLOC] = 1; w[EV_XALLOC] = 0.5; w[EV_STAT] = 0.3; w[EV_MMAP] = 0.5; w[EV_OPEN] = 0.3; break;
    case 11: w[EV_ALLOC] = 5; w[EV_XALLOC] = 2.5; w[EV_READ] = 1; w[EV_WRITE] = 1; w[EV_SEEK] = 0.6; w[EV_OPEN] = 0.7; w[EV_MMAP] = 0.6; w[EV_CLOSE] = 0.3; w[EV_CB] = 1; w[EV_ENTROPY] = 0.3; w[EV_STAT] = 0.2; break;
    case 12: w[EV_WRITE] = 3; w[EV_READ] = 0.7; w[EV_CLOSE] = 1; crash = r.p(0.4); break;
    case 13: w[EV_HASH] = 2; w[EV_READ] = 3; w[EV_WRITE] = 2; w[EV_SEEK] = 0.7; w[EV_ALLOC] = 1; w[EV_OPEN] = 0.7; w[EV_CB] = 2; w[EV_CLOSE] = 0.7; break;
    case 14: w[EV_READ] = 3; w[EV_SEEK] = 1; w[EV_OPEN] = 0.7; w[EV_ALLOC] = 1; w[EV_XALLOC] = 1; w[EV_CLOSE] = 0.3; break;
    case 15: w[EV_READ] = 4; w[EV_WRITE] = 1; w[EV_SEEK] = 1; w[EV_CLOSE] = 0.7; w[EV_ALLOC] = 0.5; w[EV_XALLOC] = 0.3; w[EV_MMAP] = 0.7; w[EV_OPEN] = 0.5; crash = r.p(0.3); break;
    case 16: w[EV_READ] = 1; w[EV_ENTROPY] = 2; w[EV_ALLOC] = 1; w[EV_XALLOC] = 2; w[EV_WRITE] = 1; w[EV_OPEN] = 1; break;
    case 18: w[EV_READ] = 2; w[EV_WRITE] = 4; w[EV_CLOSE] = 1.5; w[EV_SEEK] = 0.6; w[EV_TRUNC] = 1; w[EV_OPEN] = 1; w[EV_ALLOC] = 0.7; w[EV_XALLOC] = 0.3; w[EV_STAT] = 0.4; w[EV_ENTROPY] = 0.2; break;
    case 19: w[EV_READ] = 2; w[EV_WRITE] = 2; w[EV_CLOSE] = 1; w[EV_SEEK] = 0.6; w[EV_ALLOC] = 0.5; w[EV_OPEN] = 0.5; w[EV_TRUNC] = 0.5; break;
    case 20: w[EV_HASH] = 2; w[EV_READ] = 5; w[EV_SEEK] = 1; w[EV_WRITE] = 1; w[EV_OPEN] = 0.4; w[EV_ALLOC] = 0.3; break;
    default: w[EV_READ] = 1; w[EV_WRITE] = 1;
    }
    int nf = crash ? 1 : r.p(0.8) ? 1 : r.range(2, 3);
    std::vector<Fault> fs;
    for (int q = 0; q < nf; q++) {
        // choose the operation, then the class, then the position
        double tot = 0; std::vector<double> ww;
        for (auto &c : counts) {
            double x = 0;
            auto it = byid.find(c.first);
            if (it != byid.end()) { bool any = false; for (int k = 0; k < EV_N; k++) if (w[k] > 0 && c.second[k]) any = true; if (any) x = wants(*it->second); }
            ww.push_back(x); tot += x;
        }
        if (tot <= 0) return fs;
        double pick = tot * ((r.next() >> 11) * (1.0 / 9007199254740992.0));
        size_t i = 0; while (i + 1 < ww.size() && pick >= ww[i]) pick -= ww[i++];
        auto &c = counts[i];
        double t2 = 0; for (int k = 0; k < EV_N; k++) if (c.second[k]) t2 += w[k];
        if (t2 <= 0) continue;
        double p2 = t2 * ((r.next() >> 11) * (1.0 / 9007199254740992.0));
        int cls = -1;
        for (int k = 0; k < EV_N; k++) if (c.second[k] && w[k] > 0) { cls = k; if (p2 < w[k]) break; p2 -= w[k]; }
        if (cls < 0) continue;
        Fault f; f.op = c.first; f.cls = cls; f.arg = r.below(1 << 16);
        uint32_t m = c.second[cls];
        f.nth = r.p(0.15) ? 0 : r.p(0.2) ? m - 1 : r.p(0.2) ? m - 1 - r.below(std::min<uint32_t>(m, 4)) : r.below(m);
        if (crash) f.kind = cls == EV_WRITE && r.p(0.5) ? "torn" : "crash";
        else switch (cls) {
        case EV_OPEN: f.kind = pickk(r, { "eio", "emfile", "nospc", "noent" }); break;
        case EV_READ: f.kind = n == 1 ? "short" : pickk(r, { "eio", "eio", "eof", "short", "eio" }); if ((n == 3 || n == 4 || n == 13) && r.p(0.12)) f.kind = r.p(0.5) ? "shrink" : "grow"; f.sticky = r.p(0.45) ? 1 : r.p(0.05) ? 2 : 0; break;
        case EV_WRITE: f.kind = n == 1 ? "short" : pickk(r, { "eio", "nospc", "nospc", "short", "eio" }); f.sticky = r.p(0.5) ? 1 : r.p(0.08) ? 2 : 0; break;
        case EV_SEEK: f.kind = "eio"; f.sticky = r.p(0.2); break;
        case EV_CB: f.kind = pickk(r, { "eio", "short", "eof", "err1" }); f.sticky = r.p(0.3) ? 1 : 0; break;
        case EV_ALLOC: case EV_XALLOC: f.kind = "fail"; f.sticky = r.p(0.25) ? 1 : 0; break;
        default: f.kind = "eio"; f.sticky = r.p(0.2);
        }
        (void)variant;
        if (s.env.hash && (cls == EV_HASH || cls == EV_CRYPTO) && r.p(0.35)) { f.kind = "absent"; f.nth = r.below(3); f.sticky = 0; }
        fs.push_back(f);
    }
    return fs;
}
