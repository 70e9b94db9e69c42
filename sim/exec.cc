// Executes a scenario against the real library and tool inside the simulated
// world and checks every outcome against the reference model.
#include "exec.h"
#include "model.h"
#include "world.h"
#include <list>
#include <algorithm>
#include <cerrno>
#include <unistd.h>

World *W;

std::string RunResult::viol_text() const {
    std::string t;
    for (auto &x : v) t += strf("class %s op %d %s\n", x.cls.c_str(), x.op, x.detail.c_str());
    return t;
}
void viol(const std::string &cls, const std::string &detail0) {
    std::string detail = detail0;
    for (auto &c : detail) if (c == '\n' || c == '\r') c = '|';
    if (W->res->v.size() < 20) W->res->v.push_back({ cls, detail, W->cur ? W->cur->id : -1 });
    if (g.log) g.logtext += "   VIOLATION " + cls + ": " + detail + "\n";
}

// ------------------------------------------------------------------ running code under test
__attribute__((noinline)) How guarded(const std::function<void()> &f) {
    volatile int how = H_RET;
    g.jmp_ok = true;
    int j = sigsetjmp(g.jmp, 0);
    if (j == 0) { g.active = true; f(); }
    else how = j;
    g.active = false;
    g.jmp_ok = false;
    return (How)how;
}
static uint64_t qh(const Bytes &b) {
    uint64_t h = b.size() * 0x9E3779B97F4A7C15ull + 1;
    size_t i = 0;
    for (; i + 8 <= b.size(); i += 8) { h ^= rd64(&b[i]); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }
    for (; i < b.size(); i++) { h ^= b[i]; h *= 0x100000001b3ull; }
    return h;
}
static std::map<std::string, uint64_t> snapshot() {
    std::map<std::string, uint64_t> m;
    for (auto &f : g.files) if (!g.keys.count(f.first) || f.second->writes) m[f.first] = qh(f.second->data);
    return m;
}

// Every command is a new process: the static data of the tool start afresh.
extern "C" {
extern char __start_bpaktool_bss[] __attribute__((weak)), __stop_bpaktool_bss[] __attribute__((weak));
extern char __start_bpaktool_data[] __attribute__((weak)), __stop_bpaktool_data[] __attribute__((weak));
}
static void fresh_statics() {       // byte by byte: the gaps between the variables are out of bounds for memcpy
    struct Area { char *a, *b; Bytes init; };
    static std::vector<Area> areas;
    static bool first = true;
    if (first) {
        first = false;
        for (auto p : { std::make_pair(__start_bpaktool_bss, __stop_bpaktool_bss), std::make_pair(__start_bpaktool_data, __stop_bpaktool_data) })
            if (p.first && p.second > p.first) { areas.push_back({ p.first, p.second, {} }); for (volatile char *c = p.first; c < p.second; c++) areas.back().init.push_back(*c); }
        return;
    }
    for (auto &x : areas) { const uint8_t *s = x.init.data(); for (volatile char *c = x.a; c < x.b; c++) *c = *s++; }
}
// the same command spelled otherwise: long or short options, values attached, file name last, verbose
static std::vector<std::string> respell(const std::vector<std::string> &args) {
    int how = W->cur ? W->cur->i("opt") : 0, verb = W->cur ? W->cur->i("verb") : 0;
    if ((!how && !verb) || args.size() < 2) return args;
    struct O { const char *l; char s; bool arg; };
    static const std::map<std::string, std::vector<O>> tab = {
        { "add", { { "part", 'p', true }, { "meta", 'm', true }, { "from-file", 'f', true }, { "from-string", 's', true }, { "encoder", 'e', true }, { "set-flag", 'F', true }, { "part-ref", 'r', true } } },
        { "create", { { "force", 'Y', false }, { "hash-kind", 'H', true }, { "signature-kind", 'S', true } } },
        { "delete", { { "part", 'p', true }, { "all", 'a', false }, { "keep-meta", 'k', false } } },
        { "extract", { { "meta", 'm', true }, { "part", 'p', true }, { "output", 'o', true }, { "part-ref", 'r', true } } },
        { "set", { { "meta", 'm', true }, { "from-string", 's', true }, { "encoder", 'e', true }, { "key-id", 'k', true }, { "keystore-id", 'i', true } } },
        { "show", { { "meta", 'm', true }, { "part", 'p', true }, { "part-hash", 'P', true }, { "hash", 'H', false }, { "binary-hash", 'B', false } } },
        { "sign", { { "key", 'k', true }, { "signature", 'f', true } } },
        { "verify", { { "key", 'k', true }, { "keystore", 'K', true } } },
        { "transport", { { "add", 'a', false }, { "origin", 'O', true }, { "output", 'o', true }, { "encoder", 'e', true }, { "decoder", 'd', true }, { "encode", 'E', false }, { "part-ref", 'r', true } } },
        { "compare", {} }, { "generate", { { "name", 'n', true }, { "decorate", 'd', false } } },
    };
    auto t = tab.find(args[0]);
    if (t == tab.end()) return args;
    std::vector<std::string> o = { args[0] }, last;
    if (verb & 4) o.push_back("--verbose");
    for (size_t i = 1; i < args.size(); i++) {
        const std::string &a = args[i];
        const O *x = nullptr;
        bool lng = false;
        if (a.size() > 1 && a[0] == '-') for (auto &y : t->second) { if (a == std::string("--") + y.l) x = &y, lng = true; else if (a.size() == 2 && a[1] == y.s) x = &y; }
        if (!x) { if (i == 1 && (how & 4) && a[0] != '-' && args[0] != "generate" && args[0] != "compare") last.push_back(a); else o.push_back(a); continue; }
        if (how & 1) lng = !lng;
        std::string n = lng ? std::string("--") + x->l : std::string("-") + x->s;
        if (!x->arg || i + 1 >= args.size()) { o.push_back(n); continue; }
        std::string v = args[++i];
        if ((how & 2) && (lng || !v.empty())) o.push_back(n + (lng ? "=" : "") + v); else { o.push_back(n); o.push_back(v); }
    }
    o.insert(o.end(), last.begin(), last.end());
    for (int i = 0; i < (verb & 3); i++) o.push_back("-v");
    return o;
}

How run_cli(const std::vector<std::string> &args, const Bytes &input, OpRes &r) {
    std::vector<char *> av;
    static std::string prog = "bpak";
    std::vector<std::string> copy = respell(args);
    fresh_statics();
    av.push_back((char *)prog.c_str());
    for (auto &a : copy) av.push_back((char *)a.c_str());
    av.push_back(nullptr);
    r.cli = true;
    optind = 0; opterr = 1; optopt = 0;
    // a process of its own: what other programs have open stays open
    int me = ++g.procs;
    g.proc = me;
    auto live = g.live; auto clive = g.custom_live;
    sim_std_streams(true, input);
    int rc = 0;
    How h = guarded([&] {
        rc = bpak_tool_main((int)av.size() - 1, av.data());
        fflush(stdout); fflush(stderr);
        sim_drop_process(true, me);
    });
    if (h == H_EXIT) {
        rc = g.exit_code;
        How h2 = guarded([&] { fflush(stdout); fflush(stderr); sim_drop_process(true, me); });
        h = h2 == H_RET ? H_RET : h2;
    }
    r.how = h;
    r.rc = rc; r.ok = h == H_RET && (rc & 0xff) == 0;
    sim_std_streams(false);
    r.out.assign(g.out->data.begin(), g.out->data.end());
    r.err.assign(g.err->data.begin(), g.err->data.end());
    sim_drop_process(false, me);
    g.proc = 0; g.live = live; g.custom_live = clive;
    fresh_statics();
    if (h == H_RET && !r.ok && r.err.empty() && !g.fired_files.count("<stderr>")) viol("cli-stderr", strf("exit status %d without a message on standard error: bpak %s", rc & 0xff, join(copy).c_str()));
    if (h == H_RET && r.ok && g.stdout_fault) viol("stdout-lost", strf("exit status 0 although standard output could not be written: bpak %s", join(copy).c_str()));
    return h;
}
// run library code with captured standard streams
How run_lib(const std::function<int()> &f, OpRes &r) {
    int rc = -999;
    sim_std_streams(true);
    How h = guarded([&] { rc = f(); if (stdout) fflush(stdout); });
    sim_std_streams(false);
    r.how = h; r.rc = rc; r.ok = h == H_RET && rc == 0;
    r.out.assign(g.out->data.begin(), g.out->data.end());
    r.err.assign(g.err->data.begin(), g.err->data.end());
    return h;
}
std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += (s.empty() ? "" : " ") + x; return s; }

bpak_package *new_pkg() {
    bpak_package *p = (bpak_package *)malloc(sizeof(bpak_package));
    memset(p, g.env.fill, sizeof *p);
    return p;
}

// ------------------------------------------------------------------ library side of edits
int lib_edit(bpak_package *p, const Op &o) {
    const std::string &k = o.kind;
    bpak_header *h = bpak_pkg_header(p);
    if (k == "addfile") {
        uint8_t fl = o.i("nohash") ? BPAK_FLAG_EXCLUDE_FROM_HASH : 0;
        if (o.i("merkle")) return bpak_pkg_add_file_with_merkle_tree(p, o.s("in").c_str(), o.s("part").c_str(), fl);
        return bpak_pkg_add_file(p, o.s("in").c_str(), o.s("part").c_str(), fl);
    }
    if (k == "addkey")
        return bpak_pkg_add_key(p, o.s("keyfile", o.s("key") + ".pub.pem").c_str(), o.s("part").c_str(), o.i("nohash") ? BPAK_FLAG_EXCLUDE_FROM_HASH : 0);
    if (k == "sign") return bpak_pkg_sign(p, o.s("keyfile", o.s("key") + ".pem").c_str());
    if (k == "signraw") {
        Bytes s = o.has("file") ? (sim_file(o.s("file")) ? *sim_file(o.s("file")) : Bytes()) : unhex(o.s("hex"));
        // exact-size heap copy so that over-reads are caught
        uint8_t *c = (uint8_t *)malloc(s.size() ? s.size() : 1);
        if (s.size()) memcpy(c, s.data(), s.size());
        int rc = bpak_pkg_write_raw_signature(p, c, s.size());
        free(c);
        return rc;
    }
    if (k == "delpart") return bpak_pkg_delete_part(p, name_id(o.s("part")), !o.i("keep"));
    if (k == "delall") return bpak_pkg_delete_all_parts(p, !o.i("keep"));
    // header-only edits: change, write, and undo our own change when the write fails
    bpak_header *save = (bpak_header *)malloc(sizeof *save);
    memcpy(save, h, sizeof *save);
    int rc = 0;
    bool own = false;
    if (k == "addmeta") {
        bool ok; Bytes b;
        if (o.has("file")) { b = sim_file(o.s("file")) ? *sim_file(o.s("file")) : Bytes(); ok = true; }
        else b = meta_bytes(o, ok);
        if (o.has("size")) b.resize(o.i("size"));
        if (!ok) { free(save); return -1; }         // the encoders belong to the tool
        bpak_meta_header *m = nullptr;
        rc = bpak_add_meta(h, name_id(o.s("id")), o.has("ref") ? name_id(o.s("ref")) : 0, b.size(), &m);
        if (rc == 0) {
            if (!b.empty()) memcpy(bpak_get_meta_ptr(h, m, uint8_t), b.data(), b.size());
            own = true;
        }
    } else if (k == "delmeta") {
        bpak_meta_header *m = nullptr;
        rc = bpak_get_meta(h, name_id(o.s("id")), o.has("ref") ? name_id(o.s("ref")) : 0, &m);
        if (rc == 0) { bpak_del_meta(h, m); own = true; }
    } else if (k == "setid") {
        if (o.has("key")) bpak_set_key_id(h, name_id(o.s("key")));
        if (o.has("ks")) bpak_set_keystore_id(h, name_id(o.s("ks")));
        own = true;
    } else if (k == "tradd") {
        rc = bpak_add_transport_meta(h, name_id(o.s("part")), ref_id(o.s("enc")), ref_id(o.s("dec")));
        own = rc == 0;
    } else rc = -1;
    if (rc == 0) {
        rc = bpak_pkg_write_header(p);
        if (rc != 0 && own) memcpy(h, save, sizeof *save);
    }
    free(save);
    return rc;
}
// add and set take names only, not numbers
static std::string cli_name(const std::string &s) {
    if (s.compare(0, 2, "0x")) return s;
    auto it = W->names.find(name_id(s));
    return it == W->names.end() ? s : it->second;
}
static bool has_name(const std::string &s) { return s.compare(0, 2, "0x") || W->names.count(name_id(s)); }
static void collect_names(const Scenario &s) {
    auto put = [](const std::string &n) {
        if (n.empty() || !n.compare(0, 2, "0x")) return;
        W->names[ref_id(n)] = n;
        W->names[ref_tree_id(ref_id(n))] = n + "-hash-tree";
    };
    for (auto &o : s.ops) for (const char *k : { "part", "id", "ref", "to", "toref" }) if (o.has(k)) put(o.s(k));
    for (const char *n : { "bpak-package", "bpak-version", "bpak-transport", "merkle-salt", "merkle-root-hash", "pb-load-addr", "keystore-provider-id", "bpak-key-id", "bpak-key-store" }) put(n);
}
std::vector<std::string> cli_edit(const Op &o, const std::string &f) {
    const std::string &k = o.kind;
    std::vector<std::string> a;
    auto add = [&](std::initializer_list<std::string> l) { a.insert(a.end(), l); };
    if (k == "addfile") {
        add({ "add", f, "-p", o.s("part"), "-f", o.s("in") });
        if (o.i("merkle")) add({ "-e", "merkle" });
        if (o.i("nohash")) add({ "-F", "dont-hash" });
    } else if (k == "addkey") {
        add({ "add", f, "-p", o.s("part"), "-f", o.s("keyfile", o.s("key") + ".pub.pem"), "-e", "key" });
        if (o.i("nohash")) add({ "--set-flag", "dont-hash" });
    } else if (k == "addmeta") {
        add({ "add", f, "--meta", cli_name(o.s("id")) });
        if (o.has("ref")) add({ "-r", cli_name(o.s("ref")) });
        if (o.has("file")) add({ "--from-file", o.s("file") });
        else add({ "-s", o.s("str") });
        if (o.s("enc") != "") add({ "-e", o.s("enc") });
    } else if (k == "setmeta") {
        add({ "set", f, "-m", cli_name(o.s("id")), "--from-string", o.s("str") });
        if (o.has("key")) add({ "-k", o.s("key") });
        if (o.has("ks")) add({ "-i", o.s("ks") });
        if (o.s("enc") != "") add({ "-e", o.s("enc") });
    } else if (k == "setid") {
        add({ "set", f });
        if (o.has("key")) add({ "-k", o.s("key") });
        if (o.has("ks")) add({ "-i", o.s("ks") });
    } else if (k == "delpart") {
        add({ "delete", f, "-p", o.s("part") });
        if (o.i("keep")) add({ "-k" });
    } else if (k == "delall") {
        add({ "delete", "--all", f });
        if (o.i("keep")) add({ "--keep-meta" });
    } else if (k == "sign") add({ "sign", f, "-k", o.s("keyfile", o.s("key") + ".pem") });
    else if (k == "signraw") add({ "sign", f, "--signature", o.s("file") });
    else if (k == "tradd") add({ "transport", f, "-a", "-r", o.s("part"), "-e", o.s("enc"), "-d", o.s("dec") });
    return a;
}

static bool cli_can(const Op &o) {
    if (o.kind == "delmeta") return false;
    if (o.kind == "addmeta" && (o.has("hex") || o.has("size") || !has_name(o.s("id")) || (o.has("ref") && !has_name(o.s("ref"))))) return false;
    if (o.kind == "signraw" && !o.has("file")) return false;
    return true;
}
static Bytes empty_bytes;
static std::string input_name(const Op &o) {
    if (o.kind == "addfile") return o.s("in");
    if (o.kind == "addmeta" || o.kind == "signraw") return o.s("file");
    return "";
}

// ------------------------------------------------------------------ edits
static std::vector<PState> afters(const std::vector<PState> &cands, const Op &o, const std::vector<const Bytes *> &ins, bool &allrefuse, bool &allmust, std::string &why) {
    std::vector<PState> r;
    allrefuse = true; allmust = true;
    for (auto &c : cands)
        for (auto in : ins) {
            PState s = c;
            Inputs i; i.in = in;
            std::string w;
            Exp e = model_apply(s, o, i, w);
            if (e == E_REFUSE) { why = w; allmust = false; continue; }
            if (e == E_EITHER) allmust = false;
            allrefuse = false;
            r.push_back(s);
        }
    return r;
}
static std::string try_match(const Bytes &f, std::vector<PState> &c, bool loose, std::string &cls, PState *out) {
    std::string last = "no candidate";
    for (auto &s : c) {
        PState t = s;
        std::string k;
        std::string d = match_file(f, t, loose, k);
        if (d.empty()) { *out = t; return ""; }
        last = d; if (!k.empty()) cls = k;
    }
    return last;
}
// decide whether a failure is explained by something that was injected
static bool excused() { return g.fired_in_op > 0; }

// an early end of file looks like a shorter file to a reader that only reads
static bool eof_fault(const std::string &f) {
    if (g.faults) for (auto &x : *g.faults) if (x.cls == EV_READ && x.fired && x.op == g.op && x.kind == "eof" && g.fired_files.count(f)) return true;
    return false;
}
static void op_edit_file(const Op &o) {
    std::string f = o.s("f");
    if (o.kind == "setmeta" && !has_name(o.s("id"))) return;             // the tool only knows names
    auto it = W->pk.find(f);
    bool known = it != W->pk.end();
    Bytes before = sim_file(f) ? *sim_file(f) : Bytes();
    bool existed = sim_exists(f);
    std::string inn = input_name(o);
    Bytes in0; bool have_in = false;
    if (!inn.empty() && sim_file(inn)) { in0 = *sim_file(inn); have_in = true; }
    OpRes r;
    bool cli = o.s("via", "lib") == "cli" && cli_can(o);
    if (o.kind == "setmeta") cli = true;
    leak_begin();
    if (cli) run_cli(cli_edit(o, f), Bytes(), r);
    else if (o.s("via") == "py" && py_can(o)) run_lib([&] { return py_once(f, o.s("mode", "r+"), o); }, r);
    else {
        bpak_package *p = new_pkg();
        run_lib([&] {
            int rc = bpak_pkg_open(p, f.c_str(), "r+");
            if (rc) return rc;
            rc = lib_edit(p, o);
            int rc2 = bpak_pkg_close(p);
            return rc ? rc : rc2;
        }, r);
        free(p);
    }
    note_result(o, r);
    if (r.how == H_CRASH && !cli) handle_crash(o);
    if (bad_how(o, r)) { W->pk.erase(f); sim_drop_process(false); W->h.clear(); return; }
    if (r.how == H_RET && !cli) leak_check();
    Bytes now = sim_file(f) ? *sim_file(f) : Bytes();
    check_others(o, { f });
    if (!known) {
        // not a package the model knows: the file must stay as it was when refused
        if (W->junk.count(f)) {
            if (r.ok) viol("accept-refused", strf("%s succeeded on %s, which is not a package", o.kind.c_str(), f.c_str()));
            if (existed != sim_exists(f) || now != before) viol("nonpkg-altered", strf("%s altered %s, which is not a package (%zu -> %zu bytes)", o.kind.c_str(), f.c_str(), before.size(), now.size()));
        } else if (!existed) {
            if (r.ok) viol("accept-refused", o.kind + " succeeded on a missing file");
            if (sim_exists(f)) viol("nonpkg-altered", o.kind + " on a missing file created it");
        }
        return;
    }
    FileM &m = it->second;
    std::vector<const Bytes *> ins;
    Bytes in1; if (!inn.empty() && sim_file(inn)) in1 = *sim_file(inn);
    ins.push_back(have_in ? &in0 : nullptr);
    if (g.resize_in_op && have_in) ins.push_back(&in1);
    std::list<Bytes> part;                 // what was read before the file shrank
    if ((o.kind == "signraw" || o.kind == "addmeta") && have_in && eof_fault(inn)) for (size_t n = 0; n < in0.size() && n <= (o.kind == "addmeta" ? 1920u : 512u); n++) { part.push_back(Bytes(in0.begin(), in0.begin() + n)); ins.push_back(&part.back()); }
    if (g.resize_in_op && have_in && o.kind == "addmeta") for (size_t n = in1.size() + 1; n < in0.size() && n <= 1920; n++) { part.push_back(Bytes(in0.begin(), in0.begin() + n)); ins.push_back(&part.back()); }
    bool allrefuse, allmust; std::string why;
    std::vector<PState> af = afters(m.cands, o, ins, allrefuse, allmust, why);
    PState got; std::string cls, d;
    bool destr = is_destructive(o.kind);
    if (r.how == H_RET && r.ok) {
        if (o.i("wildkey")) { rebase(f); return; }
        if (allrefuse) { viol("accept-refused", strf("%s reported success although it must be refused: %s", o.kind.c_str(), why.c_str())); rebase(f); return; }
        bool loose = m.loose && !destr;
        d = try_match(now, af, loose, cls, &got);
        if (!d.empty()) {
            viol(W->any_fault ? (cls == "merkle" ? "merkle" : "lost-effect") : cls.empty() ? "content" : cls, strf("%s reported success but the package is wrong: %s", o.kind.c_str(), d.c_str()));
            rebase(f);
            return;
        }
        m.cands = { got };
        m.loose = loose && !destr;
        return;
    }
    bool crash = r.how == H_CRASH;
    if (!crash && allmust && !excused()) viol("spurious-failure", strf("%s failed (%d) without cause: %s", o.kind.c_str(), r.rc, r.err.substr(0, 200).c_str()));
    if (destr && excused()) {
        // deletion moves data in place: an interrupted deletion promises nothing
        d = try_match(now, m.cands, true, cls, &got);
        if (d.empty()) m.cands = { got }; else W->pk.erase(f);
        return;
    }
    std::vector<PState> all = m.cands;
    if (excused()) all.insert(all.end(), af.begin(), af.end());
    if (crash && o.kind == "addfile" && o.i("merkle"))
        for (auto &c : m.cands) { PState s = c; Inputs i; i.in = have_in ? &in0 : nullptr; if (model_data_only(s, o, i)) all.push_back(s); }
    d = try_match(now, all, true, cls, &got);
    if (!d.empty()) {
        viol(crash ? "crash-state" : "not-intact", strf("%s %s and left neither the old nor the new package: %s", o.kind.c_str(), crash ? "was interrupted" : "failed", d.c_str()));
        rebase(f);
        return;
    }
    if (!excused() && now != before && !m.loose) {
        // refused without any fault: nothing but unused trailing space may change
        std::string k2; std::vector<PState> c2 = m.cands; PState g2;
        if (!try_match(now, c2, false, k2, &g2).empty()) m.loose = true;
    }
    m.cands = { got };
    Parsed p = ref_parse(now.data(), now.size());
    if (p.end != p.file_len) m.loose = true;
}
// adopt whatever is in the file after a violation so that one defect is not reported repeatedly
void rebase(const std::string &f) {
    const Bytes *b = sim_file(f);
    if (!b) { W->pk.erase(f); return; }
    Parsed p = ref_parse(b->data(), b->size());
    if (!p.ok || !p.bad.empty()) { W->pk.erase(f); return; }
    W->pk[f].cands = { p.st };
    W->pk[f].loose = p.end != p.file_len;
}

static void op_edit_handle(const Op &o) {
    auto hi = W->h.find(o.i("h"));
    if (hi == W->h.end()) return;
    HandleM &h = hi->second;
    std::string inn = input_name(o);
    Bytes in0; bool have_in = false;
    if (!inn.empty() && sim_file(inn)) { in0 = *sim_file(inn); have_in = true; }
    OpRes r;
    Bytes hdr0((uint8_t *)&h.pkg->header, (uint8_t *)&h.pkg->header + HDR);
    if (h.py && !py_can(o)) return;
    if (!h.py && (o.kind == "setkind" || o.kind == "partren" || o.kind == "metaren" || o.kind == "metaput" || o.kind == "clearsig")) return;
    leak_begin();
    if (h.py) run_lib([&] { return py_edit(h.py, o); }, r);
    else run_lib([&] { return lib_edit(h.pkg, o); }, r);
    note_result(o, r);
    if (bad_how(o, r)) { W->pk.erase(h.file); sim_drop_process(false); W->h.clear(); return; }
    if (r.how == H_CRASH) {
        handle_crash(o);
        return;
    }
    leak_check();
    check_others(o, { h.file });
    if (h.dead) return;
    std::vector<const Bytes *> ins;
    Bytes in1; if (!inn.empty() && sim_file(inn)) in1 = *sim_file(inn);
    ins.push_back(have_in ? &in0 : nullptr);
    if (g.resize_in_op && have_in) ins.push_back(&in1);
    std::list<Bytes> part;                 // what was read before the file shrank
    if ((o.kind == "signraw" || o.kind == "addmeta") && have_in && eof_fault(inn)) for (size_t n = 0; n < in0.size() && n <= (o.kind == "addmeta" ? 1920u : 512u); n++) { part.push_back(Bytes(in0.begin(), in0.begin() + n)); ins.push_back(&part.back()); }
    if (g.resize_in_op && have_in && o.kind == "addmeta") for (size_t n = in1.size() + 1; n < in0.size() && n <= 1920; n++) { part.push_back(Bytes(in0.begin(), in0.begin() + n)); ins.push_back(&part.back()); }
    bool allrefuse, allmust; std::string why;
    std::vector<PState> one = { h.mem };
    std::vector<PState> af = afters(one, o, ins, allrefuse, allmust, why);
    const uint8_t *hd = (const uint8_t *)&h.pkg->header;
    std::string cls, d;
    h.last = af;
    if (r.ok) {
        if (allrefuse) { viol("accept-refused", strf("%s reported success although it must be refused: %s", o.kind.c_str(), why.c_str())); h.dead = true; return; }
        d = "?";
        for (auto &s : af) { PState t = s; std::string k; d = match_header(hd, t, k); if (d.empty()) { h.mem = t; break; } if (!k.empty()) cls = k; }
        if (!d.empty()) {
            viol(W->any_fault ? "lost-effect" : cls.empty() ? "content" : cls, strf("%s reported success but the header is wrong: %s", o.kind.c_str(), d.c_str()));
            h.dead = true; return;
        }
        h.lastok = true;
        h.possible.push_back(h.mem);
        if (is_destructive(o.kind) && !W->any_fault) h.loose = false;
        return;
    }
    if (allmust && !excused() && !h.tainted) viol("spurious-failure", strf("%s failed (%d) without cause on an open package: %s", o.kind.c_str(), r.rc, r.err.substr(0, 200).c_str()));
    if (excused()) h.tainted = true;
    h.loose = true;
    h.lastok = false;
    if (is_destructive(o.kind) && excused()) { h.dead = true; return; }
    for (auto &s : af) h.possible.push_back(s);
    PState t = h.mem;
    d = match_header(hd, t, cls);
    // the edit was made, only the object that stands for its result could not be created
    if (!d.empty() && py_alloc_fired) for (auto &s : af) { PState t2 = s; std::string k; if (match_header(hd, t2, k).empty()) { h.mem = t2; h.possible.push_back(t2); return; } }
    if (!d.empty()) { viol("mem-not-restored", strf("%s failed but its effect stays in the open package: %s", o.kind.c_str(), d.c_str())); h.dead = true; return; }
    if (!excused() && memcmp(hd, hdr0.data(), HDR)) { viol("mem-not-restored", strf("%s was refused but changed the header", o.kind.c_str())); h.dead = true; }
}
void handle_crash(const Op &o) {
    sim_drop_process(false);
    for (auto &kv : W->h) {
        HandleM &h = kv.second;
        if (!h.py) free(h.pkg);
        if (!W->pk.count(h.file)) continue;
        if (h.dead) { W->pk.erase(h.file); continue; }
        std::vector<PState> all = h.possible;
        // the interrupted operation itself
        if (is_edit(o.kind) && o.i("h", -1) == kv.first) {
            Bytes in0; bool have = false;
            std::string inn = input_name(o);
            if (!inn.empty() && sim_file(inn)) { in0 = *sim_file(inn); have = true; }
            if (is_destructive(o.kind)) { W->pk.erase(h.file); continue; }
            bool a, b; std::string w;
            std::vector<PState> one = { h.mem };
            for (auto &s : afters(one, o, { have ? &in0 : nullptr }, a, b, w)) all.push_back(s);
            if (o.kind == "addfile" && o.i("merkle")) { PState s = h.mem; Inputs i; i.in = have ? &in0 : nullptr; if (model_data_only(s, o, i)) all.push_back(s); }
        }
        PState got; std::string cls;
        const Bytes *b = sim_file(h.file);
        std::string d = b ? try_match(*b, all, true, cls, &got) : "file is gone";
        if (!d.empty()) { viol("crash-state", strf("interrupted %s left neither an old nor a new package: %s", o.kind.c_str(), d.c_str())); rebase(h.file); }
        else { W->pk[h.file].cands = { got }; Parsed p = ref_parse(b->data(), b->size()); W->pk[h.file].loose = p.end != p.file_len; }
    }
    W->h.clear();
}

static void op_create(const Op &o) {
    std::string f = o.s("f");
    int hk = o.i("hk", 1), sk = o.i("sk", 2);
    OpRes r;
    leak_begin();
    bool cli = o.s("via", "lib") == "cli";
    if (cli) {
        static const char *hs[] = { "", "sha256", "sha384", "sha512" };
        static const char *ss[] = { "", "rsa4096", "prime256v1", "secp384r1", "secp521r1" };
        std::vector<std::string> a = { "create", f, "-H", hs[hk], "-S", ss[sk] };
        Bytes in;
        std::string ans = o.s("answer", o.i("prompt") ? "Y\n" : "");
        if (o.has("answer") || o.i("prompt")) in.assign(ans.begin(), ans.end()); else a.push_back("-Y");
        bool existed = sim_exists(f);
        Bytes before = existed ? *sim_file(f) : Bytes();
        run_cli(a, in, r);
        if (o.has("answer") && ans[0] != 'Y' && existed) {      // the user refused to overwrite it
            note_result(o, r);
            bool kept = sim_exists(f) && *sim_file(f) == before;
            bool unseen = false;             // a failing stat() cannot tell that the file exists
            if (g.faults) for (auto &x : *g.faults) if (x.cls == EV_STAT && x.fired && x.op == g.op) unseen = true;
            if (unseen) { W->pk.erase(f); return; }
            if (r.how == H_RET && r.ok) viol("cli-status", "create exits 0 although the existing package was not to be overwritten");
            if (!kept) viol("not-intact", "create altered a package that was not to be overwritten");
            if (r.how == H_CRASH) { if (!kept) W->pk.erase(f); return; }
            if (bad_how(o, r)) { W->pk.erase(f); sim_drop_process(false); W->h.clear(); return; }
            check_others(o, { f });
            if (!kept) W->pk.erase(f);
            return;
        }
    } else if (o.s("via") == "py") {
        run_lib([&] { return py_create(f, hk, sk); }, r);
    } else {
        bpak_package *p = new_pkg();
        run_lib([&] {
            int rc = bpak_pkg_open(p, f.c_str(), "wb+");
            if (rc) return rc;
            p->header.hash_kind = hk; p->header.signature_kind = sk;
            rc = bpak_pkg_update_hash(p, NULL, NULL);
            if (!rc) rc = bpak_pkg_write_header(p);
            int rc2 = bpak_pkg_close(p);
            return rc ? rc : rc2;
        }, r);
        free(p);
    }
    note_result(o, r);
    W->junk.erase(f);
    if (r.how == H_CRASH && !r.cli) handle_crash(o);
    if (bad_how(o, r)) { W->pk.erase(f); sim_drop_process(false); W->h.clear(); return; }
    if (r.how == H_RET && !cli) leak_check();
    check_others(o, { f });
    PState s; s.hk = hk; s.sk = sk; s.hash_stale = o.s("via") == "py";
    if (r.ok) {
        std::string cls;
        const Bytes *b = sim_file(f);
        std::string d = b ? match_file(*b, s, false, cls) : "no file";
        if (!d.empty()) { viol(W->any_fault ? "lost-effect" : "content", "create reported success but: " + d); rebase(f); return; }
        W->pk[f] = FileM(); W->pk[f].cands = { s };
        return;
    }
    if (r.how == H_RET && !excused()) viol("spurious-failure", strf("create failed (%d)", r.rc));
    W->pk.erase(f);
    const Bytes *b = sim_file(f);
    if (b) { std::string cls; PState t = s; if (match_file(*b, t, false, cls).empty()) { W->pk[f] = FileM(); W->pk[f].cands = { t }; } }
}

static void op_open(const Op &o) {
    std::string f = o.s("f");
    int id = o.i("h");
    if (W->h.count(id)) return;
    Bytes before = sim_file(f) ? *sim_file(f) : Bytes();
    bool existed = sim_exists(f);
    OpRes r;
    bool bypy = o.s("via") == "py";
    PyH *ph = nullptr;
    bpak_package *p = bypy ? nullptr : new_pkg();
    leak_begin();
    if (bypy) run_lib([&] { int rc; ph = py_open(f, o.s("mode", "r+"), rc); return rc; }, r);
    else run_lib([&] { return bpak_pkg_open(p, f.c_str(), o.s("mode", "r+").c_str()); }, r);
    if (ph) p = py_pkg(ph);
    note_result(o, r);
    if (r.how == H_CRASH) { free(p); handle_crash(o); }
    if (r.how != H_RET || !r.ok) {
        if (bad_how(o, r)) { W->pk.erase(f); return; }
        if (r.how == H_RET) { free(p); leak_check(); }
        if (r.how == H_RET && W->pk.count(f) && !excused()) viol("spurious-failure", strf("opening a valid package failed (%d)", r.rc));
        if (existed && before.size() && before != *sim_file(f)) { viol(W->junk.count(f) ? "nonpkg-altered" : "not-intact", "a failed open altered the file"); W->pk.erase(f); }
        if (!existed && sim_exists(f)) viol("nonpkg-altered", "a failed open created the file");
        check_others(o, existed && before.empty() ? std::set<std::string>{ f } : std::set<std::string>{});
        return;
    }
    if (existed && before.size() && before != *sim_file(f)) { viol("nonpkg-altered", "opening altered the file"); }
    if (!W->pk.count(f)) {
        if (W->junk.count(f) || !existed) viol("accept-refused", "opened " + f + ", which is not a package");
        if (ph) run_lib([&] { return py_close(ph, "close"); }, r);
        else { run_lib([&] { return bpak_pkg_close(p); }, r); free(p); }
        return;
    }
    HandleM h;
    h.pkg = p; h.file = f; h.py = ph;
    FileM &m = W->pk[f];
    h.mem = m.cands[0];
    h.loose = m.loose;
    h.possible = { h.mem };
    h.lastok = true;
    std::string cls;
    std::string d = match_header((uint8_t *)&p->header, h.mem, cls);
    if (!d.empty()) { viol("content", "opened package shows another header than its file: " + d); h.dead = true; }
    W->h[id] = h;
}
static void op_close(const Op &o) {
    auto it = W->h.find(o.i("h"));
    if (it == W->h.end()) return;
    HandleM h = it->second;
    OpRes r;
    leak_begin();
    std::string how = o.s("how", "close");
    if (h.py) run_lib([&] { return py_close(h.py, how); }, r);
    else run_lib([&] { return bpak_pkg_close(h.pkg); }, r);
    if (h.py && how == "drop" && r.ok && excused()) r.ok = false;        // nobody is told whether closing worked
    note_result(o, r);
    if (bad_how(o, r)) { W->pk.erase(h.file); sim_drop_process(false); W->h.clear(); return; }
    if (r.how == H_CRASH) { handle_crash(o); return; }
    W->h.erase(it);
    // the file stays open in no case
    if (W->h.empty() && sim_open_fds()) viol("leak", strf("%d file(s) still open after close", sim_open_fds()));
    if (!h.py) free(h.pkg);
    check_others(o, { h.file });
    if (!W->pk.count(h.file)) return;
    if (h.dead) { W->pk.erase(h.file); return; }
    FileM &m = W->pk[h.file];
    const Bytes *b = sim_file(h.file);
    Bytes empty; if (!b) b = &empty;
    std::vector<PState> all;
    PState got; std::string cls, d;
    if (r.ok) {
        all = { h.mem };
        if (!h.lastok) all.insert(all.end(), h.last.begin(), h.last.end());
        d = try_match(*b, all, h.loose, cls, &got);
        if (!d.empty()) {
            viol(W->any_fault ? (h.lastok ? "lost-effect" : "not-intact") : cls.empty() ? "content" : cls, strf("after a successful close the package is wrong: %s", d.c_str()));
            rebase(h.file); return;
        }
    } else {
        if (!excused() && !h.tainted) viol("spurious-failure", strf("close failed (%d)", r.rc));
        d = try_match(*b, h.possible, true, cls, &got);
        if (!d.empty()) { viol("not-intact", strf("after a failed close the package is none of its earlier states: %s", d.c_str())); rebase(h.file); return; }
    }
    m.cands = { got };
    Parsed p = ref_parse(b->data(), b->size());
    m.loose = p.end != p.file_len;
}

// ------------------------------------------------------------------ bookkeeping
static int b_fds; static size_t b_live, b_cust, b_maps, b_x;
void leak_begin() { b_fds = sim_open_fds(); b_live = g.live.size(); b_cust = g.custom_live.size(); b_maps = g.maps.size(); b_x = g.xlive; g.alloc_violation.clear(); }
void leak_check() {
    if (!g.alloc_violation.empty()) { viol("alloc-mismatch", g.alloc_violation); g.alloc_violation.clear(); }
    if (sim_open_fds() > b_fds) {
        std::string n; for (size_t i = 3; i < g.fds.size(); i++) if (g.fds[i] && g.fds[i]->op == g.op) n += " " + g.fds[i]->ino->name;
        viol("leak", "file left open:" + n);
    }
    if (g.maps.size() > b_maps) viol("leak", "memory mapping left behind");
    if (g.live.size() > b_live || g.custom_live.size() > b_cust || g.xlive > b_x) {
        size_t n = 0, bytes = 0;
        sim_xleaks(g.op, n, bytes);
        for (auto *l : { &g.live, &g.custom_live }) for (auto &x : *l) if (x.second.op == g.op) { n++; bytes += x.second.size; }
        viol("leak", strf("%zu allocation(s), %zu bytes not released", n, bytes));
        // forget them so that later operations are judged on their own
        for (auto *l : { &g.live, &g.custom_live }) for (auto i = l->begin(); i != l->end();) if (i->second.op == g.op) i = l->erase(i); else ++i;
    }
}
bool bad_how(const Op &o, const OpRes &r) {
    if (r.how == H_HANG) { viol("hang", strf("%s did not finish within %llu steps", o.kind.c_str(), (unsigned long long)g.step_limit)); return true; }
    if (r.how == H_ABORT) { viol("abort", o.kind + " aborted"); return true; }
    if (r.how == H_EXIT) { viol("abort", strf("library called exit(%d) in %s", g.exit_code, o.kind.c_str())); return true; }
    return false;
}
void note_result(const Op &o, const OpRes &r) {
    W->res->ops[o.kind]++;
    std::string py = py_problem();
    if (!py.empty()) viol("py", o.kind + ": " + py);
    if (!r.ok) W->res->failed[o.kind]++;
    if (g.fired_in_op) W->any_fault = true;
    uint64_t x[2] = { (uint64_t)r.how, (uint64_t)(uint32_t)r.rc };
    g.trace = fnv(x, sizeof x, g.trace);
    std::string out;                     // verbose output names addresses, which are no part of the behaviour
    for (size_t i = 0, k; i < r.out.size(); i++) {
        out += r.out[i];
        if (r.out[i] != 'x' || !i || r.out[i - 1] != '0') continue;
        for (k = i + 1; k < r.out.size() && isxdigit((unsigned char)r.out[k]); k++) ;
        if (k - i > 10) i = k - 1;
    }
    g.trace = fnv(out, g.trace);
    W->outdigest = fnv(out, W->outdigest);
    W->outdigest = fnv(x, sizeof x, W->outdigest);
    if (g.log) g.logtext += strf("-- op %d %s how=%d rc=%d fired=%d\n   out: %s\n   err: %s\n", o.id, o.kind.c_str(), r.how, r.rc, g.fired_in_op, r.out.substr(0, 300).c_str(), r.err.substr(0, 300).c_str());
}
// files other than the named outputs must be as they were
void check_others(const Op &o, const std::set<std::string> &outs) {
    auto now = snapshot();
    for (auto &kv : W->snap) {
        if (outs.count(kv.first)) continue;
        auto i = now.find(kv.first);
        bool resized = g.resize_in_op && g.fired_files.count(kv.first);
        if (i == now.end()) viol("input-modified", o.kind + " removed " + kv.first);
        else if (kv.second == qh(Bytes()) && o.s("mode").find('+') != std::string::npos) ;       // an empty file opened for writing becomes a package
        else if (i->second != kv.second && !resized) { viol("input-modified", o.kind + " changed " + kv.first); W->pk.erase(kv.first); }
    }
    for (auto &kv : now)
        if (!W->snap.count(kv.first) && !outs.count(kv.first) && !g.keys.count(kv.first)) {
            if (g.log) g.logtext += "   new file " + kv.first + "\n";   // scratch files are allowed if cleaned up
            if (!g.fired_in_op) viol("input-modified", o.kind + " left a stray file " + kv.first);
        }
}

// ------------------------------------------------------------------ harness operations
static void op_corrupt(const Op &o) {
    std::string f = o.s("f");
    Bytes *b = sim_file(f);
    if (!b) return;
    Bytes n = *b;
    std::string how = o.s("how");
    size_t at = o.i("at"), len = o.i("len", 1);
    if (how == "flip") { if (at < n.size()) n[at] ^= (uint8_t)o.i("x", 1); }
    else if (how == "set") { Bytes v = unhex(o.s("hex")); for (size_t i = 0; i < v.size() && at + i < n.size(); i++) n[at + i] = v[i]; }
    else if (how == "zero") { for (size_t i = at; i < at + len && i < n.size(); i++) n[i] = 0; }
    else if (how == "trunc") n.resize(std::min(n.size(), at));
    else if (how == "append") { Bytes v = gen_content(o.i("seed"), len, "rand"); n.insert(n.end(), v.begin(), v.end()); }
    else if (how == "swap") { size_t a2 = o.i("at2"); for (size_t i = 0; i < len && at + i < n.size() && a2 + i < n.size(); i++) std::swap(n[at + i], n[a2 + i]); }
    else if (how == "rand") { Bytes v = gen_content(o.i("seed"), len, "rand"); for (size_t i = 0; i < len && at + i < n.size(); i++) n[at + i] = v[i]; }
    else if (how == "metaout" || how == "partren") { // one table entry lost or renamed
        uint32_t id = name_id(o.s("id")), ref = o.has("ref") ? name_id(o.s("ref")) : 0, to = o.i("to");
        bool me = how == "metaout";
        for (size_t i = 0; i < 32 && n.size() >= HDR; i++) {
            uint8_t *e = &n[me ? OFF_META + 16 * i : OFF_PARTS + 32 * i];
            if (rd32(e) != id || (me && rd32(e + 8) != ref)) continue;
            if (!me || to > 1) wr32(e, to); else if (to == 1) wr32(e + 8, ref + 1); else memset(e, 0, 16);
            break;
        }
    }
    else if (how == "stale") { const Bytes *s = sim_file(o.s("from")); if (s) for (size_t i = at; i < at + len && i < n.size(); i++) n[i] = i < s->size() ? (*s)[i] : 0; }
    sim_put(f, n);
    W->pk.erase(f);
    W->wild.insert(f);
}
static void op_copy(const Op &o) {
    const Bytes *b = sim_file(o.s("f"));
    if (!b) return;
    std::string t = o.s("o");
    Bytes c = *b;
    sim_put(t, c);
    if (g.keys.count(o.s("f"))) { W->wild.insert(t); return; }
    W->pk.erase(t); W->junk.erase(t); W->wild.erase(t);
    if (W->pk.count(o.s("f"))) W->pk[t] = W->pk[o.s("f")];
    if (W->wild.count(o.s("f"))) W->wild.insert(t);
    if (W->junk.count(o.s("f"))) W->junk.insert(t);
}

static void op_cli(const Op &o) {           // raw command line with an expected class of result
    std::vector<std::string> a;
    std::string s = o.s("args"), cur;
    for (char c : s) if (c == '\x1f') { a.push_back(cur); cur.clear(); } else cur += c;
    a.push_back(cur);
    OpRes r;
    std::string in = o.s("stdin");
    std::map<std::string, uint64_t> before = snapshot();
    std::set<std::string> empties;
    for (auto &x : a) if (sim_file(x) && sim_file(x)->empty()) empties.insert(x);
    run_cli(a, Bytes(in.begin(), in.end()), r);
    note_result(o, r);
    if (r.how == H_CRASH) return;
    if (bad_how(o, r)) return;
    std::string want = o.s("want");
    if (want == "fail" && r.ok) viol("cli-status", strf("exit status 0 for: bpak %s", join(a).c_str()));
    if (want == "ok" && !r.ok && !excused()) viol("cli-status", strf("exit status %d for: bpak %s", r.rc & 0xff, join(a).c_str()));
    if (want == "ok" && r.ok && o.has("out") && r.out.find(o.s("out")) == std::string::npos) viol("show", strf("bpak %s printed '%s', expected '%s'", join(a).c_str(), r.out.substr(0, 200).c_str(), o.s("out").c_str()));
    std::set<std::string> blank;           // an empty file may be initialised
    for (auto &x : a) if (sim_file(x) && before.count(x) && empties.count(x)) blank.insert(x);
    if (o.i("inert", 1)) check_others(o, blank);
}

// header hash as a user obtains it: computed from the file, or asked from the tool
static void op_extsign(const Op &o) {
    const Bytes *b = sim_file(o.s("f"));
    const Bytes *pem = sim_key_file(o.s("key") + ".pem");
    if (!b || b->size() < HDR || !pem) return;
    int hk = (*b)[OFF_HK];
    Bytes h;
    if (o.s("hashvia") == "cli") {
        OpRes r;
        run_cli({ "show", o.s("f"), "--binary-hash" }, Bytes(), r);
        note_result(o, r);
        if (r.how != H_RET || !r.ok) { if (!excused() && W->pk.count(o.s("f")) && r.how == H_RET) viol("spurious-failure", "show --binary-hash failed"); return; }
        h.assign(r.out.begin(), r.out.end());
    } else h = ref_header_hash(b->data());
    Bytes s = ref_pk_sign(*pem, hk, h);
    if (s.empty()) return;
    sim_put(o.s("o"), s);
}
static void op_rehash(const Op &o, bool resign) {
    Bytes *b = sim_file(o.s("f"));
    if (!b || b->size() < HDR) return;
    Bytes n = *b;
    if (!resign) {
        Parsed p = ref_parse(n.data(), n.size());
        if (!p.ok) return;
        Bytes h = ref_payload_hash(p.st);
        for (size_t i = 0; i < 64; i++) n[OFF_PHASH + i] = i < h.size() ? h[i] : 0;
    } else {
        const Bytes *pem = sim_key_file(o.s("key") + ".pem");
        Bytes s = pem ? ref_pk_sign(*pem, n[OFF_HK], ref_header_hash(n.data())) : Bytes();
        if (s.empty() || s.size() > 512) return;
        memset(&n[OFF_SIG], 0, 512);
        memcpy(&n[OFF_SIG], s.data(), s.size());
        wr16(&n[OFF_SIGSZ], s.size());
    }
    sim_put(o.s("f"), n);
    W->pk.erase(o.s("f")); W->wild.insert(o.s("f"));
}

// ------------------------------------------------------------------ scenario
void exec_transport(const Op &o);
bool exec_read(const Op &o);
bool exec_stream(const Op &o);
void exec_big(const Op &o);
void backend_absent(bool restore);
bool exec_hdr(const Op &o);
bool exec_py(const Op &o);
void setup_backend(const Env &e);

static void state_note() {
    // abstract state measure: shapes of all known packages
    uint64_t h = 7;
    for (auto &kv : W->pk) {
        const PState &s = kv.second.cands[0];
        uint64_t x[6] = { s.parts.size(), s.metas.size(), s.hk, s.sig.size(), kv.second.loose, 0 };
        for (auto &p : s.parts) x[5] = x[5] * 31 + p.flags + (p.size ? 64 - __builtin_clzll(p.size) : 0) * 4;
        for (auto &m : s.metas) x[5] = x[5] * 37 + m.data.size();
        h = fnv(x, sizeof x, h);
    }
    uint64_t y[2] = { W->h.size(), (uint64_t)W->any_fault };
    W->res->states.insert(fnv(y, sizeof y, h));
}

RunResult run_scenario(const Scenario &s, bool log) {
    RunResult res;
    World w;
    W = &w;
    w.res = &res;
    sim_reset(s.env);
    g.log = log;
    std::vector<Fault> faults = s.faults;
    g.faults = &faults;
    g.step_limit = 6000000;
    setup_backend(s.env);
    py_reset();
    std::map<std::string, Bytes> done;
    for (auto &f : s.files) {
        Bytes b = make_file(s, f, done);
        done[f.name] = b;
        sim_put(f.name, b);
        if (f.i("junk")) w.junk.insert(f.name);
        if (f.i("wild")) w.wild.insert(f.name);
    }
    w.snap = snapshot();
    collect_names(s);
    for (auto &o : s.ops) {
        w.cur = &o;
        if (log) { Scenario t; t.ops.push_back(o); std::string x = t.text(); g.logtext += "== " + x.substr(x.find("\nop ") + 1); }
        sim_begin_op(o.id);
        py_alloc_fired = false;
        uint64_t ev0 = g.events;
        g.step_limit = ev0 + 6000000;
        const std::string &k = o.kind;
        if (s.env.hash) backend_absent(false);
        // a package that is open through a handle is not used through another one at the same time
        bool busy = false;
        if (!o.has("h") || k == "open")
            for (auto &p : o.a) for (auto &hv : w.h) if (!hv.second.file.empty() && p.second == hv.second.file) busy = true;
        if (busy) { if (s.env.hash) backend_absent(true); sim_end_op(); continue; }
        if (k == "create") op_create(o);
        else if (k == "open") op_open(o);
        else if (k == "close") op_close(o);
        else if (is_edit(k)) { if (o.has("h")) op_edit_handle(o); else op_edit_file(o); }
        else if (k == "corrupt") op_corrupt(o);
        else if (k == "extsign") op_extsign(o);
        else if (k == "rehash" || k == "resign") op_rehash(o, k == "resign");
        else if (k == "copy") op_copy(o);
        else if (k == "remove") { sim_remove(o.s("f")); w.pk.erase(o.s("f")); w.junk.erase(o.s("f")); w.wild.erase(o.s("f")); }
        else if (k == "mkjunk") { w.junk.insert(o.s("f")); w.pk.erase(o.s("f")); }
        else if (k == "cli") op_cli(o);
        else if (k == "encode" || k == "decode") exec_transport(o);
        else if (k == "big") exec_big(o);
        else if (k == "hdr") exec_hdr(o);
        else if (!exec_read(o) && !exec_stream(o) && !exec_py(o)) viol("harness", "unknown operation " + k);
        if (s.env.hash && g.fired_in_op) backend_absent(true);
        if (g.fired_in_op) w.any_fault = true;
        sim_end_op();
        w.snap = snapshot();
        state_note();
    }
    // anything still open is abandoned, like an application that exits
    w.cur = nullptr;
    sim_begin_op(-2);
    for (auto &kv : w.h) {
        if (kv.second.py) { PyH *p = kv.second.py; guarded([&] { py_close(p, "drop"); }); }
        else free(kv.second.pkg);
    }
    w.h.clear();
    sim_drop_process(false);
    for (auto &f : faults) { res.planned[std::string(ev_names[f.cls]) + ":" + f.kind]++; if (f.fired) res.fired[std::string(ev_names[f.cls]) + ":" + f.kind]++; }
    res.trace = g.trace; res.events = g.events; res.now = g.now;
    res.counts = g.op_counts;
    uint64_t d = w.outdigest;
    for (auto &f : g.files) if (!g.keys.count(f.first)) { d = fnv(f.first, d); uint64_t q = qh(f.second->data); d = fnv(&q, 8, d); }
    res.digest = d;
    uint64_t fd = 11;
    for (auto &f : g.files) {
        if (g.keys.count(f.first)) continue;
        uint64_t q;
        if (w.pk.count(f.first)) {     // bytes up to the end of the last part
            Parsed p = ref_parse(f.second->data.data(), f.second->data.size());
            Bytes t = f.second->data; if (p.ok && p.end <= t.size()) t.resize(p.end);
            q = qh(t);
        } else q = qh(f.second->data);
        fd = fnv(f.first, fd); fd = fnv(&q, 8, fd);
    }
    res.fdigest = fd;
    if (log) res.log = g.logtext;
    g.faults = nullptr;
    W = nullptr;
    return res;
}
