// Reading operations, transport operations, streaming interfaces and the
// replaceable back ends.
#include "exec.h"
#include "model.h"
#include "world.h"
#include <algorithm>
#include <cerrno>

extern "C" void sim_free(void *p);
static bool excused() { return g.fired_in_op > 0; }

// ------------------------------------------------------------------ replaceable back ends
static int bh_init(struct bpak_hash_context *c) {
    if (sim_event(EV_HASH, "hash_init", "", c->kind)) return -BPAK_FAILED;
    if (c->kind < BPAK_HASH_SHA256 || c->kind > BPAK_HASH_SHA512) return -BPAK_UNSUPPORTED_HASH_ALG;
    c->backend.user_ctx = new Sha2(c->kind);
    return BPAK_OK;
}
static int bh_update(struct bpak_hash_context *c, const uint8_t *b, size_t n) {
    if (sim_event(EV_HASH, "hash_update", "", n)) return -BPAK_FAILED;
    ((Sha2 *)c->backend.user_ctx)->update(b, n);
    return BPAK_OK;
}
static int bh_final(struct bpak_hash_context *c, uint8_t *b, size_t n, size_t *out) {
    if (sim_event(EV_HASH, "hash_final", "", n)) return -BPAK_FAILED;
    Bytes h = ((Sha2 *)c->backend.user_ctx)->final();
    if (h.size() > n) return -BPAK_SIZE_ERROR;
    memcpy(b, h.data(), h.size());
    if (out) *out = h.size();
    return BPAK_OK;
}
static void bh_free(struct bpak_hash_context *c) { delete (Sha2 *)c->backend.user_ctx; c->backend.user_ctx = nullptr; }

static bpak_key_kind kind_of(const std::string &name) {
    if (name.compare(0, 4, "p256") == 0) return BPAK_KEY_PUB_PRIME256v1;
    if (name.compare(0, 4, "p384") == 0) return BPAK_KEY_PUB_SECP384r1;
    if (name.compare(0, 4, "p521") == 0) return BPAK_KEY_PUB_SECP521r1;
    return BPAK_KEY_PUB_RSA4096;
}
static std::string key_of_der(const uint8_t *p, size_t n) {
    for (auto &k : g.keys) {
        size_t s = k.first.find(".pub.der");
        if (s != std::string::npos && k.second.size() == n && !memcmp(k.second.data(), p, n)) return k.first.substr(0, s);
    }
    return "";
}
static int bc_mkkey(const std::string &name, struct bpak_key **out) {
    auto it = g.keys.find(name + ".pub.der");
    if (it == g.keys.end()) return -BPAK_UNSUPPORTED_KEY;
    struct bpak_key *k = (struct bpak_key *)bpak_calloc(1, sizeof *k + it->second.size());
    if (!k) return -BPAK_FAILED;
    k->kind = kind_of(name);
    k->size = it->second.size();
    memcpy(k->data, it->second.data(), it->second.size());
    *out = k;
    return BPAK_OK;
}
static int bc_load_pub(const char *fn, struct bpak_key **out) {
    if (sim_event(EV_CRYPTO, "load_public", fn)) return -BPAK_FAILED;
    std::string s = fn;
    size_t e = s.find(".pub.");
    return bc_mkkey(e == std::string::npos ? s : s.substr(0, e), out);
}
static int bc_parse_pub(const uint8_t *b, size_t n, struct bpak_key **out) {
    if (sim_event(EV_CRYPTO, "parse_public", "", n)) return -BPAK_FAILED;
    return bc_mkkey(key_of_der(b, n), out);
}
static int bc_verify(const uint8_t *sig, size_t sn, const uint8_t *h, size_t hn, enum bpak_hash_kind kind, struct bpak_key *key, bool *ok) {
    if (sim_event(EV_CRYPTO, "verify", "", sn)) return -BPAK_FAILED;
    std::string name = key_of_der(key->data, key->size);
    g.active = false;           // the backend is the harness
    *ok = !name.empty() && ref_pk_verify(name, kind, Bytes(h, h + hn), sig, sn);
    g.active = true;
    return BPAK_OK;
}
static int bc_sign(const uint8_t *, size_t, enum bpak_hash_kind, struct bpak_key *, uint8_t *, size_t *) { return -BPAK_NOT_SUPPORTED; }
static int bc_load_pri(const char *, struct bpak_key **) { return -BPAK_NOT_SUPPORTED; }

// parts of the backend are missing during the current operation
void backend_absent(bool restore) {
    bool no[4] = {};
    if (!restore && g.faults)
        for (auto &x : *g.faults) if (x.kind == "absent" && x.op == g.op && !x.fired) {
            x.fired = true; g.fired_in_op++;
            no[x.cls == EV_CRYPTO ? 3 : x.nth % 3] = true;
            if (g.log) g.logtext += strf("   ^ fault: the %s backend lacks function %u\n", x.cls == EV_CRYPTO ? "crypto" : "hash", x.nth % 3);
        }
    if (!restore && !no[0] && !no[1] && !no[2] && !no[3]) return;
    bpak_hash_setup(no[0] ? nullptr : bh_init, no[1] ? nullptr : bh_update, no[2] ? nullptr : bh_final, bh_free);
    bpak_crypto_setup(no[3] ? nullptr : bc_verify, no[3] ? nullptr : bc_sign, bc_load_pub, bc_load_pri, bc_parse_pub);
}
void setup_backend(const Env &e) {
    if (e.alloc) bpak_set_calloc_free(simcustom_calloc, simcustom_free);
    if (e.hash) {
        bpak_hash_setup(bh_init, bh_update, bh_final, bh_free);
        bpak_crypto_setup(bc_verify, bc_sign, bc_load_pub, bc_load_pri, bc_parse_pub);
    }
}
void free_key(struct bpak_key *k) { if (g.env.alloc) simcustom_free(k); else sim_free(k); }

// did a persistent read failure start before anything of file f was read?
static bool blind(const std::string &f) {
    if (!g.faults) return false;
    for (auto &x : *g.faults)
        if (x.cls == EV_READ && x.fired && x.on && x.nth == 0 && x.op == g.op && (x.kind == "eio" || x.kind == "eof") && g.fired_files.count(f)) return true;
    return false;
}
static bool backend_fault(bool sig = true, bool data = true) {
    if (!g.faults) return false;
    for (auto &x : *g.faults) if ((x.cls == EV_HASH || x.cls == EV_CRYPTO) && x.fired && x.op == g.op) {
        if (x.kind == "absent" && ((x.cls == EV_CRYPTO && !sig) || (x.cls == EV_HASH && x.nth % 3 == 1 && !data))) continue;    // not needed here
        return true;
    }
    return false;
}
bool finish_common(const Op &o, OpRes &r, const std::set<std::string> &outs) {
    note_result(o, r);
    if (r.how == H_CRASH && !r.cli) handle_crash(o);
    if (bad_how(o, r)) { sim_drop_process(false); W->h.clear(); for (auto &f : outs) { W->pk.erase(f); W->wild.insert(f); } check_others(o, outs); return false; }
    if (r.how == H_RET && !r.cli) leak_check();
    check_others(o, outs);
    return true;
}
std::string esc(const std::string &s, size_t n = 160) {
    std::string o;
    for (unsigned char c : s.substr(0, n)) if (c < 32 || c > 126) o += strf("\\x%02x", c); else o += c;
    return o;
}

// keystore lookup by the reference: 1 found (name set), 0 must fail, -1 nothing can be said
static int ref_keystore(const Bytes &ks, uint32_t ksid, uint32_t keyid, std::string &name) {
    Parsed p = ref_parse(ks.data(), ks.size());
    if (!p.ok) { Parsed h = ref_parse(ks.data(), ks.size(), true); return ks.size() < HDR ? 0 : h.ok ? -1 : -1; }
    Meta *m = p.st.meta(ID_PROVIDER, 0);
    if (!m || m->data.size() < 4) return 0;
    if (rd32(m->data.data()) != ksid) return 0;
    if (m->data.size() != 4) return -1;
    if (!keyid) return -1;
    Part *q = p.st.part(keyid);
    if (!q) return 0;
    if (q->size > q->stored->size() || (q->flags & F_TRANSPORT)) return -1;
    name = key_of_der(q->stored->data(), q->size);
    return name.empty() ? -1 : 1;
}

// ------------------------------------------------------------------ verify
static void op_verify(const Op &o) {
    std::string f = o.s("f"), key = o.s("key"), ks = o.s("ks");
    Bytes b = sim_file(f) ? *sim_file(f) : Bytes();
    bool exists = sim_exists(f);
    OpRes r;
    leak_begin();
    if (o.s("via") == "cli") {
        std::vector<std::string> a = { "verify", f };
        if (!ks.empty()) { a.push_back("-K"); a.push_back(ks); } else { a.push_back("-k"); a.push_back(o.s("keyfile", key + ".pub.pem")); }
        run_cli(a, Bytes(), r);
    } else if (o.s("via") == "py" && ks.empty()) {
        run_lib([&] { return py_verify(f, o.s("mode", "rb"), o.s("keyfile", key + ".pub.pem")); }, r);
    } else {
        bpak_package *p = new_pkg();
        run_lib([&] {
            int rc = bpak_pkg_open(p, f.c_str(), o.s("mode", "rb").c_str());
            if (rc) return rc;
            struct bpak_key *k = nullptr;
            if (!ks.empty()) rc = bpak_keystore_load_key_from_file(ks.c_str(), p->header.keystore_id, p->header.key_id, nullptr, nullptr, &k);
            else rc = bpak_crypto_load_public_key(o.s("keyfile", key + ".pub.pem").c_str(), &k);
            if (!rc) { rc = bpak_pkg_verify(p, k); free_key(k); }
            int rc2 = bpak_pkg_close(p);
            return rc ? rc : rc2;
        }, r);
        free(p);
    }
    if (!finish_common(o, r, {})) return;
    if (r.how != H_RET) return;
    bool known = W->pk.count(f);
    std::string why, kn = key;
    int kr = 1;
    if (!ks.empty()) {
        const Bytes *kb = sim_file(ks);
        Parsed h = b.size() >= HDR ? ref_parse(b.data(), b.size(), true) : Parsed();
        kr = kb && h.ok ? ref_keystore(*kb, h.st.ks_id, h.st.key_id, kn) : 0;
        if (kr == 0) why = "keystore has no such key";
    } else if (key == "wild") kr = -1;
    else if (o.i("badkey") || !sim_key_file(key + ".pub.der")) { kr = 0; why = "unusable key"; }
    bool ok = kr == 1 && exists && ref_verify(b, kn, &why);
    if (r.ok && o.s("via") == "cli" && !g.stdout_fault && r.out.find("Verification OK") == std::string::npos) viol("show", "verify exits 0 without reporting it");
    if (r.ok && kr >= 0 && !ok) viol("verify-accept", strf("verification of %s succeeded, although: %s", f.c_str(), why.c_str()));
    if (r.ok && backend_fault()) viol("verify-accept", strf("verification succeeded although a hash or signature operation failed"));
    if (r.ok && blind(f)) viol("verify-accept", "verification succeeded although the package could not be read");
    if (!r.ok && ok && known && (ks.empty() || W->pk.count(ks)) && !excused()) viol("verify-reject", strf("verification of an intact signed package failed (%d): %s", r.rc, r.err.substr(0, 160).c_str()));
}

// ------------------------------------------------------------------ extract
static void op_extract(const Op &o) {
    std::string f = o.s("f"), out = o.s("o");
    uint32_t id = name_id(o.s("part"));
    Bytes b = sim_file(f) ? *sim_file(f) : Bytes();
    OpRes r;
    leak_begin();
    if (o.s("via") == "cli") {
        std::vector<std::string> a = { "extract", f, "-p", o.s("part") };
        if (!out.empty()) { a.push_back("-o"); a.push_back(out); }
        run_cli(a, Bytes(), r);
    } else {
        bpak_package *p = new_pkg();
        run_lib([&] {
            int rc = bpak_pkg_open(p, f.c_str(), "rb");
            if (rc) return rc;
            rc = bpak_pkg_extract_file(p, id, out.empty() ? nullptr : out.c_str());
            if (!rc && out.empty() && fflush(stdout)) rc = -1;
            int rc2 = bpak_pkg_close(p);
            return rc ? rc : rc2;
        }, r);
        free(p);
    }
    std::set<std::string> outs;
    bool self = !out.empty() && out == f && sim_exists(f) && !b.empty();
    if (!out.empty() && !self) { outs.insert(out); W->pk.erase(out); W->wild.insert(out); }
    if (!finish_common(o, r, outs)) return;
    if (r.how != H_RET) return;
    if (self) { if (r.ok) viol("accept-refused", "output over the package itself was reported as success"); return; }
    Parsed p = b.size() >= HDR ? ref_parse(b.data(), b.size()) : Parsed();
    if (!p.ok) {
        if (r.ok && (W->junk.count(f) || b.size() < HDR)) viol("accept-refused", "extraction from a file that is not a package succeeded");
        return;
    }
    Part *q = id ? p.st.part(id) : nullptr;
    if (!q) { if (r.ok && id) viol("accept-refused", "extraction of a part that does not exist succeeded"); return; }
    if (r.ok) {
        if (!p.bad.empty() || !q->stored) return;
        Bytes got;
        if (out.empty()) got.assign(r.out.begin(), r.out.end());
        else if (sim_file(out)) got = *sim_file(out);
        Bytes want(q->stored->begin(), q->stored->begin() + ((q->flags & F_TRANSPORT) ? q->tsize : q->size));
        if (got != want && !(out.empty() && g.stdout_fault && o.s("via") == "cli"))
            viol(excused() ? "lost-effect" : "extract-data", strf("extracted %zu bytes of part %s differ from the stored %zu bytes", got.size(), o.s("part").c_str(), want.size()));
    } else if (W->pk.count(f) && !excused()) viol("spurious-failure", strf("extracting an existing part failed (%d)", r.rc));
}
static void op_extractmeta(const Op &o) {
    std::string f = o.s("f"), out = o.s("o");
    uint32_t id = name_id(o.s("id")), ref = o.has("ref") ? name_id(o.s("ref")) : 0;
    Bytes b = sim_file(f) ? *sim_file(f) : Bytes();
    OpRes r;
    std::vector<std::string> a = { "extract", f, "-m", o.s("id") };
    if (o.has("ref")) { a.push_back("-r"); a.push_back(o.s("ref")); }
    if (!out.empty()) { a.push_back("-o"); a.push_back(out); }
    run_cli(a, Bytes(), r);
    std::set<std::string> outs;
    bool self = !out.empty() && out == f && sim_exists(f) && !b.empty();
    if (!out.empty() && !self) { outs.insert(out); W->pk.erase(out); W->wild.insert(out); }
    if (!finish_common(o, r, outs)) return;
    if (r.how != H_RET) return;
    if (self) { if (r.ok) viol("accept-refused", "output over the package itself was reported as success"); return; }
    Parsed p = b.size() >= HDR ? ref_parse(b.data(), b.size(), true) : Parsed();
    if (!p.ok) { if (r.ok && (W->junk.count(f) || b.size() < HDR)) viol("accept-refused", "extraction from a file that is not a package succeeded"); return; }
    Meta *m = id ? p.st.meta(id, ref) : nullptr;
    if (!m) { if (r.ok && id) viol("accept-refused", "extraction of metadata that does not exist succeeded"); return; }
    if (r.ok) {
        Bytes got;
        if (out.empty()) got.assign(r.out.begin(), r.out.end());
        else if (sim_file(out)) got = *sim_file(out);
        if (W->pk.count(f) && got != m->data && !(out.empty() && g.stdout_fault)) viol(excused() ? "lost-effect" : "extract-data", "extracted metadata differs from the stored value");
    } else if (W->pk.count(f) && !excused()) viol("spurious-failure", strf("extracting existing metadata failed (%d)", r.rc));
}

// ------------------------------------------------------------------ show
static std::string uuid_str(const Bytes &d) {
    std::string s;
    for (int i = 0; i < 16; i++) { if (i == 4 || i == 6 || i == 8 || i == 10) s += "-"; s += strf("%02x", d[i]); }
    return s;
}
// expected text of a metadata value; false if the value has no defined text
bool meta_text(const Meta &m, std::string &t) {
    const Bytes &d = m.data;
    t.clear();
    switch (m.id) {
    case ID_KEYID: case ID_KEYSTORE: if (d.size() != 4) return false; t = strf("%x", rd32(d.data())); return true;
    case ID_PACKAGE: if (d.size() != 16) return false; t = uuid_str(d); return true;
    case ID_TRANSPORT: if (d.size() < 32) return false; t = strf("Encode: %8.8x, Decode: %8.8x", rd32(d.data()), rd32(d.data() + 4)); return true;
    case ID_SALT: case ID_ROOT: if (d.size() != 32) return false; t = hex(d.data(), 32); return true;
    case ID_LOADADDR: if (d.size() != 8) return false; t = strf("Entry: 0x%08llX", (unsigned long long)rd64(d.data())); return true;
    case ID_VERSION: if (d.empty() || d.size() > 63 || d.back() != 0) return false; t = (const char *)d.data(); return true;
    case ID_PROVIDER: if (d.size() != 4) return false; t = strf("0x%x", rd32(d.data())); return true;
    }
    return true;
}
static const char *known_name(uint32_t id) {
    for (const char *n : { "bpak-package", "bpak-transport", "merkle-salt", "merkle-root-hash", "pb-load-addr", "bpak-version", "keystore-provider-id" })
        if (ref_id(n) == id) return n;
    return "";
}
static std::string part_line(const Part &q) {
    return strf("    %8.8x   %-12llu %-3u    %c%c------       %-12llu\n", q.id, (unsigned long long)q.size, q.pad, (q.flags & F_NOHASH) ? 'h' : '-', (q.flags & F_TRANSPORT) ? 'T' : '-', (unsigned long long)((q.flags & F_TRANSPORT) ? q.tsize : q.size));
}
static void op_show(const Op &o) {
    std::string f = o.s("f"), what = o.s("what", "all");
    Bytes b = sim_file(f) ? *sim_file(f) : Bytes();
    OpRes r;
    std::vector<std::string> a = { "show", f };
    if (what == "meta") { a.push_back("-m"); a.push_back(o.s("id")); if (o.has("ref")) { a.push_back("-p"); a.push_back(o.s("ref")); } }
    if (what == "part") { a.push_back("--part"); a.push_back(o.s("part")); }
    if (what == "parthash") { a.push_back("-P"); a.push_back(o.s("part")); }
    if (what == "hash") a.push_back("-H");
    if (what == "bhash") a.push_back("--binary-hash");
    run_cli(a, Bytes(), r);
    if (!finish_common(o, r, {})) return;
    if (r.how != H_RET) return;
    bool known = W->pk.count(f);
    Parsed p = b.size() >= HDR ? ref_parse(b.data(), b.size()) : Parsed();
    if (!known) {
        if (r.ok && (W->junk.count(f) || b.size() < HDR)) viol("accept-refused", "show of a file that is not a package succeeded");
        if (r.ok && p.ok && p.bad.empty() && !g.stdout_fault && what == "all")
            for (auto &q : p.st.parts) if (r.out.find(part_line(q)) == std::string::npos) viol("show", strf("bpak show does not print '%s'", esc(part_line(q)).c_str()));
        // whatever hash is shown must be the hash of the bytes that are there
        if (!(r.ok && p.ok && p.bad.empty() && !g.stdout_fault && !o.i("verb"))) return;
        if (what == "parthash") {
            Part *q = p.st.part(name_id(o.s("part")));
            if (!q || (q->flags & F_TRANSPORT)) return;
            if (r.out != hex(sha2(1, q->stored->data(), q->size).data(), 32) + "\n") viol("show", "show printed a wrong part hash: " + esc(r.out));
        }
        return;
    }
    if (!p.ok) return;
    PState &st = p.st;
    bool must = true, hstale = false;          // a kind of hash that was only set: nothing recorded yet
    for (auto &c : W->pk[f].cands) hstale |= c.hash_stale;
    std::string want; bool exact = false;
    if (what == "meta") {
        uint32_t id = name_id(o.s("id"));
        const Meta *m = nullptr;
        for (auto &x : st.metas) if (x.id == id && (!o.has("ref") || x.ref == name_id(o.s("ref")))) { m = &x; break; }
        if (!m) must = false;
        else { exact = meta_text(*m, want); if (!want.empty()) want += "\n"; }
    } else if (what == "part") {
        Part *q = st.part(name_id(o.s("part")));
        if (!q) must = false;
        else { want = strf("Found 0x%x, %llu bytes\n", q->id, (unsigned long long)q->size); exact = true; }
    } else if (what == "parthash") {
        Part *q = st.part(name_id(o.s("part")));
        if (!q) must = false;
        else { want = hex(sha2(1, q->stored->data(), q->size).data(), 32) + "\n"; exact = true; }
    } else if (what == "hash" || what == "bhash") {
        Bytes h = ref_header_hash(b.data());
        want = what == "hash" ? hex(h.data(), h.size()) + "\n" : std::string(h.begin(), h.end());
        exact = !hstale;
    }
    if (!must) { if (r.ok) viol("cli-status", strf("bpak %s succeeded although there is no such item", join(a).c_str())); return; }
    if (!r.ok) { if (!excused()) viol("spurious-failure", strf("bpak %s failed (%d): %s", join(a).c_str(), r.rc, r.err.substr(0, 120).c_str())); return; }
    if (g.stdout_fault) return;
    if (o.i("verb") && exact) {              // the wanted lines end a longer output
        if (r.out.size() > want.size()) r.out.erase(0, r.out.size() - want.size());
    }
    if (exact && r.out != want) viol("show", strf("bpak %s printed '%s', expected '%s'", join(a).c_str(), esc(r.out).c_str(), esc(want).c_str()));
    if (what == "all") {
        auto need = [&](const std::string &s) { if (r.out.find(s) == std::string::npos) viol("show", strf("bpak show does not print '%s'", esc(s).c_str())); };
        static const char *hk[] = { "", "sha256", "sha384", "sha512" };
        static const char *sk[] = { "", "rsa4096", "prime256v1", "secp384r1", "secp521r1" };
        need(std::string("Hash:        ") + hk[st.hk] + "\n");
        if (st.sk >= 1 && st.sk <= 4) need(std::string("Signature:   ") + sk[st.sk] + "\n");
        need(strf("Key ID:      %08x\n", st.key_id));
        need(strf("Keystore ID: %08x\n", st.ks_id));
        size_t np = 0, nm = 0;
        for (auto &m : st.metas) {
            need(strf("    %8.8x   %-3u    %-20s %s   ", m.id, (unsigned)m.data.size(), known_name(m.id), m.ref ? strf("%8.8x", m.ref).c_str() : "        ")); nm++;
            std::string t;
            if (meta_text(m, t) && !t.empty()) need((m.ref ? strf("%8.8x   ", m.ref) : std::string("           ")) + t + "\n");
        }
        np = st.parts.size(); for (auto &q : st.parts) need(part_line(q));
        if (o.i("verb")) {
            uint64_t ms = 0, ts = HDR, is = 0;
            for (auto &m : st.metas) ms += m.data.size();
            for (auto &q : st.parts) { ts += (q.flags & F_TRANSPORT) ? q.tsize : q.size; is += q.size + q.pad; }
            need(strf("Metadata usage: %llu/1920 bytes\n", (unsigned long long)ms));
            need(strf("Transport size: %llu bytes\n", (unsigned long long)ts));
            need(strf("Installed size: %llu bytes\n", (unsigned long long)is));
        }
        Bytes h = ref_header_hash(b.data()), ph = ref_payload_hash(st);
        if (hstale) return;
        need("Header hash:  " + hex(h.data(), h.size()) + "\n");
        need("Payload hash: " + hex(ph.data(), ph.size()) + "\n");
        if (r.out.find("Warning") != std::string::npos) viol("show", "show warns about the payload hash of an intact package");
    }
}
static void op_parthash(const Op &o) {
    std::string f = o.s("f");
    uint32_t id = name_id(o.s("part"));
    Bytes b = sim_file(f) ? *sim_file(f) : Bytes();
    OpRes r;
    uint8_t *buf = (uint8_t *)malloc(32);
    memset(buf, g.env.fill, 32);
    uint64_t tsize = 0, isize = 0;
    leak_begin();
    bpak_package *p = new_pkg();
    run_lib([&] {
        int rc = bpak_pkg_open(p, f.c_str(), "rb");
        if (rc) return rc;
        tsize = bpak_pkg_size(p); isize = bpak_pkg_installed_size(p);
        rc = bpak_pkg_part_sha256(p, buf, 32, id);
        int rc2 = bpak_pkg_close(p);
        return rc ? rc : rc2;
    }, r);
    free(p);
    Bytes got(buf, buf + 32);
    free(buf);
    if (!finish_common(o, r, {})) return;
    if (r.how != H_RET) return;
    Parsed q = b.size() >= HDR ? ref_parse(b.data(), b.size()) : Parsed();
    if (!q.ok) { if (r.ok && (W->junk.count(f) || b.size() < HDR)) viol("accept-refused", "hashing a part of a non-package succeeded"); return; }
    if (isize && q.bad.empty()) {
        uint64_t t = HDR, i = 0;
        for (auto &x : q.st.parts) { t += (x.flags & F_TRANSPORT) ? x.tsize : x.size; i += x.size + x.pad; }
        if (t != tsize || i != isize) viol("parthash", strf("sizes %llu and %llu are reported, expected %llu and %llu", (unsigned long long)tsize, (unsigned long long)isize, (unsigned long long)t, (unsigned long long)i));
    }
    Part *pt = id ? q.st.part(id) : nullptr;
    if (!pt) { if (r.ok && id) viol("accept-refused", "hashing a part that does not exist succeeded"); return; }
    if (r.ok) {
        if (backend_fault(false, pt->size > 0) || blind(f)) viol("parthash", "part hash reported although hashing or reading failed");
        if (q.bad.empty() && !(pt->flags & F_TRANSPORT) && got != sha2(1, pt->stored->data(), pt->size)) viol("parthash", "reported part hash is not the SHA-256 of the stored part");
    } else if (W->pk.count(f) && !excused()) viol("spurious-failure", strf("hashing an existing part failed (%d)", r.rc));
}

// ------------------------------------------------------------------ compare
static void op_compare(const Op &o) {
    std::string fa = o.s("a"), fb = o.s("b");
    OpRes r;
    run_cli({ "compare", fa, fb }, Bytes(), r);
    if (!finish_common(o, r, {})) return;
    if (r.how != H_RET) return;
    Bytes a = sim_file(fa) ? *sim_file(fa) : Bytes(), b = sim_file(fb) ? *sim_file(fb) : Bytes();
    bool shorta = a.size() < HDR, shortb = b.size() < HDR;
    if (shorta || shortb || W->junk.count(fa) || W->junk.count(fb)) { if (r.ok) viol("accept-refused", "comparison with a file that is not a package succeeded"); return; }
    Parsed pa = ref_parse(a.data(), a.size()), pb = ref_parse(b.data(), b.size());
    if (!pa.ok || !pb.ok || !pa.bad.empty() || !pb.bad.empty()) {
        return;
    }
    if (!r.ok) { if (!excused() && W->pk.count(fa) && W->pk.count(fb)) viol("compare", strf("comparing two intact packages failed (%d): %s", r.rc, r.err.substr(0, 100).c_str())); return; }
    if (g.stdout_fault) return;
    // marks per line
    std::vector<std::string> got, want, alt;
    std::string sec, s = r.out;
    size_t at = 0;
    while (at < s.size()) {
        size_t e = s.find('\n', at); if (e == std::string::npos) e = s.size();
        std::string l = s.substr(at, e - at); at = e + 1;
        std::string c;
        for (size_t i = 0; i < l.size(); i++) if (l[i] == 27) { while (i < l.size() && l[i] != 'm') i++; } else c += l[i];
        if (c == "Metadata:") sec = "m"; else if (c == "Parts:") sec = "p";
        else if (!sec.empty() && c.size() > 12 && strchr("=+-*", c[0]) && c.compare(1, 3, "   ") == 0) {
            uint32_t id = strtoul(c.substr(4, 8).c_str(), nullptr, 16);
            got.push_back(sec + c[0] + strf("%08x", id));
        }
    }
    std::multiset<std::string> G(got.begin(), got.end()), E;
    std::set<std::string> either;
    for (auto &m : pa.st.metas) { Meta *x = pb.st.meta(m.id, m.ref); E.insert(strf("m%c%08x", !x ? '-' : x->data == m.data ? '=' : '*', m.id)); }
    for (auto &m : pb.st.metas) if (!pa.st.meta(m.id, m.ref)) E.insert(strf("m+%08x", m.id));
    for (auto &q : pa.st.parts) {
        Part *x = pb.st.part(q.id);
        char k = '-';
        if (x) {
            auto spare = [&](const Bytes &f) { for (int i = 0; i < 32; i++) if (rd32(&f[OFF_PARTS + 32 * i]) == q.id) return (int)f[OFF_PARTS + 32 * i + 31]; return -1; };
            if (spare(a) != spare(b)) return;     // a reserved byte differs: undecided
            bool same = x->size == q.size && x->flags == q.flags && *x->stored == *q.stored;
            k = same ? '=' : '*';
            if (same && x->offset != q.offset) { // stored elsewhere: equal contents, another header entry
                std::string alt1 = strf("p*%08x", q.id);
                if (G.count(alt1)) k = '*';
            }
        }
        E.insert(strf("p%c%08x", k, q.id));
    }
    for (auto &q : pb.st.parts) if (!pa.st.part(q.id)) E.insert(strf("p+%08x", q.id));
    if (G != E) {
        std::string d;
        for (auto &x : E) if (G.count(x) != E.count(x)) d += " expected " + x + strf(" x%zu got x%zu", E.count(x), G.count(x));
        for (auto &x : G) if (!E.count(x)) d += " unexpected " + x;
        viol("compare", "comparison reports" + d);
    }
}

// ------------------------------------------------------------------ keystore
static int chk_accept(struct bpak_header *, void *u) { (*(int *)u)++; return 0; }
static int chk_code;
static int chk_reject(struct bpak_header *, void *u) { (*(int *)u)++; return chk_code; }
static void op_ksload(const Op &o) {
    std::string ks = o.s("ks"), chk = o.s("chk");
    uint32_t ksid = name_id(o.s("ksid")), keyid = name_id(o.s("key"));
    Bytes b = sim_file(ks) ? *sim_file(ks) : Bytes();
    OpRes r;
    struct bpak_key *k = nullptr;
    int called = 0;
    chk_code = o.i("code", -77);
    leak_begin();
    run_lib([&] { return bpak_keystore_load_key_from_file(ks.c_str(), ksid, keyid, chk == "accept" ? chk_accept : chk == "reject" ? chk_reject : nullptr, &called, &k); }, r);
    int kind = 0; uint32_t id = 0; Bytes data;
    if (r.how == H_RET && r.ok && k) { kind = k->kind; id = k->id; data.assign(k->data, k->data + k->size); }
    bool had = k != nullptr;
    if (r.how == H_RET && r.ok && k) free_key(k);
    else if (r.how == H_RET && !r.ok && k && (g.live.count(k) || g.custom_live.count(k))) free_key(k);
    if (!finish_common(o, r, {})) return;
    if (r.how != H_RET) return;
    if (r.ok && !had) { viol("keystore", "success without a key"); return; }
    if (!r.ok && had) viol("keystore", "an error was reported together with a key");
    std::string name;
    int kr = sim_exists(ks) ? ref_keystore(b, ksid, keyid, name) : 0;
    if (r.ok && chk == "reject") viol("keystore", "key loaded although the header check refused the keystore");
    if (r.ok && !chk.empty() && !called) viol("keystore", "the header check was not asked");
    if (r.ok && kr == 0) viol("keystore", "a key was loaded although the keystore does not provide it");
    if (r.ok && (W->junk.count(ks) || b.size() < HDR)) viol("keystore", "a key was loaded from a file that is not a package");
    if (r.ok && kr == 1) {
        if (id != keyid || data != g.keys[name + ".pub.der"] || kind != kind_of(name)) viol("keystore", strf("loaded key is not the stored key %s (%zu bytes, id %08x)", name.c_str(), data.size(), id));
        if (blind(ks)) viol("keystore", "a key was loaded although the keystore could not be read");
    }
    if (!r.ok && kr == 1 && chk != "reject" && W->pk.count(ks) && !excused()) viol("keystore", strf("the key %s stored in the keystore could not be loaded (%d)", name.c_str(), r.rc));
}
static void op_ksget(const Op &o) {       // in-memory keystore
    int n = o.i("n");
    Rng q(o.i("seed"));
    struct bpak_keystore *ks = (struct bpak_keystore *)malloc(sizeof *ks + n * sizeof(struct bpak_key *));
    memset(ks, 0, sizeof *ks);
    ks->no_of_keys = n; ks->verified = !o.i("unverified");
    std::vector<uint32_t> ids;
    for (int i = 0; i < n; i++) {
        ks->keys[i] = (struct bpak_key *)calloc(1, sizeof(struct bpak_key));
        ks->keys[i]->id = 1000 + q.below(n * 2 + 1) * 7; ids.push_back(ks->keys[i]->id);
    }
    uint32_t want = 1000 + q.below(n * 2 + 1) * 7;
    struct bpak_key *k = nullptr;
    OpRes r;
    run_lib([&] { return bpak_keystore_get(ks, want, &k); }, r);
    note_result(o, r);
    if (!bad_how(o, r)) {
        bool has = std::find(ids.begin(), ids.end(), want) != ids.end();
        if (r.ok && (!k || k->id != want)) viol("keystore", "in-memory lookup returned another key");
        if (r.ok && !has) viol("keystore", "in-memory lookup of a missing key succeeded");
        if (!r.ok && has && ks->verified) viol("keystore", "in-memory lookup of a present key failed");
    }
    for (int i = 0; i < n; i++) free(ks->keys[i]);
    free(ks);
}
static void op_generate(const Op &o) {
    std::string f = o.s("f");
    Bytes b = sim_file(f) ? *sim_file(f) : Bytes();
    OpRes r;
    if (o.s("what") == "id") {
        run_cli({ "generate", "id", o.s("name") }, Bytes(), r);
        if (!finish_common(o, r, {}) || r.how != H_RET) return;
        std::string want = strf("id(\"%s\") = 0x%8.8x\n", o.s("name").c_str(), ref_id(o.s("name")));
        if (!r.ok && !excused()) viol("spurious-failure", "generate id failed");
        if (r.ok && !g.stdout_fault && r.out != want) viol("show", "generate id printed " + esc(r.out));
        return;
    }
    std::vector<std::string> a = { "generate", "keystore", f, "--name", o.s("name", "ks-one") };
    if (o.i("decorate")) a.push_back("--decorate");
    run_cli(a, Bytes(), r);
    if (!finish_common(o, r, {}) || r.how != H_RET) return;
    Parsed p = b.size() >= HDR ? ref_parse(b.data(), b.size()) : Parsed();
    if (!p.ok) { if (r.ok && (W->junk.count(f) || b.size() < HDR)) viol("accept-refused", "generate keystore from a non-package succeeded"); return; }
    Meta *prov = p.st.meta(ID_PROVIDER, 0), *pkg = p.st.meta(ID_PACKAGE, 0);
    if (!prov || !pkg) { if (r.ok) viol("cli-status", "generate keystore succeeded without the needed metadata"); return; }
    bool allkeys = true;
    for (auto &q : p.st.parts) { if (!p.bad.empty() || (q.flags & F_TRANSPORT) || key_of_der(q.stored->data(), q.size).empty()) allkeys = false; }
    if (!allkeys || prov->data.size() != 4) return;
    if (!r.ok) { if (W->pk.count(f) && !excused()) viol("spurious-failure", strf("generate keystore failed (%d)", r.rc)); return; }
    if (g.stdout_fault) return;
    auto need = [&](const std::string &s) { if (r.out.find(s) == std::string::npos) viol("keystore", "generated keystore lacks '" + esc(s, 60) + "'"); };
    need(strf("    .id = 0x%x,\n    .no_of_keys = %zu,\n", rd32(prov->data.data()), p.st.parts.size()));
    for (auto &q : p.st.parts) {
        static const char *const kn[] = { "RSA4096", "PRIME256v1", "SECP384r1", "SECP521r1" };
        bpak_key_kind kd = kind_of(key_of_der(q.stored->data(), q.size));
        std::string d = strf("    .id = 0x%x,\n    .size = %llu,\n    .kind = BPAK_KEY_PUB_%s,\n    .data =\n    {\n            ", q.id, (unsigned long long)q.size,
                             kn[kd == BPAK_KEY_PUB_RSA4096 ? 0 : kd == BPAK_KEY_PUB_PRIME256v1 ? 1 : kd == BPAK_KEY_PUB_SECP384r1 ? 2 : 3]);
        for (size_t i = 0; i < q.size; i++) { d += strf("0x%2.2x, ", (*q.stored)[i]); if ((i + 1) % 8 == 0) d += "\n            "; }
        need(d + "\n    },\n};\n");
    }
    std::string cn = o.s("name", "ks-one"), list;
    for (char &c : cn) if (c == '-') c = '_';
    for (size_t i = 0; i < p.st.parts.size(); i++) {
        need(strf("const struct bpak_key keystore_%s_key%zu ", cn.c_str(), i) + (o.i("decorate") ? "__attribute__((section (\".keystore_key\"))) =\n" : "=\n"));
        list += strf("        (struct bpak_key *) &keystore_%s_key%zu,\n", cn.c_str(), i);
    }
    need("const struct bpak_keystore keystore_" + cn + (o.i("decorate") ? " __attribute__((section (\".keystore_header\"))) =\n" : " =\n"));
    need("    .verified = true,\n    .keys =\n    {\n" + list + "    },\n};\n");
    // the objects appear in the order of the parts
    size_t at = 0;
    for (auto &q : p.st.parts) { size_t x = r.out.find(strf("    .id = 0x%x,\n    .size", q.id), at); if (x == std::string::npos) { viol("keystore", "generated keys are not in the order of the parts"); break; } at = x + 1; }
}

bool exec_read(const Op &o) {
    const std::string &k = o.kind;
    if (k == "verify") op_verify(o);
    else if (k == "extract") op_extract(o);
    else if (k == "extractmeta") op_extractmeta(o);
    else if (k == "show") op_show(o);
    else if (k == "parthash") op_parthash(o);
    else if (k == "compare") op_compare(o);
    else if (k == "ksload") op_ksload(o);
    else if (k == "ksget") op_ksget(o);
    else if (k == "generate") op_generate(o);
    else return false;
    return true;
}

// ------------------------------------------------------------------ transport
static bool is_bsdiff(uint32_t a) { return a == ALG_BSDIFF || a == ALG_BSDIFF_LZMA || a == ALG_BSDIFF_NC; }
static bool is_bspatch(uint32_t a) { return a == ALG_BSPATCH || a == ALG_BSPATCH_LZMA || a == ALG_BSPATCH_NC; }
static int ident(const Bytes *x, Bytes &id) {      // 1 identity present, 0 missing, -1 unclear
    if (!x || x->size() < HDR) return -1;
    Parsed p = ref_parse(x->data(), x->size(), true);
    if (!p.ok) return -1;
    Meta *m = p.st.meta(ID_PACKAGE, 0);
    if (!m) return 0;
    if (m->data.size() != 16) return -1;
    id = m->data;
    return 1;
}
// 0: identities differ or are missing, 1: equal, -1: nothing can be said
static int same_identity(const Bytes *a, const Bytes *b) {
    Bytes x, y;
    int i = ident(a, x), j = ident(b, y);
    if (i == 0 || j == 0) return 0;
    if (i < 0 || j < 0) return -1;
    return x == y;
}
static uint64_t dig(const Bytes &b) { return fnv(b.data(), b.size(), b.size() + 99); }

static bool decoder_pair(uint32_t e, uint32_t d) {
    return (e == ALG_BSDIFF && d == ALG_BSPATCH) || (e == ALG_BSDIFF_LZMA && d == ALG_BSPATCH_LZMA) || (e == ALG_BSDIFF_NC && d == ALG_BSPATCH_NC) || (e == ALG_REMOVE && d == ALG_MERKLE_GEN);
}
// can this target be restored after transport? (the pairs must belong together, removed data must be a tree)
static bool restorable(PState &t) {
    for (size_t i = 0; i < t.parts.size(); i++) {
        Meta *m = t.meta(ID_TRANSPORT, t.parts[i].id);
        if (!m) continue;
        if (m->data.size() != 32) return false;
        uint32_t e = rd32(m->data.data()), d = rd32(m->data.data() + 4);
        if (!decoder_pair(e, d)) return false;
        if (e == ALG_REMOVE) {
            bool ok = false;
            for (size_t j = 0; j < i; j++) if (ref_tree_id(t.parts[j].id) == t.parts[i].id) {
                Meta *s = t.meta(ID_SALT, t.parts[j].id);
                Bytes tree, root;
                if (s && s->data.size() == 32 && ref_merkle(t.parts[j].stored->data(), t.parts[j].stored->size(), s->data.data(), tree, root) && tree == *t.parts[i].stored) ok = true;
            }
            if (!ok) return false;
        }
    }
    return true;
}
// must this package survive transport against that origin?
bool transport_sure(const Bytes &t, const Bytes &o) {
    Parsed p = ref_parse(t.data(), t.size()), q = ref_parse(o.data(), o.size(), true);
    if (!p.ok || !p.bad.empty() || p.end != p.file_len || !q.ok || same_identity(&t, &o) != 1 || !restorable(p.st)) return false;
    for (auto &x : p.st.parts) if ((x.flags & F_TRANSPORT) || (p.st.meta(ID_TRANSPORT, x.id) && !q.st.part(x.id))) return false;
    return true;
}
int run_transport(const Op &o, OpRes &r, bool enc) {
    std::string f = o.s("f"), org = o.s("origin"), out = o.s("o");
    if (o.s("via") == "cli") {
        std::vector<std::string> a = { "transport", f, enc ? "-E" : "--decode" };
        if (!org.empty()) { a.push_back("-O"); a.push_back(org); }
        a.push_back("-o"); a.push_back(out);
        run_cli(a, Bytes(), r);
        return 0;
    }
    // again: the same input and origin handles serve several attempts; rewrite: the output handle is used for an edit afterwards
    int times = 1 + o.i("again");
    bool rewrite = o.i("rewrite");
    if (o.s("via") == "py") { run_lib([&] { return py_transport(enc, f, out, org, times, rewrite); }, r); return 0; }
    bpak_package *pi = new_pkg(), *po = new_pkg(), *pg = new_pkg();
    run_lib([&] {
        int rc, rc2, rc3 = 0;
        rc = bpak_pkg_open(pi, f.c_str(), "rb");
        if (rc) return rc;
        if (!org.empty()) {
            rc = bpak_pkg_open(pg, org.c_str(), "rb");
            if (rc) { bpak_pkg_close(pi); return rc; }
        }
        for (int t = 0; t < times; t++) {
            rc = bpak_pkg_open(po, out.c_str(), "wb+");
            rc3 = 0;
            if (rc) continue;
            rc = enc ? bpak_pkg_transport_encode(pi, po, org.empty() ? nullptr : pg) : bpak_pkg_transport_decode(pi, po, org.empty() ? nullptr : pg);
            if (!rc && rewrite) rc = bpak_pkg_write_header(po);
            rc3 = bpak_pkg_close(po);
        }
        if (!org.empty()) bpak_pkg_close(pg);
        rc2 = bpak_pkg_close(pi);
        return rc ? rc : rc3 ? rc3 : rc2;
    }, r);
    free(pi); free(po); free(pg);
    return 0;
}
void exec_transport(const Op &o) {
    bool enc = o.kind == "encode";
    std::string f = o.s("f"), org = o.s("origin"), out = o.s("o");
    Bytes in = sim_file(f) ? *sim_file(f) : Bytes();
    Bytes ob = !org.empty() && sim_file(org) ? *sim_file(org) : Bytes();
    OpRes r;
    leak_begin();
    run_transport(o, r, enc);
    if (o.s("via") == "cli" && (out == f || out == org) && sim_exists(f)) { // no output over what is read
        if (finish_common(o, r, {}) && r.how == H_RET && r.ok) viol("accept-refused", "output over the input or origin was reported as success");
        return;
    }
    W->pk.erase(out); W->junk.erase(out);
    W->wild.insert(out);
    bool fine = finish_common(o, r, { out });
    Bytes res = sim_file(out) ? *sim_file(out) : Bytes();
    int idt = org.empty() ? 1 : same_identity(&in, &ob);
    if (r.how == H_RET && r.ok && idt == 0) viol("identity", strf("%s accepted an origin of another identity", o.kind.c_str()));
    Parsed p = in.size() >= HDR ? ref_parse(in.data(), in.size()) : Parsed();
    if (enc) {
        if (!fine || r.how != H_RET) return;
        if (!p.ok) { if (r.ok && (W->junk.count(f) || in.size() < HDR)) viol("accept-refused", "encoding a non-package succeeded"); return; }
        bool need = false, unknown = false;
        for (auto &q : p.st.parts) {
            Meta *m = p.st.meta(ID_TRANSPORT, q.id);
            if (!m || m->data.size() != 32 || (q.flags & F_TRANSPORT)) continue;
            uint32_t e = rd32(m->data.data());
            if (is_bsdiff(e)) need = true; else if (e != ALG_REMOVE) unknown = true;
        }
        if (r.ok && need && org.empty()) viol("identity", "a part that needs an origin was encoded without one");
        if (r.ok && unknown) viol("accept-refused", "a part with an unknown encoder was encoded");
        bool known = W->pk.count(f) && (org.empty() || W->pk.count(org));
        if (!known || !p.bad.empty()) return;
        bool orgparts = true;
        if (!org.empty()) {
            Parsed po = ref_parse(ob.data(), ob.size());
            for (auto &q : p.st.parts) if (p.st.meta(ID_TRANSPORT, q.id) && !po.st.part(q.id)) orgparts = false;
        }
        bool must = !unknown && idt == 1 && (!need || !org.empty()) && orgparts;
        if (!r.ok && must && !excused()) viol("spurious-failure", strf("encoding failed (%d): %s", r.rc, r.err.substr(0, 160).c_str()));
        if (r.ok && restorable(p.st)) {
            EncRec e; e.target = in; e.origin = ob; e.had_origin = !org.empty();
            // the recorded target ends with its last part
            e.target.resize(p.end);
            e.need = need;
            W->enc[dig(res)] = e;
        }
        return;
    }
    // decode
    auto it = W->enc.find(dig(in));
    bool exact = it != W->enc.end();
    if (r.how == H_RET && r.ok && p.ok && org.empty())
        for (auto &q : p.st.parts) {
            Meta *m = p.st.meta(ID_TRANSPORT, q.id);
            if (m && (q.flags & F_TRANSPORT) && m->data.size() == 32 && is_bspatch(rd32(m->data.data() + 4))) { viol("identity", "a part that needs an origin was decoded without one"); break; }
        }
    if (r.how == H_RET && r.ok && (W->junk.count(f) || in.size() < HDR)) viol("accept-refused", "decoding a file that is not a package succeeded");
    std::string tf = o.s("target"), key = o.s("key");
    if (exact) {
        EncRec &e = it->second;
        bool orgsame = e.need ? (!org.empty() && ob == e.origin) : true;
        if (fine && r.how == H_RET) {
            if (r.ok && orgsame) {
                if (res != e.target) {
                    size_t k = 0; while (k < res.size() && k < e.target.size() && res[k] == e.target[k]) k++;
                    viol(excused() || W->any_fault ? "decode-accept" : "roundtrip", strf("decoding reported success but the output (%zu bytes) differs from the encoded package (%zu bytes) at %zu", res.size(), e.target.size(), k));
                }
            }
            if (!r.ok && orgsame && idt == 1 && (org.empty() || W->pk.count(org)) && !excused()) viol("roundtrip", strf("decoding an intact transport package failed (%d): %s", r.rc, r.err.substr(0, 160).c_str()));
        }
    }
    if (!tf.empty() && !key.empty()) {
        // whatever was damaged: an output that verifies is the target
        const Bytes *t = sim_file(tf);
        if (t && res.size() >= HDR && t->size() >= HDR && ref_verify(res, key)) {
            Parsed pr = ref_parse(res.data(), res.size()), pt = ref_parse(t->data(), t->size());
            bool unhashed = false; for (auto &q : pt.st.parts) if (q.flags & F_NOHASH) unhashed = true;
            bool same = unhashed || pr.end == pt.end && pr.end <= res.size() && pt.end <= t->size() && !memcmp(res.data(), t->data(), OFF_SIG) && !memcmp(res.data() + HDR, t->data() + HDR, pr.end - HDR);
            if (!same) viol("decode-accept", "the output verifies with the signing key but is not the signed package");
        }
    }
    if (r.how == H_RET && r.ok) { const Bytes *n = sim_file(out); Parsed q = n && n->size() >= HDR ? ref_parse(n->data(), n->size()) : Parsed(); if (q.ok && q.bad.empty()) { rebase(out); W->wild.erase(out); } }
}

// ------------------------------------------------------------------ streaming
struct Region { int64_t a, b; };
struct Stream {
    Bytes in;                       // origin or payload
    Bytes out;                      // output payload
    int64_t in_base = 0, out_base = 0;
    int64_t out_max = 0;
    std::vector<Region> rd_in, wr_out, rd_out;
    Bytes header;
    bool cb_failed = false;
    std::string bad;
    bool check = true;
};
static Stream *S;
static bool inside(const std::vector<Region> &v, int64_t off, int64_t n) {
    if (n == 0) return true;
    for (auto &r : v) if (off >= r.a && off + n <= r.b) return true;
    return false;
}
static ssize_t cb_fault(Fault *f, size_t n, bool &done, ssize_t &k) {
    done = false; k = n;
    if (!f) return 0;
    if (f->kind == "short" && n > 0) { k = (uint64_t)f->arg % n; S->cb_failed = true; return 0; }
    if (f->kind == "eof") { if (n == 0) return 0; k = 0; S->cb_failed = true; return 0; }
    if (f->kind == "err1") { S->cb_failed = true; done = true; return -1; }
    S->cb_failed = true; done = true;
    return -BPAK_FAILED - 0;
}
static ssize_t cb_read_in(off_t off, uint8_t *b, size_t n, void *u) {
    (void)u;
    Fault *f = sim_event(EV_CB, "read_origin", "", off, n);
    bool done; ssize_t k; ssize_t rc = cb_fault(f, n, done, k);
    if (done) return rc;
    if (S->check && !inside(S->rd_in, off, n) && S->bad.empty()) S->bad = strf("origin read of %zu bytes at %lld is outside the part", n, (long long)off);
    int64_t p = off - S->in_base;
    if (p < 0 || p > (int64_t)S->in.size()) return n ? -BPAK_READ_ERROR : 0;
    k = std::min<int64_t>(k, S->in.size() - p);
    if (k) memcpy(b, S->in.data() + p, k);
    return k;
}
static ssize_t cb_write_out(off_t off, uint8_t *b, size_t n, void *u) {
    (void)u;
    Fault *f = sim_event(EV_CB, "write_output", "", off, n);
    bool done; ssize_t k; ssize_t rc = cb_fault(f, n, done, k);
    if (done) return rc;
    if (S->check && !inside(S->wr_out, off, n) && S->bad.empty()) S->bad = strf("output write of %zu bytes at %lld is outside the part", n, (long long)off);
    int64_t p = off - S->out_base;
    if (p < 0 || p + k > S->out_max) return -BPAK_WRITE_ERROR;
    if (k && (int64_t)S->out.size() < p + k) S->out.resize(p + k, 0xEE);
    if (k) memcpy(&S->out[p], b, k);
    return k;
}
static ssize_t cb_read_out(off_t off, uint8_t *b, size_t n, void *u) {
    (void)u;
    Fault *f = sim_event(EV_CB, "read_output", "", off, n);
    bool done; ssize_t k; ssize_t rc = cb_fault(f, n, done, k);
    if (done) return rc;
    if (S->check && !inside(S->rd_out, off, n) && S->bad.empty()) S->bad = strf("output read of %zu bytes at %lld is outside the part", n, (long long)off);
    int64_t p = off - S->out_base;
    if (p < 0 || p > (int64_t)S->out.size()) return n ? -BPAK_READ_ERROR : 0;
    k = std::min<int64_t>(k, S->out.size() - p);
    if (k) memcpy(b, S->out.data() + p, k);
    return k;
}
static ssize_t cb_write_hdr(off_t off, uint8_t *b, size_t n, void *u) {
    (void)u;
    Fault *f = sim_event(EV_CB, "write_header", "", off, n);
    bool done; ssize_t k; ssize_t rc = cb_fault(f, n, done, k);
    if (done) return rc;
    if ((off != 0 || n != HDR) && S->bad.empty()) S->bad = "header written at a wrong place";
    S->header.assign(b, b + std::min<size_t>(k, HDR));
    return k;
}
static size_t next_chunk(Rng &q, size_t left, int style) {
    size_t k;
    switch (style) {
    case 0: k = left; break;
    case 1: k = 1; break;
    case 2: k = q.range(1, 64); break;
    case 3: k = q.range(1, 4096); break;
    case 4: k = 4096; break;
    case 5: k = q.p(0.3) ? 1 : q.range(1, 9000); break;
    case 6: k = 24; break;
    default: k = q.range(1, 30); break;
    }
    return std::max<size_t>(1, std::min(k, left));
}
template <class F> static int feed(const uint8_t *p, size_t n, uint64_t seed, int style, bool zero_ok, F fn) {
    Rng q(seed);
    size_t at = 0;
    if (style == 1 && n > 6000) style = 7;
    while (at < n) {
        size_t k = next_chunk(q, n - at, style);
        uint8_t *c = (uint8_t *)malloc(k);
        memcpy(c, p + at, k);
        int rc = fn(c, k);
        free(c);
        if (rc) return rc;
        at += k;
    }
    (void)zero_ok;
    return 0;
}
static int style_of(const Op &o) { return (int)o.i("style", 0); }

static void op_sdecode(const Op &o) {
    std::string f = o.s("f"), org = o.s("origin");
    Bytes in = sim_file(f) ? *sim_file(f) : Bytes();
    Bytes ob = !org.empty() && sim_file(org) ? *sim_file(org) : Bytes();
    if (in.size() < HDR || (!org.empty() && ob.size() < HDR)) return;
    Stream st; S = &st;
    st.out_base = o.i("obase", 4096); st.in_base = o.i("ibase", 4096);
    st.out_max = 4 << 20;
    if (!ob.empty()) st.in.assign(ob.begin() + HDR, ob.end());
    struct bpak_header *ph = (struct bpak_header *)malloc(HDR), *oh = (struct bpak_header *)malloc(HDR);
    memcpy(ph, in.data(), HDR);
    if (!ob.empty()) memcpy(oh, ob.data(), HDR);
    Parsed pin = ref_parse(in.data(), in.size()), pt = ref_parse(in.data(), HDR, true);
    Parsed po = ob.empty() ? Parsed() : ref_parse(ob.data(), HDR, true);
    bool orderly = pin.ok && pt.ok;
    size_t blen = o.i("buflen", 4096);
    uint8_t *buf = (uint8_t *)malloc(blen);
    memset(buf, g.env.fill, blen);
    int style = style_of(o);
    OpRes r;
    leak_begin();
    auto *ctx = (struct bpak_transport_decode *)malloc(sizeof(struct bpak_transport_decode));
    memset(ctx, g.env.fill, sizeof *ctx);
    run_lib([&] {
        int rc = bpak_valid_header(ph);
        if (rc) return rc;
        if (!ob.empty()) { rc = bpak_valid_header(oh); if (rc) return rc; }
        rc = bpak_transport_decode_init(ctx, buf, blen, ph, cb_write_out, cb_read_out, st.out_base, cb_write_hdr, nullptr);
        if (rc) return rc;
        if (!ob.empty()) { rc = bpak_transport_decode_set_origin(ctx, oh, cb_read_in, st.in_base); if (rc) { bpak_transport_decode_free(ctx); return rc; } }
        size_t at = HDR;
        // regions of every part, from the header as the reference reads it
        for (size_t i = 0; i < 32; i++) {
            struct bpak_part_header *part = &ph->parts[i];
            if (!part->id) continue;
            // header writes of earlier parts change flags, sizes stay
            st.wr_out.clear(); st.rd_out.clear(); st.rd_in.clear();
            bool have = false;
            if (orderly) {
                int64_t oo = 0;
                for (auto &q : pt.st.parts) {
                    int64_t len = q.size + q.pad;
                    if (q.id == part->id) { st.wr_out.push_back({ oo + st.out_base, oo + len + st.out_base }); have = true; }
                    oo += len;
                }
                // a hash tree is computed from its data
                int64_t to = 0;
                for (auto &q : pt.st.parts) {
                    int64_t len = q.size + q.pad;
                    if (ref_tree_id(q.id) == part->id || q.id == part->id) st.rd_out.push_back({ to + st.out_base, to + len + st.out_base });
                    to += len;
                }
                if (po.ok) { int64_t x = 0; for (auto &q : po.st.parts) { int64_t len = q.stored_len(); if (q.id == part->id) st.rd_in.push_back({ x + st.in_base, x + len + st.in_base }); x += len; } }
            }
            st.check = orderly && have;
            size_t n = (part->flags & BPAK_FLAG_TRANSPORT) ? part->transport_size : part->size + part->pad_bytes;
            rc = bpak_transport_decode_start(ctx, part);
            if (rc) { bpak_transport_decode_free(ctx); return rc; }
            if (at > in.size() || n > in.size() - at) { bpak_transport_decode_free(ctx); return -1000; }
            rc = feed(in.data() + at, n, o.i("seed") + i, style, false, [&](uint8_t *c, size_t k) { return bpak_transport_decode_write_chunk(ctx, c, k); });
            if (!rc) rc = bpak_transport_decode_finish(ctx);
            if (rc) { bpak_transport_decode_free(ctx); return rc; }
            at += n;
        }
        // without parts there is nothing to decode; the header is the application's to copy
        if (at == HDR && st.header.empty()) st.header.assign((uint8_t *)ph, (uint8_t *)ph + HDR);
        bpak_transport_decode_free(ctx);
        return 0;
    }, r);
    Bytes hdrout = st.header;
    free(ctx); free(buf); free(ph); free(oh);
    S = nullptr;
    if (!finish_common(o, r, {})) return;
    if (r.how != H_RET) return;
    if (!st.bad.empty()) viol("stream", st.bad);
    if (r.ok && st.cb_failed) viol("stream", "streaming decode reported success although a callback failed");
    int idt = org.empty() ? 1 : same_identity(&in, &ob);
    if (r.ok && idt == 0) viol("identity", "streaming decode accepted an origin of another identity");
    if (r.ok && org.empty() && pin.ok)
        for (auto &q : pin.st.parts) {
            Meta *m = pin.st.meta(ID_TRANSPORT, q.id);
            if (m && (q.flags & F_TRANSPORT) && m->data.size() == 32 && is_bspatch(rd32(m->data.data() + 4))) { viol("identity", "a part that needs an origin was decoded without one"); break; }
        }
    auto it = W->enc.find(dig(in));
    Bytes res = hdrout;
    res.insert(res.end(), st.out.begin(), st.out.end());
    if (it != W->enc.end()) {
        EncRec &e = it->second;
        bool orgsame = e.need ? (!org.empty() && ob == e.origin) : true;
        if (r.ok && orgsame && res != e.target) viol(excused() ? "decode-accept" : "stream", strf("streaming decode (chunks %d, buffer %zu) gives another package than was encoded", style, blen));
        if (!r.ok && orgsame && idt == 1 && (org.empty() || W->pk.count(org)) && !excused()) viol("stream", strf("streaming decode (chunks %d, buffer %zu) of an intact transport package failed (%d)", style, blen, r.rc));
    }
    std::string tf = o.s("target"), key = o.s("key");
    if (!tf.empty() && !key.empty() && r.ok) {
        const Bytes *t = sim_file(tf);
        if (t && res.size() >= HDR && ref_verify(res, key)) {
            Parsed pr = ref_parse(res.data(), res.size()), p2 = ref_parse(t->data(), t->size());
            bool unhashed = false; for (auto &q : p2.st.parts) if (q.flags & F_NOHASH) unhashed = true;
            bool same = unhashed || pr.end == p2.end && p2.end <= t->size() && !memcmp(res.data(), t->data(), OFF_SIG) && !memcmp(res.data() + HDR, t->data() + HDR, pr.end - HDR);
            if (!same) viol("decode-accept", "the streamed output verifies but is not the signed package");
        }
    }
}

static void op_sdiff(const Op &o) {
    const Bytes *a = sim_file(o.s("a")), *b = sim_file(o.s("b"));
    if (!a || !b) return;
    Stream st; S = &st;
    bpak_compression comp = (bpak_compression)o.i("comp");
    int64_t off = o.i("off");
    st.out_base = off; st.out_max = 4 << 20;
    st.wr_out = { { off, off + (4 << 20) } };
    uint8_t *oa = (uint8_t *)malloc(a->size() ? a->size() : 1), *na = (uint8_t *)malloc(b->size() ? b->size() : 1);
    if (a->size()) memcpy(oa, a->data(), a->size());
    if (b->size()) memcpy(na, b->data(), b->size());
    auto *dc = (struct bpak_bsdiff_context *)malloc(sizeof(struct bpak_bsdiff_context));
    memset(dc, g.env.fill, sizeof *dc);
    ssize_t plen = 0;
    OpRes r;
    leak_begin();
    run_lib([&] {
        int rc = bpak_bsdiff_init(dc, oa, a->size(), na, b->size(), cb_write_out, off, comp, nullptr);
        if (rc) return rc;
        plen = bpak_bsdiff(dc);
        bpak_bsdiff_free(dc);
        return plen < 0 ? (int)plen : 0;
    }, r);
    free(dc); free(oa); free(na);
    if (!finish_common(o, r, {})) { S = nullptr; return; }
    if (r.how != H_RET) { S = nullptr; return; }
    if (!st.bad.empty()) viol("stream", "delta generator: " + st.bad);
    if (r.ok && st.cb_failed) viol("stream", "delta generation reported success although a callback failed");
    if (!r.ok && !excused()) viol("stream", strf("delta generation failed (%d) for sizes %zu -> %zu", r.rc, a->size(), b->size()));
    if (!r.ok || st.cb_failed) { S = nullptr; return; }
    Bytes patch = st.out;
    if ((ssize_t)patch.size() != plen) { viol("stream", strf("delta generator reports %zd bytes but wrote %zu", plen, patch.size())); S = nullptr; return; }
    // apply
    Stream s2; S = &s2;
    int64_t ib = o.i("ibase"), obs = o.i("obase");
    s2.in = *a; s2.in_base = ib; s2.out_base = obs; s2.out_max = 4 << 20;
    s2.rd_in = { { ib, ib + (int64_t)a->size() } };
    s2.wr_out = { { obs, obs + (int64_t)b->size() } };
    size_t blen = o.i("buflen", 4096);
    uint8_t *buf = (uint8_t *)malloc(blen);
    memset(buf, g.env.fill, blen);
    auto *pc = (struct bpak_bspatch_context *)malloc(sizeof(struct bpak_bspatch_context));
    memset(pc, g.env.fill, sizeof *pc);
    size_t feedlen = o.has("cut") ? patch.size() * o.i("cut") / 100 : patch.size();
    if (o.has("flip") && !patch.empty()) { Rng q(o.i("flip")); patch[q.below(patch.size())] ^= 1 << q.below(8); s2.check = false; }
    bool intact = feedlen == patch.size() && !o.has("flip");
    int style = style_of(o);
    ssize_t total = 0;
    OpRes r2;
    leak_begin();
    run_lib([&] {
        int rc = bpak_bspatch_init(pc, buf, blen, patch.size(), cb_read_in, ib, cb_write_out, obs, comp, nullptr);
        if (rc) return rc;
        rc = feed(patch.data(), feedlen, o.i("seed"), style, false, [&](uint8_t *c, size_t k) { return bpak_bspatch_write(pc, c, k); });
        if (!rc) { total = bpak_bspatch_final(pc); if (total < 0) rc = total; }
        bpak_bspatch_free(pc);
        return rc;
    }, r2);
    free(pc); free(buf);
    S = nullptr;
    if (!finish_common(o, r2, {})) return;
    if (r2.how != H_RET) return;
    if (s2.check && !s2.bad.empty()) viol("stream", "patch applier: " + s2.bad);
    if (r2.ok && s2.cb_failed) viol("stream", "patch application reported success although a callback failed");
    bool odd = blen < 2 || blen % 2;
    if (intact && !excused() && !odd) {
        if (!r2.ok) viol("stream", strf("applying an intact patch failed (%d; chunks %d, buffer %zu, compression %d)", r2.rc, style, blen, comp));
        else if (s2.out != *b) viol("stream", strf("applying an intact patch gives other data (chunks %d, buffer %zu, compression %d)", style, blen, comp));
    }
    if (r2.ok && !s2.cb_failed && intact && !odd && total != (ssize_t)b->size()) viol("stream", strf("patch applier reports %zd bytes of %zu", total, b->size()));
    if (r2.ok && !intact && feedlen < patch.size() && !o.has("flip") && total == (ssize_t)b->size() && s2.out != *b) viol("stream", "a truncated patch gave a complete but different output");
}

static void op_smerkle(const Op &o) {
    const Bytes *d = sim_file(o.s("a"));
    if (!d) return;
    Stream st; S = &st;
    int64_t off = o.i("off");
    bool suit = !d->empty() && d->size() % 4096 == 0;
    Bytes salt = gen_content(o.i("salt"), 32, "rand"), tree, root;
    if (suit) ref_merkle(d->data(), d->size(), salt.data(), tree, root);
    st.out_base = off; st.out_max = 1 << 20;
    st.wr_out = st.rd_out = { { off, off + (int64_t)(suit ? tree.size() : 1 << 20) } };
    auto *c = (struct bpak_merkle_context *)malloc(sizeof(struct bpak_merkle_context));
    memset(c, g.env.fill, sizeof *c);
    bool zf = o.i("zerofill", 1);
    if (!zf) st.out.assign(suit ? tree.size() : 4096, 0);
    uint8_t got[32]; memset(got, g.env.fill, 32);
    ssize_t tsz = 0;
    OpRes r;
    leak_begin();
    run_lib([&] {
        tsz = bpak_merkle_compute_size(d->size());
        int rc = bpak_merkle_init(c, d->size(), salt.data(), 32, cb_write_out, cb_read_out, off, zf, nullptr);
        if (rc) return rc;
        rc = feed(d->data(), d->size(), o.i("seed"), style_of(o), false, [&](uint8_t *p, size_t k) { return bpak_merkle_write_chunk(c, p, k); });
        if (rc) return rc;
        return bpak_merkle_finish(c, got);
    }, r);
    size_t rsz = r.ok ? bpak_merkle_get_size(c) : 0;
    free(c);
    S = nullptr;
    if (!finish_common(o, r, {})) return;
    if (r.how != H_RET) return;
    if (!st.bad.empty()) viol("stream", "hash-tree builder: " + st.bad);
    if (r.ok && st.cb_failed) viol("stream", "hash-tree builder reported success although a callback failed");
    if (r.ok && !suit) viol("merkle", strf("a hash tree was built for an unsuitable length %zu", d->size()));
    if (suit && !r.ok && !excused()) viol("merkle", strf("building a hash tree failed (%d)", r.rc));
    if (suit && r.ok && !st.cb_failed) {
        if (tsz != (ssize_t)tree.size() || rsz != tree.size()) viol("merkle", strf("hash-tree size %zd/%zu, expected %zu", tsz, rsz, tree.size()));
        if (Bytes(got, got + 32) != root) viol("merkle", "root hash differs from the dm-verity reference");
        if (st.out != tree) viol("merkle", "hash tree differs from the dm-verity reference");
    }
}
bool ref_payload_ok(const Bytes &b, std::string *why);
static void op_sverify(const Op &o) {
    std::string f = o.s("f");
    const Bytes *b = sim_file(f);
    if (!b || b->size() < HDR) return;
    Stream st; S = &st;
    st.in.assign(b->begin() + HDR, b->end());
    st.in_base = o.i("ibase", 4096);
    Parsed p = ref_parse(b->data(), b->size());
    st.check = p.ok && p.bad.empty();
    for (auto &q : p.st.parts) if (q.flags & F_TRANSPORT) st.check = false;      // a tree part may be marked as transported
    st.rd_in = { { st.in_base, st.in_base + (int64_t)(p.ok ? p.end - HDR : 0) } };
    auto *h = (struct bpak_header *)malloc(HDR);
    memcpy(h, b->data(), HDR);
    OpRes r;
    leak_begin();
    run_lib([&] { int rc = bpak_valid_header(h); if (rc) return rc; return bpak_verify_payload(h, cb_read_in, st.in_base, nullptr); }, r);
    bool same = !memcmp(h, b->data(), HDR);
    free(h);
    S = nullptr;
    if (!finish_common(o, r, {})) return;
    if (r.how != H_RET) return;
    if (!same) viol("input-modified", "payload verification changed the header");
    if (st.check && !st.bad.empty()) viol("stream", "payload verification: " + st.bad);
    if (r.ok && (st.cb_failed || backend_fault(false, false))) viol("verify-accept", "payload verification succeeded although reading or hashing failed");
    std::string why;
    bool ok = ref_payload_ok(*b, &why);
    if (r.ok && p.ok && !ok) viol("verify-accept", "payload verification succeeded although: " + why);
    if (!r.ok && ok && W->pk.count(f) && !excused()) viol("verify-reject", strf("payload verification of an intact package failed (%d)", r.rc));
}
bool ref_payload_ok(const Bytes &b, std::string *why) {
    Parsed p = ref_parse(b.data(), b.size());
    if (!p.ok) { *why = p.err; return false; }
    if (!p.bad.empty()) { /* layout complaints do not concern the payload hash */ }
    Bytes h = ref_payload_hash(p.st);
    if (memcmp(h.data(), p.payload_hash.data(), h.size())) { *why = "payload hash differs"; return false; }
    for (auto &q : p.st.parts) {
        Meta *root = p.st.meta(ID_ROOT, q.id);
        if (!root) continue;
        Meta *salt = p.st.meta(ID_SALT, q.id);
        Part *tr = p.st.part(ref_tree_id(q.id));
        if (tr && ((q.flags | tr->flags) & F_TRANSPORT)) continue;     // transported: undecided
        if (salt && tr && (salt->data.size() != 32 || root->data.size() != 32)) continue;      // undecided
        if (!salt || !tr) { *why = "hash tree incomplete"; return false; }
        Bytes tree, rh;
        if (!ref_merkle(q.stored->data(), q.stored->size(), salt->data.data(), tree, rh)) { *why = "no tree for this length"; return false; }
        if (tree.size() > tr->stored->size() || memcmp(tree.data(), tr->stored->data(), q.stored->size() == 4096 ? 32 : tree.size())) { *why = "hash tree does not match the data"; return false; }
        if (rh != root->data) { *why = "root hash does not match"; return false; }
    }
    return true;
}
bool exec_stream(const Op &o) {
    const std::string &k = o.kind;
    if (k == "sdecode") op_sdecode(o);
    else if (k == "sdiff") op_sdiff(o);
    else if (k == "smerkle") op_smerkle(o);
    else if (k == "sverify") op_sverify(o);
    else return false;
    return true;
}
#ifndef WITH_PY
bool exec_py(const Op &) { return false; }
bool py_can(const Op &) { return false; }
PyH *py_open(const std::string &, const std::string &, int &rc) { rc = -1; return nullptr; }
bpak_package *py_pkg(PyH *) { return nullptr; }
int py_close(PyH *, const std::string &) { return 0; }
int py_edit(PyH *, const Op &) { return -1; }
int py_once(const std::string &, const std::string &, const Op &) { return -1; }
int py_create(const std::string &, int, int) { return -1; }
int py_verify(const std::string &, const std::string &, const std::string &) { return -1; }
int py_transport(bool, const std::string &, const std::string &, const std::string &, int, bool) { return -1; }
std::string py_problem() { return ""; }
void py_reset() {}
bool py_alloc_fired;
#endif
