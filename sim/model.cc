#include "model.h"
#include <algorithm>

uint32_t name_id(const std::string &s) {
    if (s.compare(0, 2, "0x") == 0) return strtoul(s.c_str(), nullptr, 16);
    return ref_id(s);
}
bool is_destructive(const std::string &k) { return k == "delpart" || k == "delall"; }
bool is_edit(const std::string &k) {
    static const char *e[] = { "addfile", "addkey", "addmeta", "setmeta", "setid", "delmeta", "delpart", "delall", "sign", "signraw", "tradd",
        "setkind", "partren", "metaren", "metaput", "clearsig" };        // Python binding only
    for (auto x : e) if (k == x) return true;
    return false;
}
static bool parse_uuid(const std::string &s, Bytes &out) {
    if (s.size() != 36) return false;
    out.clear();
    for (size_t i = 0; i < 36;) {
        if (i == 8 || i == 13 || i == 18 || i == 23) { if (s[i] != '-') return false; i++; continue; }
        if (!isxdigit(s[i]) || !isxdigit(s[i + 1])) return false;
        out.push_back(strtol(s.substr(i, 2).c_str(), nullptr, 16)); i += 2;
    }
    return out.size() == 16;
}
static bool parse_int(const std::string &s, uint64_t &v) {
    char *e; errno = 0;
    v = strtol(s.c_str(), &e, 0);
    return e != s.c_str() && errno == 0;
}
// value added by an addmeta operation
Bytes meta_bytes(const Op &o, bool &ok) {
    ok = true;
    if (o.has("hex")) return unhex(o.s("hex"));
    std::string s = o.s("str"), e = o.s("enc");
    Bytes b;
    if (e == "uuid") { ok = parse_uuid(s, b); return b; }
    if (e == "integer") { uint64_t v; ok = parse_int(s, v); b.resize(8); wr64(b.data(), v); return b; }
    if (e == "id") { b.resize(4); wr32(b.data(), ref_id(s)); return b; }
    if (e != "") { ok = false; return b; }
    b.assign(s.begin(), s.end()); b.push_back(0);
    return b;
}
static Exp add_meta(PState &st, uint32_t id, uint32_t ref, const Bytes &d, bool wild, std::string &why) {
    if (st.meta(id, ref)) { why = "metadata exists"; return E_REFUSE; }
    if (st.metas.size() >= 32) { why = "metadata table full"; return E_REFUSE; }
    if (st.meta_space_used() + (int)d.size() > 1920) { why = "no metadata space"; return E_REFUSE; }
    Meta m; m.id = id; m.ref = ref; m.data = d; m.wild = wild;
    st.metas.push_back(m);
    return E_MUST;
}
static Exp add_part(PState &st, uint32_t id, const Bytes &content, int flags, std::string &why) {
    if (st.part(id)) { why = "part exists"; return E_REFUSE; }
    if (st.parts.size() >= 32) { why = "part table full"; return E_REFUSE; }
    Part p; p.id = id; p.size = content.size(); p.flags = flags;
    p.pad = (512 - content.size() % 512) % 512;
    auto b = std::make_shared<Bytes>(content);
    b->resize(content.size() + p.pad, 0);
    p.stored = b;
    st.parts.push_back(p);
    return E_MUST;
}
static uint64_t tree_len(uint64_t n) {
    uint64_t t = 0;
    do { n = (n / 4096 * 32 + 4095) / 4096 * 4096; t += n; } while (n > 4096);
    return t;
}
bool model_data_only(PState &st, const Op &o, const Inputs &in) {
    std::string why;
    return in.in && add_part(st, ref_id(o.s("part")), *in.in, o.i("nohash") ? F_NOHASH : 0, why) == E_MUST;
}
Exp model_apply(PState &st, const Op &o, const Inputs &in, std::string &why) {
    const std::string &k = o.kind;
    if (k == "addfile") {
        if (!in.in) { why = "input missing"; return E_REFUSE; }
        uint32_t id = ref_id(o.s("part"));
        int fl = o.i("nohash") ? F_NOHASH : 0;
        PState s = st;
        if (o.i("merkle")) {
            if (in.in->empty() || in.in->size() % 4096) { why = "unsuitable size for a hash tree"; return E_REFUSE; }
            uint32_t tid = ref_tree_id(id);
            if (s.part(tid)) { why = "tree part exists"; return E_REFUSE; }
            if (add_part(s, id, *in.in, fl, why) != E_MUST) return E_REFUSE;
            Bytes z(32, 0);
            if (add_meta(s, ID_SALT, id, z, true, why) != E_MUST) return E_REFUSE;
            if (add_meta(s, ID_ROOT, id, z, true, why) != E_MUST) return E_REFUSE;
            Bytes t(tree_len(in.in->size()), 0);
            if (add_part(s, tid, t, fl, why) != E_MUST) return E_REFUSE;
            s.parts.back().wild_tree = true; s.parts.back().tree_of = id;
        } else if (add_part(s, id, *in.in, fl, why) != E_MUST) return E_REFUSE;
        st = s;
        st.hash_stale = false;
        return E_MUST;
    }
    if (o.i("wildkey")) { why = "key file of unknown validity"; return E_EITHER; }
    if (k == "addkey") {
        std::string key = o.s("key");
        const Bytes *der = sim_key_file(key + ".pub.der");
        if (!der || o.i("badkey")) { why = "unusable key"; return E_REFUSE; }
        Exp x = add_part(st, ref_id(o.s("part")), *der, o.i("nohash") ? F_NOHASH : 0, why);
        if (x == E_MUST) st.hash_stale = false;
        return x;
    }
    if (k == "addmeta") {
        bool ok; Bytes b;
        if (o.has("file")) {
            if (!in.in) { why = "metadata input missing"; return E_REFUSE; }
            if (in.in->empty()) { why = "metadata input empty"; return E_REFUSE; }
            if (in.in->size() > 1920) { why = "metadata input too large"; return E_REFUSE; }
            b = *in.in; ok = true;
        } else b = meta_bytes(o, ok);
        if (!ok) { why = "value cannot be encoded"; return E_REFUSE; }
        if (o.has("size")) { if (o.i("size") > 1920) { why = "no metadata space"; return E_REFUSE; } b.resize(o.i("size")); }
        return add_meta(st, name_id(o.s("id")), o.has("ref") ? name_id(o.s("ref")) : 0, b, false, why);
    }
    auto ids = [&]() { if (o.has("key")) st.key_id = name_id(o.s("key")); if (o.has("ks")) st.ks_id = name_id(o.s("ks")); return E_MUST; };
    if (k == "setmeta") {
        uint32_t id = name_id(o.s("id"));
        Meta *m = st.meta(id, 0);
        if (!m) { why = "no such metadata"; return E_REFUSE; }
        std::string e = o.s("enc"), s = o.s("str");
        if (e == "integer") {
            uint64_t v;
            if (m->data.size() != 8) { why = "size of value"; return E_REFUSE; }
            if (!parse_int(s, v)) { why = "not a number"; return E_REFUSE; }
            wr64(m->data.data(), v);
            return ids();
        }
        if (e == "id") {
            if (m->data.size() != 4) { why = "size of value"; return E_REFUSE; }
            wr32(m->data.data(), ref_id(s));
            return ids();
        }
        if (e != "") { why = "unknown encoder"; return E_REFUSE; }
        if (s.size() + 1 > m->data.size()) {
            PState t = st;
            for (size_t i = 0; i < t.metas.size(); i++) if (t.metas[i].id == id && t.metas[i].ref == 0) { t.metas.erase(t.metas.begin() + i); break; }
            Bytes b(s.begin(), s.end()); b.push_back(0);
            Exp x = add_meta(t, id, 0, b, false, why);
            if (x != E_MUST) return x;
            st = t;
            return ids();
        }
        std::fill(m->data.begin(), m->data.end(), 0);
        memcpy(m->data.data(), s.data(), s.size());
        return ids();
    }
    if (k == "setid") {
        return ids();
    }
    if (k == "delmeta") {
        uint32_t id = name_id(o.s("id")), ref = o.has("ref") ? name_id(o.s("ref")) : 0;
        for (size_t i = 0; i < st.metas.size(); i++)
            if (st.metas[i].id == id && st.metas[i].ref == ref) { st.metas.erase(st.metas.begin() + i); return E_MUST; }
        why = "no such metadata";
        return E_REFUSE;
    }
    if (k == "delpart" || k == "delall") {
        bool keep = o.i("keep");
        uint32_t id = k == "delpart" ? name_id(o.s("part")) : 0;
        if (id && !st.part(id)) { why = "no such part"; return E_REFUSE; }
        if (id) { for (size_t i = 0; i < st.parts.size(); i++) if (st.parts[i].id == id) { st.parts.erase(st.parts.begin() + i); break; } }
        else st.parts.clear();
        if (!keep) {
            std::vector<Meta> m;
            for (auto &x : st.metas) if (id ? x.ref != id : x.ref == 0) m.push_back(x);
            st.metas = m;
        }
        st.hash_stale = false;
        return E_MUST;
    }
    if (k == "sign") {
        if (o.i("badkey") || !sim_key_file(o.s("key") + ".pub.der")) { why = "unusable key"; return E_REFUSE; }
        st.sig.clear(); st.sigtail.clear(); st.wild_sig = true; st.wild_sig_key = o.s("key"); st.hash_stale = false;
        return E_MUST;
    }
    if (k == "signraw") {
        Bytes s;
        if (o.has("file")) { if (!in.in) { why = "no signature file"; return E_REFUSE; } s = *in.in; }
        else s = unhex(o.s("hex"));
        if (s.empty()) { why = "empty signature"; return E_REFUSE; }
        if (s.size() > 512) { why = "oversized signature"; return E_REFUSE; }
        st.sig = s; st.sigtail.clear(); st.wild_sig = false;
        return E_MUST;
    }
    if (k == "tradd") {
        Bytes b(32, 0);
        wr32(b.data(), ref_id(o.s("enc"))); wr32(b.data() + 4, ref_id(o.s("dec")));
        return add_meta(st, ID_TRANSPORT, name_id(o.s("part")), b, false, why);
    }
    if (k == "setkind") {
        if (o.has("hk")) { if (st.hk != o.i("hk")) st.hash_stale = true; st.hk = o.i("hk"); }
        else st.sk = o.i("sk");
        return E_MUST;
    }
    if (k == "clearsig") { st.sig.clear(); st.sigtail.clear(); st.wild_sig = false; return E_MUST; }
    if (k == "partren") {
        uint32_t from = name_id(o.s("part")), to = name_id(o.s("to"));
        Part *p = st.part(from);
        if (!p) { why = "no such part"; return E_REFUSE; }
        if (!to || (to != from && st.part(to))) { why = "id in use"; return E_REFUSE; }
        p->id = to;
        return E_MUST;
    }
    if (k == "metaren" || k == "metaput") {
        uint32_t id = name_id(o.s("id")), ref = o.has("ref") ? name_id(o.s("ref")) : 0;
        Meta *m = st.meta(id, ref);
        if (!m) { why = "no such metadata"; return E_REFUSE; }
        if (k == "metaren") {
            uint32_t nid = o.has("to") ? name_id(o.s("to")) : id, nref = o.has("to") ? ref : o.s("toref") == "none" ? 0 : name_id(o.s("toref"));
            if (!nid || ((nid != id || nref != ref) && st.meta(nid, nref))) { why = "id in use"; return E_REFUSE; }
            m->id = nid; m->ref = nref;
            return E_MUST;
        }
        Bytes b;
        if (o.has("hex")) b = unhex(o.s("hex")); else { std::string s = o.s("str"); b.assign(s.begin(), s.end()); b.push_back(0); }
        if (b.size() > m->data.size()) { why = "value too long"; return E_REFUSE; }
        b.resize(m->data.size());
        m->data = b;
        return E_MUST;
    }
    why = "unknown operation";
    return E_EITHER;
}

bool adopt(PState &exp, const uint8_t *hdr, const Bytes *file, std::string &cls, std::string &err) {
    Parsed h = ref_parse(hdr, HDR, true);
    if (!h.ok) { err = h.err; return false; }
    for (auto &p : exp.parts) {
        if (!p.wild_tree) continue;
        Meta *es = exp.meta(ID_SALT, p.tree_of), *er = exp.meta(ID_ROOT, p.tree_of);
        Meta *as = h.st.meta(ID_SALT, p.tree_of), *ar = h.st.meta(ID_ROOT, p.tree_of);
        if (!es || !er) { err = "model: tree without salt"; return false; }
        if (!as || !ar || as->data.size() != 32 || ar->data.size() != 32) { err = "salt or root hash missing"; return false; }
        Part *d = exp.part(p.tree_of);
        Bytes tree, root;
        if (!d || !ref_merkle(d->stored->data(), d->stored->size(), as->data.data(), tree, root)) { err = "model: no tree"; return false; }
        if (root != ar->data) { cls = "merkle"; err = strf("root hash of part %08x is not the dm-verity root", p.tree_of); return false; }
        es->data = as->data; er->data = root; es->wild = er->wild = false;
        p.stored = std::make_shared<const Bytes>(tree);
        p.wild_tree = false;
    }
    if (exp.wild_sig) {
        if (h.st.sig.empty()) { err = "no signature recorded"; return false; }
        Bytes hh = ref_header_hash(hdr);
        if (!ref_pk_verify(exp.wild_sig_key, hdr[OFF_HK], hh, h.st.sig.data(), h.st.sig.size())) {
            cls = "signature"; err = "recorded signature does not verify with key " + exp.wild_sig_key; return false;
        }
        exp.sig = h.st.sig; exp.wild_sig = false;
    }
    (void)file;
    return true;
}
std::string diff_state(const PState &e, const PState &a, bool header_only) {
    if (e.hk != a.hk || e.sk != a.sk) return strf("hash/signature kind %d/%d expected %d/%d", a.hk, a.sk, e.hk, e.sk);
    if (e.key_id != a.key_id || e.ks_id != a.ks_id) return strf("key/keystore id %08x/%08x expected %08x/%08x", a.key_id, a.ks_id, e.key_id, e.ks_id);
    if (e.parts.size() != a.parts.size()) return strf("%zu parts, expected %zu", a.parts.size(), e.parts.size());
    for (size_t i = 0; i < e.parts.size(); i++) {
        const Part &x = e.parts[i], &y = a.parts[i];
        if (x.id != y.id) return strf("part %zu is %08x, expected %08x", i, y.id, x.id);
        if (x.size != y.size || x.pad != y.pad || x.flags != y.flags || x.tsize != y.tsize)
            return strf("part %08x: size %llu pad %u flags %u, expected %llu/%u/%u", x.id, (unsigned long long)y.size, y.pad, y.flags, (unsigned long long)x.size, x.pad, x.flags);
        if (!header_only && x.stored && *x.stored != *y.stored) {
            size_t k = 0; while (k < x.stored->size() && k < y.stored->size() && (*x.stored)[k] == (*y.stored)[k]) k++;
            return strf("part %08x: contents differ at byte %zu of %zu", x.id, k, x.stored->size());
        }
    }
    if (e.metas.size() != a.metas.size()) return strf("%zu metadata values, expected %zu", a.metas.size(), e.metas.size());
    for (auto &m : e.metas) {
        const Meta *o = const_cast<PState &>(a).meta(m.id, m.ref);
        if (!o) return strf("metadata %08x/%08x is gone", m.id, m.ref);
        if (!m.wild && o->data != m.data) return strf("metadata %08x/%08x holds %s, expected %s", m.id, m.ref, hex(o->data.data(), std::min<size_t>(o->data.size(), 40)).c_str(), hex(m.data.data(), std::min<size_t>(m.data.size(), 40)).c_str());
    }
    if (!e.wild_sig && e.sig != a.sig) return strf("signature differs (%zu bytes, expected %zu)", a.sig.size(), e.sig.size());
    if (e.sigtail != a.sigtail) return "the unused rest of the signature field changed or is not clear";
    return "";
}
static std::string hash_check(const Parsed &p) {
    bool tr = false;
    for (auto &x : p.st.parts) if (x.flags & F_TRANSPORT) tr = true;
    if (tr || p.st.hk < 1 || p.st.hk > 3) return "";
    Bytes h = ref_payload_hash(p.st);
    if (memcmp(h.data(), p.payload_hash.data(), h.size())) return "recorded payload hash is not the hash of the payload";
    return "";
}
std::string match_file(const Bytes &f, PState &exp, bool loose, std::string &cls) {
    Parsed p = ref_parse(f.data(), f.size());
    if (!p.ok) return p.err + (p.bad.empty() ? "" : "; " + p.bad[0]);
    std::string err;
    // part list first, so that adoption has the data it needs
    if (exp.parts.size() != p.st.parts.size()) return strf("%zu parts, expected %zu", p.st.parts.size(), exp.parts.size());
    if (!adopt(exp, f.data(), &f, cls, err)) return err;
    std::string d = diff_state(exp, p.st, false);
    if (!d.empty()) return d;
    if (!p.bad.empty()) { cls = "layout"; return p.bad[0]; }
    if (!loose && p.end != p.file_len) { cls = "layout"; return strf("%llu bytes after the last part", (unsigned long long)(p.file_len - p.end)); }
    if (!exp.hash_stale) d = hash_check(p);
    if (!d.empty()) return d;
    return "";
}
std::string match_header(const uint8_t *hdr, PState &exp, std::string &cls) {
    Parsed p = ref_parse(hdr, HDR, true);
    if (!p.ok) return p.err;
    std::string err;
    if (exp.parts.size() != p.st.parts.size()) return strf("%zu parts, expected %zu", p.st.parts.size(), exp.parts.size());
    if (!adopt(exp, hdr, nullptr, cls, err)) return err;
    std::string d = diff_state(exp, p.st, true);
    if (!d.empty()) return d;
    if (!p.bad.empty()) { cls = "layout"; return p.bad[0]; }
    return "";
}
Bytes build_file(const uint8_t *hdr, const PState &st) {
    Bytes b(hdr, hdr + HDR);
    for (auto &p : st.parts) if (p.stored) b.insert(b.end(), p.stored->begin(), p.stored->end());
    return b;
}
