// The header interface: what a boot loader or an application does with a package header it
// holds in memory, without a file.
#include "world.h"
extern "C" {
#include <bpak/utils.h>
#include <bpak/id.h>
#include <bpak/verify.h>
#include <bpak/crypto.h>
}
bool finish_common(const Op &o, OpRes &r, const std::set<std::string> &outs);
std::string esc(const std::string &s, size_t n = 160);
bool meta_text(const Meta &m, std::string &t);
std::string diff_state(const PState &e, const PState &a, bool header_only);

static std::vector<std::string> cut(const std::string &s, char c) {
    std::vector<std::string> v; std::string x;
    for (char k : s) if (k == c) { v.push_back(x); x.clear(); } else x += k;
    v.push_back(x);
    return v;
}
static uint32_t num(const std::vector<std::string> &v, size_t i) { return i < v.size() ? strtoul(v[i].c_str(), nullptr, 16) : 0; }
namespace {
struct Hdr {
    struct bpak_header *h;
    PState st;
    bool exact;                                  // the model knows what is in the header
    std::string cls, bad;
    void fail(const char *c, const std::string &d) { if (bad.empty()) { cls = c; bad = d; } }
    Bytes raw() const { return Bytes((uint8_t *)h, (uint8_t *)h + HDR); }
};
}
static void hdr_query(Hdr &x) {
    struct bpak_part_header *p = nullptr;
    struct bpak_meta_header *m = nullptr;
    uint64_t pos = HDR;
    std::set<uint32_t> ids;
    for (auto &q : x.st.parts) {
        p = nullptr;
        if (bpak_get_part(x.h, q.id, &p) || !p || p->id != q.id) return x.fail("content", strf("part %08x is not found in the header", q.id));
        if ((uint64_t)bpak_part_offset(x.h, p) != pos) return x.fail("content", strf("offset of part %08x is %lld, expected %llu", q.id, (long long)bpak_part_offset(x.h, p), (unsigned long long)pos));
        if (bpak_part_size(p) != q.stored_len()) return x.fail("content", strf("size of part %08x", q.id));
        if (bpak_part_size_wo_pad(p) != ((q.flags & F_TRANSPORT) ? q.tsize : q.size)) return x.fail("content", strf("size of part %08x without padding", q.id));
        pos += q.stored_len();
        uint32_t t = bpak_part_id_to_hash_tree_id(q.id), back = bpak_hash_tree_id_to_part_id(x.h, t);
        if (back != q.id && !(x.st.part(back) && bpak_part_id_to_hash_tree_id(back) == t)) return x.fail("content", strf("the hash tree id of part %08x leads to part %08x", q.id, back));
        ids.insert(q.id);
    }
    std::map<uint32_t, int> mids;
    for (auto &q : x.st.metas) {
        m = nullptr;
        if (bpak_get_meta(x.h, q.id, q.ref, &m) || !m || m->id != q.id || m->part_id_ref != q.ref) return x.fail("content", strf("metadata %08x/%08x is not found in the header", q.id, q.ref));
        if (m->size != q.data.size() || memcmp(bpak_get_meta_ptr(x.h, m, uint8_t), q.data.data(), m->size)) return x.fail("content", strf("metadata %08x/%08x holds another value", q.id, q.ref));
        m = nullptr;
        if (bpak_get_meta_anyref(x.h, q.id, &m) || !m || m->id != q.id) return x.fail("content", strf("metadata %08x is not found without its reference", q.id));
        mids[q.id]++;
    }
    for (uint32_t id : { 0u, 1u, 0x12345678u, 0xffffffffu }) {
        p = nullptr;
        if (!ids.count(id) && bpak_get_part(x.h, id, &p) == 0) return x.fail("accept-refused", strf("a part %08x that does not exist is found", id));
        m = (struct bpak_meta_header *)x.h;
        if (!mids.count(id) && (bpak_get_meta_anyref(x.h, id, &m) == 0 || m)) return x.fail("accept-refused", strf("metadata %08x that does not exist is found", id));
        m = (struct bpak_meta_header *)x.h;
        for (auto &q : x.st.metas) if (!x.st.meta(q.id, id) && (bpak_get_meta(x.h, q.id, id, &m) == 0 || m)) return x.fail("accept-refused", strf("metadata %08x/%08x that does not exist is found", q.id, id));
    }
}
static void hdr_same(Hdr &x, const std::string &what, const char *cls = "content") {
    Bytes b = x.raw();
    Parsed p = ref_parse(b.data(), b.size(), true);
    if (!p.ok) return x.fail(cls, what + ": header is " + p.err);
    std::vector<std::string> bad;
    for (auto &s : p.bad) bad.push_back(s);
    if (!bad.empty()) return x.fail(cls, what + ": " + bad[0]);
    std::string d = diff_state(x.st, p.st, true);
    if (!d.empty()) return x.fail(cls, what + ": " + d);
    if (bpak_valid_header(x.h)) return x.fail(cls, what + ": the header is no longer valid");
}
static void hdr_offsets(Hdr &x) {
    bool t = false;
    bpak_foreach_part(x.h, p) if (p->id && (p->flags & F_TRANSPORT)) t = true;
    if (t) return;
    bpak_foreach_part(x.h, p) if (p->id) p->offset = bpak_part_offset(x.h, p);
    uint64_t off = HDR;
    for (auto &q : x.st.parts) { q.offset = off; off += q.size + q.pad; }
}
static void hdr_step(Hdr &x, const std::string &s) {
    std::vector<std::string> v = cut(s, ',');
    const std::string &k = v[0];
    Bytes before = x.raw();
    auto refused = [&](int rc, const std::string &what) {
        if (rc == 0) x.fail("accept-refused", what + " succeeded");
        else if (x.raw() != before) x.fail("not-intact", what + " failed, but the header changed");
    };
    if (k == "am" || k == "tm") {
        bool tm = k == "tm";
        uint32_t id = tm ? ID_TRANSPORT : num(v, 1), ref = num(v, tm ? 1 : 2); size_t size = tm ? 32 : num(v, 3) & 0xffff;
        struct bpak_meta_header *m = nullptr;
        bool can = id && x.st.metas.size() < 32 && !x.st.meta(id, ref) && x.st.meta_space_used() + size <= 1920;
        uint32_t seed = num(v, tm ? 2 : 4), dec = num(v, 3);
        int rc = tm ? bpak_add_transport_meta(x.h, ref, seed, dec) : bpak_add_meta(x.h, id, ref, size, &m);
        std::string what = strf("adding metadata %08x/%08x of %zu bytes", id, ref, size);
        if (!x.exact) { if (!tm && rc == 0 && m->offset + m->size <= 1920) memset(bpak_get_meta_ptr(x.h, m, uint8_t), seed, m->size); return; }
        if (!can) return refused(rc, what);
        if (rc) return x.fail("spurious-failure", what + strf(" failed (%d)", rc));
        Meta n; n.id = id; n.ref = ref; n.data.resize(size);
        if (tm) { wr32(n.data.data(), seed); wr32(n.data.data() + 4, dec); }
        else {
            if (m->id != id || m->part_id_ref != ref || m->size != size || m->offset + size > 1920) return x.fail("content", what + ": the new entry is wrong");
            uint64_t z = seed;
            for (size_t i = 0; i < size; i++) { z = z * 6364136223846793005ull + 1442695040888963407ull; n.data[i] = z >> 33; }
            if (size) memcpy(bpak_get_meta_ptr(x.h, m, uint8_t), n.data.data(), size);
        }
        x.st.metas.push_back(n);
        hdr_same(x, what);
    } else if (k == "dm") {
        uint32_t id = num(v, 1), ref = num(v, 2);
        struct bpak_meta_header *m = nullptr;
        if (bpak_get_meta(x.h, id, ref, &m) || !m) { if (x.exact && x.st.meta(id, ref)) x.fail("content", strf("metadata %08x/%08x is not found in the header", id, ref)); return; }
        bpak_del_meta(x.h, m);
        if (!x.exact) return;
        for (size_t i = 0; i < x.st.metas.size(); i++) if (x.st.metas[i].id == id && x.st.metas[i].ref == ref) { x.st.metas.erase(x.st.metas.begin() + i); break; }
        hdr_same(x, strf("removing metadata %08x/%08x", id, ref));
    } else if (k == "ap") {
        uint32_t id = num(v, 1); uint64_t size = num(v, 2);
        struct bpak_part_header *p = nullptr;
        bool can = id && x.st.parts.size() < 32 && !x.st.part(id);
        int rc = bpak_add_part(x.h, id, &p);
        std::string what = strf("adding part %08x to the header", id);
        if (!x.exact) return;
        if (!can) return refused(rc, what);
        if (rc) return x.fail("spurious-failure", what + strf(" failed (%d)", rc));
        if (p->id != id || p->size || p->pad_bytes || p->flags || p->transport_size) return x.fail("content", what + ": the new entry is not clean");
        Part n; n.id = id; n.size = size; n.pad = (512 - size % 512) % 512; n.flags = num(v, 3) & 1;
        p->size = n.size; p->pad_bytes = n.pad; p->flags = n.flags;
        x.st.parts.push_back(n);
        hdr_offsets(x);
        hdr_same(x, what);
    } else if (k == "dp") {
        uint32_t id = num(v, 1);
        struct bpak_part_header *p = nullptr;
        if (bpak_get_part(x.h, id, &p) || !p) { if (x.exact && x.st.part(id)) x.fail("content", strf("part %08x is not found in the header", id)); return; }
        bpak_del_part(x.h, p);
        if (!x.exact) return;
        for (size_t i = 0; i < x.st.parts.size(); i++) if (x.st.parts[i].id == id) { x.st.parts.erase(x.st.parts.begin() + i); break; }
        hdr_offsets(x);
        hdr_same(x, strf("removing part %08x", id));
    } else if (k == "id") {
        bpak_set_key_id(x.h, num(v, 1)); bpak_set_keystore_id(x.h, num(v, 2));
        if (!x.exact) return;
        x.st.key_id = num(v, 1); x.st.ks_id = num(v, 2);
        hdr_same(x, "setting the key ids");
    } else if (k == "hh") {
        uint8_t out[64]; size_t n = sizeof out;
        int rc = bpak_verify_compute_header_hash(x.h, out, &n);
        bool known = before[OFF_HK] >= 1 && before[OFF_HK] <= 3;
        if (!x.exact) return;
        if (rc) { if (known && !fault_in_op()) x.fail("spurious-failure", strf("computing the header hash failed (%d)", rc)); return; }
        Bytes want = ref_header_hash(before.data());
        if (n != want.size() || memcmp(out, want.data(), n)) x.fail("signature", "the reported header hash is not the hash of the header without its signature");
        if (x.raw() != before) x.fail("input-modified", "computing the header hash changed the header");
    } else if (k == "cz") {
        size_t cap = num(v, 1), n = cap;
        uint8_t *buf = (uint8_t *)malloc(cap ? cap : 1);
        int rc = bpak_copyz_signature(x.h, buf, &n);
        size_t have = rd16(&before[OFF_SIGSZ]);
        Bytes got(buf, buf + std::min(n, cap));
        free(buf);
        if (have == 0 || have > 512 || have > cap) return refused(rc, strf("taking a signature of %zu bytes into %zu", have, cap));
        if (rc) return x.fail("spurious-failure", strf("taking a signature of %zu bytes into %zu failed (%d)", have, cap, rc));
        if (n != have || got != Bytes(&before[OFF_SIG], &before[OFF_SIG] + have)) return x.fail("signature", "the signature that was taken is not the one in the header");
        memset(&before[OFF_SIG], 0, 514);
        if (x.raw() != before) x.fail("signature", "taking the signature changed more than the signature, or left some of it");
        x.st.sig.clear(); x.st.sigtail.clear();
    } else if (k == "st") {
        size_t cap = num(v, 1);
        bpak_foreach_meta(x.h, m) {
            if (!m->id) continue;
            char *buf = (char *)malloc(cap ? cap : 1);
            memset(buf, 0x2e, cap ? cap : 1);
            int rc = bpak_meta_to_string(x.h, m, buf, cap);
            bool term = cap && memchr(buf, 0, cap);
            std::string got = term ? buf : "";
            free(buf);
            if (cap == 0) { if (rc == 0) x.fail("accept-refused", "writing a text into an empty buffer succeeded"); continue; }
            if (!term) { x.fail("show", strf("the text of metadata %08x is not terminated within %zu bytes", m->id, cap)); continue; }
            if (!x.exact || rc) continue;
            std::string want; Meta *q = x.st.meta(m->id, m->part_id_ref);
            if (q && cap > 200 && meta_text(*q, want) && got != want) x.fail("show", strf("metadata %08x is shown as %s, expected %s", m->id, esc(got).c_str(), esc(want).c_str()));
            if (q && cap <= 200 && meta_text(*q, want) && want.compare(0, got.size(), got) != 0) x.fail("show", strf("metadata %08x is shown as %s in %zu bytes, expected %s", m->id, esc(got).c_str(), cap, esc(want).c_str()));
        }
        if (x.raw() != before) x.fail("input-modified", "showing metadata changed the header");
    } else if (k == "es") {
        std::set<std::string> seen;
        for (int c = 0; c >= -BPAK_EXISTS; c--) {
            const char *t = bpak_error_string(c);
            if (!t || !*t || !seen.insert(t).second) x.fail("show", strf("error %d has no text of its own", c));
        }
        if (!bpak_error_string(1) || !bpak_error_string(-1000)) x.fail("show", "an unknown error has no text");
        static const char *hk[] = { "", "sha256", "sha384", "sha512" }, *sk[] = { "", "rsa4096", "prime256v1", "secp384r1", "secp521r1" };
        for (int i = 1; i <= 3; i++) if (std::string(bpak_hash_kind(i)) != hk[i]) x.fail("show", strf("hash kind %d is called %s", i, bpak_hash_kind(i)));
        for (int i = 1; i <= 4; i++) if (std::string(bpak_signature_kind(i)) != sk[i]) x.fail("show", strf("signature kind %d is called %s", i, bpak_signature_kind(i)));
        for (const char *n : { "bpak-package", "bpak-transport", "merkle-salt", "merkle-root-hash", "pb-load-addr", "bpak-version", "keystore-provider-id" })
            if (bpak_id_to_string(ref_id(n)) != std::string(n)) x.fail("show", strf("id of %s is not named so", n));
    } else if (k == "bx") {
        size_t n = num(v, 1), cap = num(v, 2);
        uint8_t *in = (uint8_t *)malloc(n ? n : 1); char *buf = (char *)malloc(cap ? cap : 1);
        for (size_t i = 0; i < n; i++) in[i] = i * 37 + n;
        int rc = bpak_bin2hex(in, n, buf, cap);
        std::string want = hex(in, n);
        if (rc == 0) { if (cap < 2 * n + 1 || memcmp(buf, want.c_str(), 2 * n + 1)) x.fail("show", "hexadecimal text is wrong"); }
        else if (cap >= 2 * n + 1) x.fail("spurious-failure", strf("%zu bytes do not fit a hexadecimal text of %zu", n, cap));
        free(in); free(buf);
    }
}
bool exec_hdr(const Op &o) {
    if (o.kind != "hdr") return false;
    std::string f = o.s("f");
    const Bytes *b = sim_file(f);
    bool known = W->pk.count(f) && !W->wild.count(f);
    Hdr x; x.h = (struct bpak_header *)malloc(HDR); x.exact = true;
    bool go = true;
    OpRes r;
    leak_begin();
    run_lib([&] {
        memset(x.h, 0xd7, HDR);
        if (o.i("fresh") || !b || b->size() < HDR) bpak_init_header(x.h);
        else {
            memcpy(x.h, b->data(), HDR);
            x.exact = known;
            go = bpak_valid_header(x.h) == 0;
        }
        if (!go) return 0;
        if (x.exact) {
            Bytes t = x.raw();
            Parsed p = ref_parse(t.data(), t.size(), true);
            if (!p.ok || !p.bad.empty()) {
                if (o.i("fresh")) x.fail("content", "a fresh header is not a valid package header: " + (p.ok ? p.bad[0] : p.err));
                x.exact = false;
            } else x.st = p.st;
        }
        for (auto &s : cut(o.s("steps"), ';')) {
            if (s.empty() || !x.bad.empty()) continue;
            if (x.exact) hdr_query(x);
            hdr_step(x, s);
        }
        if (x.exact && x.bad.empty()) hdr_query(x);
        return 0;
    }, r);
    W->outdigest = fnv(x.h, HDR, W->outdigest);
    free(x.h);
    if (!finish_common(o, r, {})) return true;
    if (r.how == H_RET && !x.bad.empty()) viol(x.cls, "header interface: " + x.bad);
    return true;
}
