#include "ref.h"
#include <cstdarg>
#include <cstdio>
#include <algorithm>
#include <sys/mman.h>
#include <mbedtls/pk.h>
#include <mbedtls/md.h>
#include "sim.h"

uint64_t fnv(const void *p, size_t n, uint64_t h) {
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
std::string strf(const char *fmt, ...) {
    char b[4096];
    va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    return b;
}
std::string hex(const void *p, size_t n) {
    std::string s; static const char *d = "0123456789abcdef";
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) { s += d[b[i] >> 4]; s += d[b[i] & 15]; }
    return s;
}
Bytes unhex(const std::string &s) {
    Bytes b;
    auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(v(s[i]) * 16 + v(s[i + 1]));
    return b;
}

// ------------------------------------------------------------------ SHA-2
static uint32_t K32[64];
static uint64_t K64[80], I512[8], I384[8];
static uint32_t I256[8];
static bool kinit = false;
// Constants are derived (integer roots of primes), not copied.
typedef unsigned __int128 u128;
static u128 mulhi_cmp_dummy;
static uint64_t frac_root(unsigned prime, int root) {
    // floor(frac(prime^(1/root)) * 2^64), by binary search on 72-bit x: x^root <= prime * 2^(64*root)
    // use long arithmetic via 256-bit limbs
    auto pow_le = [&](u128 x) {
        // big multiply using vectors of 32-bit limbs
        std::vector<uint32_t> a = { (uint32_t)x, (uint32_t)(x >> 32), (uint32_t)(x >> 64), (uint32_t)(x >> 96) };
        std::vector<uint32_t> r = { 1 };
        for (int k = 0; k < root; k++) {
            std::vector<uint32_t> o(r.size() + a.size(), 0);
            for (size_t i = 0; i < r.size(); i++) {
                uint64_t c = 0;
                for (size_t j = 0; j < a.size(); j++) {
                    uint64_t t = (uint64_t)r[i] * a[j] + o[i + j] + c;
                    o[i + j] = (uint32_t)t; c = t >> 32;
                }
                o[i + a.size()] += (uint32_t)c;
            }
            r = o;
        }
        std::vector<uint32_t> t(r.size() + 1, 0);
        t.resize(std::max<size_t>(r.size(), 2 * root + 2), 0);
        r.resize(t.size(), 0);
        t[2 * root] = prime;
        for (size_t i = t.size(); i-- > 0;) if (r[i] != t[i]) return r[i] < t[i];
        return true;
    };
    u128 lo = 0, hi = (u128)32 << 64;
    while (hi - lo > 1) { u128 m = lo + (hi - lo) / 2; if (pow_le(m)) lo = m; else hi = m; }
    (void)mulhi_cmp_dummy;
    return (uint64_t)lo;
}
static void sha_init_tables() {
    if (kinit) return;
    std::vector<unsigned> pr;
    for (unsigned n = 2; pr.size() < 80; n++) {
        bool p = true;
        for (unsigned q : pr) if (n % q == 0) { p = false; break; }
        if (p) pr.push_back(n);
    }
    for (int i = 0; i < 80; i++) { K64[i] = frac_root(pr[i], 3); if (i < 64) K32[i] = K64[i] >> 32; }
    for (int i = 0; i < 8; i++) { I512[i] = frac_root(pr[i], 2); I256[i] = I512[i] >> 32; }
    for (int i = 0; i < 8; i++) I384[i] = frac_root(pr[8 + i], 2);
    kinit = true;
}
Sha2::Sha2(int k) : kind(k), fill(0), total(0) {
    sha_init_tables();
    for (int i = 0; i < 8; i++) { h32[i] = I256[i]; h64[i] = k == 2 ? I384[i] : I512[i]; }
}
static inline uint32_t r32(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
static inline uint64_t r64(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
static void blk32(uint32_t *H, const uint8_t *p) {
    uint32_t w[64];
    for (int i = 0; i < 16; i++) w[i] = (uint32_t)p[4*i] << 24 | p[4*i+1] << 16 | p[4*i+2] << 8 | p[4*i+3];
    for (int i = 16; i < 64; i++) {
        uint32_t a = w[i-15], b = w[i-2];
        w[i] = w[i-16] + (r32(a,7) ^ r32(a,18) ^ (a >> 3)) + w[i-7] + (r32(b,17) ^ r32(b,19) ^ (b >> 10));
    }
    uint32_t a=H[0],b=H[1],c=H[2],d=H[3],e=H[4],f=H[5],g=H[6],h=H[7];
    for (int i = 0; i < 64; i++) {
        uint32_t t1 = h + (r32(e,6)^r32(e,11)^r32(e,25)) + ((e&f)^(~e&g)) + K32[i] + w[i];
        uint32_t t2 = (r32(a,2)^r32(a,13)^r32(a,22)) + ((a&b)^(a&c)^(b&c));
        h=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2;
    }
    H[0]+=a;H[1]+=b;H[2]+=c;H[3]+=d;H[4]+=e;H[5]+=f;H[6]+=g;H[7]+=h;
}
static void blk64(uint64_t *H, const uint8_t *p) {
    uint64_t w[80];
    for (int i = 0; i < 16; i++) { uint64_t v = 0; for (int j = 0; j < 8; j++) v = v << 8 | p[8*i+j]; w[i] = v; }
    for (int i = 16; i < 80; i++) {
        uint64_t a = w[i-15], b = w[i-2];
        w[i] = w[i-16] + (r64(a,1)^r64(a,8)^(a>>7)) + w[i-7] + (r64(b,19)^r64(b,61)^(b>>6));
    }
    uint64_t a=H[0],b=H[1],c=H[2],d=H[3],e=H[4],f=H[5],g=H[6],h=H[7];
    for (int i = 0; i < 80; i++) {
        uint64_t t1 = h + (r64(e,14)^r64(e,18)^r64(e,41)) + ((e&f)^(~e&g)) + K64[i] + w[i];
        uint64_t t2 = (r64(a,28)^r64(a,34)^r64(a,39)) + ((a&b)^(a&c)^(b&c));
        h=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2;
    }
    H[0]+=a;H[1]+=b;H[2]+=c;H[3]+=d;H[4]+=e;H[5]+=f;H[6]+=g;H[7]+=h;
}
void Sha2::update(const void *vp, size_t n) {
    const uint8_t *p = (const uint8_t *)vp;
    size_t bs = kind == 1 ? 64 : 128;
    total += n;
    while (n) {
        if (fill == 0 && n >= bs) {
            if (kind == 1) blk32(h32, p); else blk64(h64, p);
            p += bs; n -= bs; continue;
        }
        size_t k = std::min(n, bs - fill);
        memcpy(buf + fill, p, k); fill += k; p += k; n -= k;
        if (fill == bs) { if (kind == 1) blk32(h32, buf); else blk64(h64, buf); fill = 0; }
    }
}
Bytes Sha2::final() {
    size_t bs = kind == 1 ? 64 : 128, ls = kind == 1 ? 8 : 16;
    uint64_t bits = total * 8;
    uint8_t one = 0x80, z = 0;
    update(&one, 1);
    while (fill != bs - ls) update(&z, 1);
    uint8_t l[16] = { 0 };
    for (int i = 0; i < 8; i++) l[ls - 1 - i] = bits >> (8 * i);
    update(l, ls);
    Bytes o;
    if (kind == 1) for (int i = 0; i < 8; i++) for (int j = 3; j >= 0; j--) o.push_back(h32[i] >> (8 * j));
    else for (int i = 0; i < (kind == 2 ? 6 : 8); i++) for (int j = 7; j >= 0; j--) o.push_back(h64[i] >> (8 * j));
    return o;
}
Bytes sha2(int kind, const void *p, size_t n) { Sha2 s(kind); s.update(p, n); return s.final(); }

uint32_t ref_crc(uint32_t c, const void *vp, size_t n) {
    const uint8_t *p = (const uint8_t *)vp;
    for (size_t i = 0; i < n; i++) {
        c ^= p[i];
        for (int k = 0; k < 8; k++) c = (c & 1) ? (c >> 1) ^ 0xEDB88320u : c >> 1;
    }
    return c;
}

// ------------------------------------------------------------------ hash tree
bool ref_merkle(const uint8_t *data, size_t len, const uint8_t *salt, Bytes &tree, Bytes &root) {
    if (len == 0 || len % 4096) return false;
    auto H = [&](const uint8_t *p) { Sha2 s(1); s.update(salt, 32); s.update(p, 4096); return s.final(); };
    std::vector<Bytes> levels;
    Bytes cur(data, data + len);
    do {
        Bytes l;
        for (size_t o = 0; o < cur.size(); o += 4096) { Bytes h = H(&cur[o]); l.insert(l.end(), h.begin(), h.end()); }
        l.resize((l.size() + 4095) / 4096 * 4096, 0);
        levels.push_back(l);
        cur = l;
    } while (cur.size() > 4096);
    tree.clear();
    for (size_t i = levels.size(); i-- > 0;) tree.insert(tree.end(), levels[i].begin(), levels[i].end());
    if (len == 4096) root.assign(cur.begin(), cur.begin() + 32);
    else root = H(cur.data());
    return true;
}

// ------------------------------------------------------------------ package
Part *PState::part(uint32_t id) { for (auto &p : parts) if (p.id == id) return &p; return nullptr; }
Meta *PState::meta(uint32_t id, uint32_t ref) { for (auto &m : metas) if (m.id == id && m.ref == ref) return &m; return nullptr; }
int PState::meta_space_used() const { int n = 0; for (auto &m : metas) n += (m.data.size() + 7) & ~7; return n; }

Parsed ref_parse(const uint8_t *p, size_t n, bool header_only) {
    Parsed r;
    r.file_len = n;
    if (n < HDR) { r.err = strf("file is only %zu bytes", n); return r; }
    if (rd32(p) != 0x42504132) { r.err = "bad magic"; return r; }
    PState &s = r.st;
    s.hk = p[OFF_HK]; s.sk = p[OFF_SK];
    s.key_id = rd32(p + OFF_KEYID); s.ks_id = rd32(p + OFF_KSID);
    r.payload_hash.assign(p + OFF_PHASH, p + OFF_PHASH + 64);
    uint16_t ss = rd16(p + OFF_SIGSZ);
    if (ss > 512) { r.bad.push_back("signature size"); ss = 512; }
    s.sig.assign(p + OFF_SIG, p + OFF_SIG + ss);
    s.sigtail.assign(p + OFF_SIG + ss, p + OFF_SIG + 512);
    while (!s.sigtail.empty() && !s.sigtail.back()) s.sigtail.pop_back();
    if (rd16(p + OFF_ALIGN) != 512) r.bad.push_back("alignment field");
    std::vector<bool> used(1920, false);
    bool ended = false;
    for (int i = 0; i < 32; i++) {
        const uint8_t *m = p + OFF_META + 16 * i;
        uint32_t id = rd32(m); uint16_t sz = rd16(m + 4), off = rd16(m + 6);
        if (!id) { ended = true; if (sz || off || rd32(m + 8)) r.bad.push_back(strf("unused metadata slot %d not clear", i)); continue; }
        if (ended) r.bad.push_back(strf("metadata slot %d after end of table", i));
        if (off + sz > 1920) { r.bad.push_back(strf("metadata %08x out of area", id)); r.err = "metadata out of area"; return r; }
        for (int k = 0; k < sz; k++) {
            if (used[off + k]) { r.bad.push_back(strf("metadata %08x overlaps another value", id)); break; }
            used[off + k] = true;
        }
        Meta mm; mm.id = id; mm.ref = rd32(m + 8);
        mm.data.assign(p + OFF_METADATA + off, p + OFF_METADATA + off + sz);
        if (s.meta(id, mm.ref)) r.bad.push_back(strf("metadata %08x/%08x twice", id, mm.ref));
        s.metas.push_back(mm);
    }
    ended = false;
    uint64_t pos = HDR, dec = HDR;
    bool any_t = false;
    for (int i = 0; i < 32; i++) {
        const uint8_t *q = p + OFF_PARTS + 32 * i;
        Part pt; pt.id = rd32(q); pt.size = rd64(q + 4); pt.offset = rd64(q + 12); pt.tsize = rd64(q + 20);
        pt.pad = rd16(q + 28); pt.flags = q[30];
        if (!pt.id) {
            ended = true;
            for (int k = 0; k < 32; k++) if (q[k]) { r.bad.push_back(strf("unused part slot %d not clear", i)); break; }
            continue;
        }
        if (ended) r.bad.push_back(strf("part slot %d after end of table", i));
        if (pt.flags & F_TRANSPORT) any_t = true;
        if (s.part(pt.id)) r.bad.push_back(strf("part %08x twice", pt.id));
        uint64_t sl = pt.stored_len();
        if (!header_only) {
            if (sl > n || pos + sl > n) {
                r.bad.push_back(strf("part %08x reaches beyond the file (%llu+%llu > %zu)", pt.id, (unsigned long long)pos, (unsigned long long)sl, n));
                r.err = "part beyond file"; return r;
            }
            pt.stored = std::make_shared<const Bytes>(p + pos, p + pos + sl);
            if (!(pt.flags & F_TRANSPORT)) {
                if ((pt.size + pt.pad) % 512) r.bad.push_back(strf("part %08x not padded to 512", pt.id));
                if (pt.pad >= 512) r.bad.push_back(strf("part %08x pad %u", pt.id, pt.pad));
                for (uint64_t k = pt.size; k < sl; k++) if ((*pt.stored)[k]) { r.bad.push_back(strf("part %08x padding not zero", pt.id)); break; }
                if (pt.tsize) r.bad.push_back(strf("part %08x has transport size but is not encoded", pt.id));
            }
        }
        if (!any_t && pt.offset != dec) r.bad.push_back(strf("part %08x offset field %llu, expected %llu", pt.id, (unsigned long long)pt.offset, (unsigned long long)dec));
        pos += sl; dec += pt.size + pt.pad;
        s.parts.push_back(pt);
    }
    r.end = pos;
    r.ok = true;
    return r;
}
Bytes ref_header_hash(const uint8_t *h) {
    Bytes b(h, h + HDR);
    memset(&b[OFF_SIG], 0, 514);
    return sha2(h[OFF_HK], b.data(), HDR);
}
Bytes ref_payload_hash(const PState &st) {
    Sha2 s(st.hk);
    for (auto &p : st.parts) if (!(p.flags & F_NOHASH)) s.update(p.stored->data(), p.stored->size());
    return s.final();
}
// Verification is a pure function and by far the dearest thing the oracle does:
// its results are shared between the runs of one worker.
struct Memo { uint64_t k[2]; uint64_t r; };
static Memo *memo;
enum { NMEMO = 1 << 15 };
void ref_memo_init() {
    void *p = mmap(nullptr, sizeof(Memo) * NMEMO, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p != MAP_FAILED) memo = (Memo *)p;
}
static bool ref_pk_verify_slow(const std::string &key, int hk, const Bytes &hash, const uint8_t *sig, size_t n);
bool ref_pk_verify(const std::string &key, int hk, const Bytes &hash, const uint8_t *sig, size_t n) {
    if (!memo) return ref_pk_verify_slow(key, hk, hash, sig, n);
    std::string all = key + "|" + (char)hk + std::string((const char *)hash.data(), hash.size()) + "|" + std::string((const char *)sig, n);
    uint64_t a = fnv(all.data(), all.size(), 1469598103934665603ull), b = 0x9e3779b97f4a7c15ull;
    for (unsigned char c : all) { b ^= c; b *= 0xff51afd7ed558ccdull; b ^= b >> 29; }
    Memo &m = memo[a % NMEMO];
    if (m.k[0] != a || m.k[1] != b || !m.r) { uint64_t v = ref_pk_verify_slow(key, hk, hash, sig, n) ? 2 : 1; m.k[0] = a; m.k[1] = b; m.r = v; }
    return m.r == 2;
}
static bool ref_pk_verify_slow(const std::string &key, int hk, const Bytes &hash, const uint8_t *sig, size_t n) {
    const Bytes *der = sim_key_file(key + ".pub.der");
    if (!der) return false;
    mbedtls_pk_context pk;
    mbedtls_pk_init(&pk);
    int rc = mbedtls_pk_parse_public_key(&pk, der->data(), der->size());
    if (rc == 0) {
        mbedtls_md_type_t md = hk == 1 ? MBEDTLS_MD_SHA256 : hk == 2 ? MBEDTLS_MD_SHA384 : MBEDTLS_MD_SHA512;
        rc = mbedtls_pk_verify(&pk, md, hash.data(), hash.size(), sig, n);
    }
    mbedtls_pk_free(&pk);
    return rc == 0;
}
static int det_rng(void *st, unsigned char *b, size_t n) { Rng *r = (Rng *)st; for (size_t i = 0; i < n; i++) b[i] = r->next(); return 0; }
Bytes ref_pk_sign(const Bytes &pem, int hk, const Bytes &hash) {
    mbedtls_pk_context pk;
    mbedtls_pk_init(&pk);
    Bytes z = pem; z.push_back(0);
    Bytes out(1200);
    size_t n = 0;
    Rng r(77);
    mbedtls_md_type_t md = hk == 1 ? MBEDTLS_MD_SHA256 : hk == 2 ? MBEDTLS_MD_SHA384 : MBEDTLS_MD_SHA512;
    int rc = mbedtls_pk_parse_key(&pk, z.data(), z.size(), nullptr, 0);
    if (rc == 0) rc = mbedtls_pk_sign(&pk, md, hash.data(), hash.size(), out.data(), &n, det_rng, &r);
    mbedtls_pk_free(&pk);
    out.resize(rc == 0 ? n : 0);
    return out;
}
bool ref_verify(const Bytes &f, const std::string &key, std::string *why) {
    std::string dummy; if (!why) why = &dummy;
    Parsed r = ref_parse(f.data(), f.size());
    Bytes ext;
    if (!r.ok && r.err == "part beyond file") {
        // a missing end of parts that are excluded from hashing is not covered by the signature
        Parsed h = ref_parse(f.data(), HDR, true);
        uint64_t pos = HDR;
        bool only = h.ok;
        for (auto &p : h.st.parts) { pos += p.stored_len(); if (p.stored_len() > (64u << 20) || (pos > f.size() && p.stored_len() && !(p.flags & F_NOHASH))) only = false; }
        if (only && pos < (64u << 20)) { ext = f; ext.resize(pos); r = ref_parse(ext.data(), ext.size()); }
    }
    if (!r.ok) { *why = r.err; return false; }
    if (r.st.hk < 1 || r.st.hk > 3) { *why = "hash kind"; return false; }
    if (rd16(&f[OFF_SIGSZ]) > 512) { *why = "signature size"; return false; }
    if (!ref_pk_verify(key, r.st.hk, ref_header_hash(f.data()), r.st.sig.data(), r.st.sig.size())) { *why = "signature"; return false; }
    Bytes ph = ref_payload_hash(r.st);
    if (memcmp(ph.data(), r.payload_hash.data(), ph.size())) { *why = "payload hash"; return false; }
    for (auto &p : r.st.parts) {
        Meta *root = r.st.meta(ID_ROOT, p.id);
        if (!root) continue;
        Meta *salt = r.st.meta(ID_SALT, p.id);
        Part *tp = r.st.part(ref_tree_id(p.id));
        Bytes t, rt;
        if (salt && tp && (salt->data.size() != 32 || root->data.size() != 32)) continue;      // undecided
        if (!salt || !tp) { *why = "tree incomplete"; return false; }
        if (!ref_merkle(p.stored->data(), p.stored->size(), salt->data.data(), t, rt)) { *why = "tree size"; return false; }
        if (tp->stored->size() < t.size() || memcmp(tp->stored->data(), t.data(), p.stored->size() == 4096 ? 32 : t.size())) { *why = "tree"; return false; }
        if (memcmp(rt.data(), root->data.data(), 32)) { *why = "root hash"; return false; }
    }
    return true;
}
