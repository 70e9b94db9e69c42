// A package of many gigabytes: a part full of zeros that is not stored is put into the table
// of an ordinary package.  Everything else must work as before, wherever it now lies.
#include "world.h"
#include <sys/stat.h>

bool finish_common(const Op &o, OpRes &r, const std::set<std::string> &outs);
int run_transport(const Op &o, OpRes &r, bool enc);
std::string esc(const std::string &s, size_t n = 160);
void free_key(struct bpak_key *k);
bool ref_payload_ok(const Bytes &b, std::string *why);
bool transport_sure(const Bytes &t, const Bytes &o);
int lib_edit(bpak_package *p, const Op &o);
std::vector<std::string> cli_edit(const Op &o, const std::string &f);

static const char *BIG = "big.bpak";
static uint32_t HID() { return ref_id("big-part"); }
struct Big { Bytes base; int slot = 0; uint64_t size = 0; uint16_t pad = 0; };

static Bytes inflate(const Big &b, const std::string &key, int64_t &at) {
    Bytes h = b.base;
    Parsed p = ref_parse(h.data(), h.size());
    size_t n = p.st.parts.size();
    at = HDR;
    for (int i = 0; i < b.slot; i++) at += p.st.parts[i].size + p.st.parts[i].pad;
    uint64_t len = b.size + b.pad;
    uint8_t *t = &h[OFF_PARTS];
    memmove(t + 32 * (b.slot + 1), t + 32 * b.slot, 32 * (n - b.slot));
    uint8_t *e = t + 32 * b.slot;
    memset(e, 0, 32);
    wr32(e, HID()); wr64(e + 4, b.size); wr64(e + 12, at); wr16(e + 28, b.pad); e[30] = F_NOHASH;
    for (size_t i = b.slot + 1; i <= n; i++) wr64(t + 32 * i + 12, rd64(t + 32 * i + 12) + len);
    const Bytes *pem = sim_key_file(key + ".pem");
    Bytes s = pem ? ref_pk_sign(*pem, h[OFF_HK], ref_header_hash(h.data())) : Bytes();
    memset(&h[OFF_SIG], 0, 514);
    if (!s.empty() && s.size() <= 512) { memcpy(&h[OFF_SIG], s.data(), s.size()); wr16(&h[OFF_SIGSZ], s.size()); }
    return h;
}
// the same package without the big part; "" or what is wrong with it
static std::string deflate(const Big &b, const Inode &f, bool gone, Bytes &out) {
    out = f.data;
    if (out.size() < HDR) return "the header is gone";
    uint8_t *t = &out[OFF_PARTS];
    int at = -1;
    int64_t off = HDR;
    for (int i = 0; i < 32 && at < 0; i++) { if (rd32(t + 32 * i) == HID()) at = i; else if (rd32(t + 32 * i)) off += rd64(t + 32 * i + 4) + rd16(t + 32 * i + 28); }
    if (gone) {
        if (at >= 0) return "the deleted big part is still listed";
        if (f.hole_len) return strf("the file is %lld bytes long although the big part was deleted", (long long)f.size());
        return "";
    }
    uint64_t len = b.size + b.pad;
    if (at < 0) return "the big part is gone";
    const uint8_t *e = t + 32 * at;
    if (rd64(e + 4) != b.size || rd16(e + 28) != b.pad || rd64(e + 12) != (uint64_t)off || e[30] != F_NOHASH || rd64(e + 20)) return "the entry of the big part changed";
    if (f.hole_at != off || f.hole_len != (int64_t)len) return "the contents of the big part changed";
    memmove(t + 32 * at, t + 32 * (at + 1), 32 * (31 - at));
    memset(t + 32 * 31, 0, 32);
    for (int i = at; i < 31; i++) if (rd32(t + 32 * i)) wr64(t + 32 * i + 12, rd64(t + 32 * i + 12) - len);
    return "";
}
static InodeP bigf() { auto i = g.files.find(BIG); return i == g.files.end() ? nullptr : i->second; }
static ssize_t big_read(off_t off, uint8_t *b, size_t n, void *u) {
    InodeP f = bigf();
    int64_t p = off - *(int64_t *)u + HDR;
    if (p < HDR || p > f->size()) return n ? -BPAK_READ_ERROR : 0;
    size_t k = std::min<int64_t>(n, f->size() - p);
    f->rd(p, b, k);
    return k;
}
void exec_big(const Op &o) {
    std::string f = o.s("f"), key = o.s("key", "p256a");
    const Bytes *src = sim_file(f);
    if (!src || !W->pk.count(f) || W->wild.count(f)) return;
    Parsed p = ref_parse(src->data(), src->size());
    if (!p.ok || !p.bad.empty() || p.end != p.file_len || p.st.parts.size() > 30 || p.st.part(HID())) return;
    for (auto &q : p.st.parts) if (q.flags & F_TRANSPORT) return;
    for (auto &c : W->pk[f].cands) if (c.hash_stale) return;
    Big b;
    b.base = *src;
    b.slot = o.i("slot") % (p.st.parts.size() + 1);
    b.size = o.i("size"); b.pad = (512 - b.size % 512) % 512;
    int64_t at;
    Bytes img = inflate(b, key, at);
    PState exp = p.st;
    exp.sig.assign(&img[OFF_SIG], &img[OFF_SIG] + rd16(&img[OFF_SIGSZ]));
    sim_put(BIG, img);
    InodeP ino = bigf();
    ino->hole_at = at; ino->hole_len = b.size + b.pad;
    std::set<std::string> mine = { BIG, "bigout", "big.tr", "big.dec" };
    bool gone = false;
    std::string w;
    for (char step : o.s("do")) {
        if (!bigf()) break;
        ino = bigf();
        OpRes r;
        g.stdout_fault = false;
        std::string why0;
        Bytes flat;
        bool sound = deflate(b, *ino, gone, flat).empty() && ref_payload_ok(flat, &why0);
        bool cli = o.i("cli");
        bool has = !exp.parts.empty();
        const Part *q = has ? &exp.parts[o.i("part") % exp.parts.size()] : nullptr;
        leak_begin();
        auto done = [&]() -> bool {
            if (!finish_common(o, r, mine) || r.how != H_RET) return false;
            return true;
        };
        auto refused = [&](const char *what) { if (!r.ok && !fault_in_op()) viol("spurious-failure", strf("%s with a part of %llu bytes failed (%d): %s", what, (unsigned long long)b.size, r.rc, esc(r.err, 120).c_str())); };
        auto verify = [&](OpRes &x) {
            if (cli) { run_cli({ "verify", BIG, "-k", key + ".pub.pem" }, Bytes(), x); return; }
            bpak_package *pk = new_pkg();
            run_lib([&] {
                int rc = bpak_pkg_open(pk, BIG, "rb");
                if (rc) return rc;
                struct bpak_key *k = nullptr;
                rc = bpak_crypto_load_public_key((key + ".pub.pem").c_str(), &k);
                if (!rc) { rc = bpak_pkg_verify(pk, k); free_key(k); }
                int rc2 = bpak_pkg_close(pk);
                return rc ? rc : rc2;
            }, x);
            free(pk);
        };
        switch (step) {
        case 'v':
            verify(r);
            if (!done()) goto out;
            if (r.ok && (!sound || exp.sig.empty())) viol("verify-accept", strf("a package with a part of %llu bytes verifies although %s", (unsigned long long)b.size, exp.sig.empty() ? "it is not signed" : why0.c_str()));
            if (!fault_in_op() && !r.ok && sound && !exp.sig.empty()) viol("verify-reject", strf("an intact package with a part of %llu bytes does not verify (%d)", (unsigned long long)b.size, r.rc));
            break;
        case 'd': {       // damage behind the big part
            size_t hs = 0, k = 0;
            for (auto &x : exp.parts) { if (!(x.flags & F_NOHASH) && x.stored_len()) hs = x.offset + x.stored_len(); }
            if (!hs) break;
            k = hs - 1 - o.i("part") % 512;
            if (k >= ino->data.size()) break;
            ino->data[k] ^= 0x40;
            verify(r);
            ino->data[k] ^= 0x40;
            if (!done()) goto out;
            if (r.ok) viol("verify-accept", strf("a package damaged behind a part of %llu bytes verifies", (unsigned long long)b.size));
            break;
        }
        case 's': {       // payload verification through callbacks
            int64_t base = o.i("ibase", 4096);
            auto *h = (struct bpak_header *)malloc(HDR);
            memcpy(h, ino->data.data(), HDR);
            run_lib([&] { return bpak_verify_payload(h, big_read, base, &base); }, r);
            free(h);
            if (!done()) goto out;
            if (r.ok && !sound) viol("verify-accept", "payload verification succeeded although: " + why0);
            if (!r.ok && !fault_in_op() && sound) viol("verify-reject", strf("payload verification with a part of %llu bytes failed (%d)", (unsigned long long)b.size, r.rc));
            break;
        }
        case 'x':
            if (!q) break;
            if (cli) run_cli({ "extract", BIG, "-p", strf("0x%08x", q->id), "-o", "bigout" }, Bytes(), r);
            else {
                bpak_package *pk = new_pkg();
                run_lib([&] { int rc = bpak_pkg_open(pk, BIG, "rb"); if (rc) return rc; rc = bpak_pkg_extract_file(pk, q->id, "bigout"); int rc2 = bpak_pkg_close(pk); return rc ? rc : rc2; }, r);
                free(pk);
            }
            if (!done()) goto out;
            refused("extraction");
            if (r.ok && (!sim_file("bigout") || *sim_file("bigout") != Bytes(q->stored->begin(), q->stored->begin() + q->size))) viol(fault_in_op() ? "lost-effect" : "extract-data", strf("a part extracted next to one of %llu bytes differs", (unsigned long long)b.size));
            break;
        case 'h': {
            if (!q) break;
            Bytes got(32);
            Bytes want = sha2(1, q->stored->data(), q->size);
            if (cli) { run_cli({ "show", BIG, "-P", strf("0x%08x", q->id) }, Bytes(), r); if (r.out.size() >= 65) got = unhex(r.out.substr(r.out.size() - 65, 64)); if (g.stdout_fault) got = want; }
            else {
                bpak_package *pk = new_pkg();
                uint8_t *buf = (uint8_t *)malloc(32); memset(buf, g.env.fill, 32);
                run_lib([&] { int rc = bpak_pkg_open(pk, BIG, "rb"); if (rc) return rc; rc = bpak_pkg_part_sha256(pk, buf, 32, q->id); int rc2 = bpak_pkg_close(pk); return rc ? rc : rc2; }, r);
                got.assign(buf, buf + 32);
                free(pk); free(buf);
            }
            if (!done()) goto out;
            refused("hashing a part");
            if (r.ok && got != want) viol("parthash", strf("part hash next to a part of %llu bytes is wrong", (unsigned long long)b.size));
            break;
        }
        case 'i': {
            run_cli({ "show", BIG }, Bytes(), r);
            if (!done()) goto out;
            refused("show");
            if (!r.ok || g.stdout_fault) break;
            auto need = [&](const std::string &s) { if (r.out.find(s) == std::string::npos) viol("show", strf("bpak show does not print '%s'", esc(s).c_str())); };
            if (!gone) need(strf("    %8.8x   %-12llu %-3u    h-------       %-12llu\n", HID(), (unsigned long long)b.size, b.pad, (unsigned long long)b.size));
            Bytes h = ref_header_hash(ino->data.data()), ph = ref_payload_hash(exp);
            need("Header hash:  " + hex(h.data(), h.size()) + "\n");
            need("Payload hash: " + hex(ph.data(), ph.size()) + "\n");
            if (r.out.find("Warning") != std::string::npos) viol("show", "show warns about the payload hash of an intact package");
            if (o.i("verb")) {
                uint64_t ts = HDR, is = 0;
                for (auto &x : exp.parts) { ts += x.size; is += x.size + x.pad; }
                if (!gone) { ts += b.size; is += b.size + b.pad; }
                need(strf("Transport size: %llu bytes\n", (unsigned long long)ts));
                need(strf("Installed size: %llu bytes\n", (unsigned long long)is));
            }
            break;
        }
        case 'c': {       // against the package without the big part
            if (gone || exp.parts.size() != p.st.parts.size()) break;
            bool swap = o.i("part") & 1;
            run_cli({ "compare", swap ? f : BIG, swap ? BIG : f }, Bytes(), r);
            if (!done()) goto out;
            refused("comparing");
            if (!r.ok || g.stdout_fault) break;
            std::string s = r.out.substr(std::min(r.out.size(), r.out.find("Parts:")));
            auto mark = [&](uint32_t id) { std::string k = strf("   %8.8x", id); size_t a = s.find(k); return a == std::string::npos || !a ? '?' : s[a - 1]; };
            if (mark(HID()) != (swap ? '+' : '-')) viol("compare", "a part that only one package has is not marked");
            for (size_t i = 0; i < p.st.parts.size(); i++) { char c = mark(p.st.parts[i].id); if (c != '=' && !((int)i >= b.slot && c == '*')) viol("compare", strf("an equal part is marked '%c'", c)); }
            break;
        }
        case 'a': case 'm': case 'r': case 'A': {       // add a part, metadata, remove a part behind, remove all
            Op e; e.id = o.id; e.a = o.a;
            for (auto n : { "part", "key", "f", "size", "slot", "do", "t" }) e.a.erase(n);
            Inputs in;
            if (step == 'a') { if (!sim_file(o.s("in")) || exp.parts.size() > 30) break; e.kind = "addfile"; e.a["part"] = "new-part"; e.a["in"] = o.s("in"); in.in = sim_file(o.s("in")); if (o.i("merkle")) e.a["merkle"] = "1"; }
            else if (step == 'm') { e.kind = "addmeta"; e.a["id"] = "new-meta"; e.a["str"] = "value"; }
            else if (step == 'r') { if (!has || (!gone && b.slot >= (int)exp.parts.size())) break; e.kind = "delpart"; int from = gone ? 0 : b.slot; e.a["part"] = strf("0x%08x", exp.parts[from + o.i("part") % (exp.parts.size() - from)].id); }
            else { e.kind = "delall"; }
            PState after = exp;
            std::string why;
            Exp x = model_apply(after, e, in, why);
            if (x == E_EITHER) break;
            if (cli) run_cli(cli_edit(e, BIG), Bytes(), r);
            else {
                bpak_package *pk = new_pkg();
                run_lib([&] { int rc = bpak_pkg_open(pk, BIG, "r+"); if (rc) return rc; rc = lib_edit(pk, e); int rc2 = bpak_pkg_close(pk); return rc ? rc : rc2; }, r);
                free(pk);
            }
            if (!done()) goto out;
            if (x == E_REFUSE) { if (r.ok) viol("accept-refused", "an edit that must be refused succeeded: " + why); goto out; }
            refused(e.kind.c_str());
            if (!r.ok) goto out;
            if (step == 'A') gone = true;
            Bytes now;
            std::string cls = "content";
            ino = bigf();
            w = ino ? deflate(b, *ino, gone, now) : "the file is gone";
            if (w.empty()) w = match_file(now, after, false, cls);
            if (!w.empty()) { viol(fault_in_op() ? "lost-effect" : cls, strf("after %s with a part of %llu bytes: %s", e.kind.c_str(), (unsigned long long)b.size, w.c_str())); goto out; }
            exp = after;
            { Parsed np = ref_parse(now.data(), now.size()); for (auto &z : exp.parts) if (Part *y = np.st.part(z.id)) z = *y; }
            break;
        }
        case 'R': {       // remove the big part
            if (gone) break;
            Op e; e.id = o.id; e.kind = "delpart"; e.a["part"] = "big-part";
            if (cli) run_cli(cli_edit(e, BIG), Bytes(), r);
            else {
                bpak_package *pk = new_pkg();
                run_lib([&] { int rc = bpak_pkg_open(pk, BIG, "r+"); if (rc) return rc; rc = lib_edit(pk, e); int rc2 = bpak_pkg_close(pk); return rc ? rc : rc2; }, r);
                free(pk);
            }
            if (!done()) goto out;
            refused("deleting");
            if (!r.ok) goto out;
            gone = true;
            Bytes now;
            std::string cls = "content";
            ino = bigf();
            w = ino ? deflate(b, *ino, gone, now) : "the file is gone";
            if (w.empty()) w = match_file(now, exp, false, cls);
            if (!w.empty()) { viol(fault_in_op() ? "lost-effect" : cls, strf("after deleting a part of %llu bytes: %s", (unsigned long long)b.size, w.c_str())); goto out; }
            break;
        }
        case 't': {       // a transport package made against it, and back
            std::string tf = o.s("t");
            const Bytes *t = sim_file(tf);
            if (!t || !W->pk.count(tf) || W->any_fault || !transport_sure(*t, flat)) break;
            Bytes want = *t;
            Op e; e.id = o.id; e.kind = "encode";
            e.a["f"] = tf; e.a["origin"] = BIG; e.a["o"] = "big.tr"; e.a["via"] = cli ? "cli" : "lib";
            run_transport(e, r, true);
            if (!done()) goto out;
            if (!r.ok) { refused("encoding against an origin"); goto out; }
            Op d = e; d.kind = "decode"; d.a["f"] = "big.tr"; d.a["o"] = "big.dec";
            OpRes r2;
            leak_begin();
            run_transport(d, r2, false);
            r = r2;
            if (!done()) goto out;
            refused("decoding against an origin");
            if (r.ok && sim_file("big.dec") && *sim_file("big.dec") != want) viol(fault_in_op() ? "decode-accept" : "roundtrip", strf("decoding against an origin with a part of %llu bytes gives another package", (unsigned long long)b.size));
            break;
        }
        }
    }
out:
    for (auto &n : mine) { sim_remove(n); W->wild.erase(n); W->pk.erase(n); W->snap.erase(n); }
}
