// Independent reference implementations: SHA-2, CRC-32 ids, dm-verity style
// hash trees, package parser, package verifier and patch construction helpers.
// Nothing here calls code of the system under test.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include <map>

typedef std::vector<uint8_t> Bytes;

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool p(double x) { return (next() >> 11) * (1.0 / 9007199254740992.0) < x; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

// ---------------------------------------------------------------- SHA-2
struct Sha2 {
    int kind;   // 1 = 256, 2 = 384, 3 = 512
    uint32_t h32[8];
    uint64_t h64[8];
    uint8_t buf[128];
    size_t fill;
    uint64_t total;
    explicit Sha2(int kind);
    void update(const void *p, size_t n);
    Bytes final();
};
Bytes sha2(int kind, const void *p, size_t n);

uint32_t ref_crc(uint32_t start, const void *p, size_t n);
inline uint32_t ref_id(const std::string &s) { return ref_crc(0, s.data(), s.size()); }
inline uint32_t ref_tree_id(uint32_t part) { return ref_crc(part, "-hash-tree", 10); }

enum : uint32_t {
    ID_TRANSPORT = 0x2d44bbfb, ID_SALT = 0x7c9b2f93, ID_ROOT = 0xe68fc9be,
    ID_PROVIDER = 0xfb367d9a, ID_VERSION = 0x9a5bab69, ID_LOADADDR = 0xd1e64a4b,
    ID_PACKAGE = 0xfb2f1f3f, ID_KEYID = 0x7da19399, ID_KEYSTORE = 0x106c13a7,
    ALG_BSDIFF = 0x9f7aacf9, ALG_BSDIFF_LZMA = 0x1607e56e, ALG_BSDIFF_NC = 0x0a878e3e,
    ALG_BSPATCH = 0xb5964388, ALG_BSPATCH_LZMA = 0x933a9893, ALG_BSPATCH_NC = 0x75622592,
    ALG_MERKLE_GEN = 0xb5bcc58f, ALG_REMOVE = 0x57004cd0
};

// tree and root of data (length a non-zero multiple of 4096); false otherwise
bool ref_merkle(const uint8_t *data, size_t len, const uint8_t *salt, Bytes &tree, Bytes &root);

// ---------------------------------------------------------------- package
enum { F_NOHASH = 1, F_TRANSPORT = 2 };
struct Part {
    uint32_t id = 0;
    uint64_t size = 0, offset = 0, tsize = 0;
    uint16_t pad = 0;
    uint8_t flags = 0;
    std::shared_ptr<const Bytes> stored;     // bytes in the file, padding included
    uint64_t stored_len() const { return (flags & F_TRANSPORT) ? tsize : size + pad; }
    bool wild_tree = false;                  // contents to be adopted after checking
    uint32_t tree_of = 0;
};
struct Meta {
    uint32_t id = 0, ref = 0;
    Bytes data;
    bool wild = false;                       // salt/root to be adopted
};
struct PState {
    uint8_t hk = 1, sk = 2;
    uint32_t key_id = 0, ks_id = 0;
    std::vector<Part> parts;
    std::vector<Meta> metas;
    Bytes sig, sigtail;                      // signature, and what lies behind it in its field
    bool wild_sig = false;
    std::string wild_sig_key;                // key whose signature is expected
    bool hash_stale = false;                 // recorded payload hash may be stale
    Part *part(uint32_t id);
    Meta *meta(uint32_t id, uint32_t ref);
    int meta_space_used() const;
};

struct Parsed {
    bool ok = false;
    std::string err;          // why not a package
    PState st;
    Bytes payload_hash;       // recorded, 64 bytes
    std::vector<std::string> bad;   // structural complaints (offsets, padding, overlap ...)
    uint64_t end = 0;         // end of last part
    uint64_t file_len = 0;
};

enum { HDR = 4096 };
// header_only: do not look at payload bytes
Parsed ref_parse(const uint8_t *p, size_t n, bool header_only = false);
Bytes ref_header_hash(const uint8_t *hdr);
Bytes ref_payload_hash(const PState &st);

void ref_memo_init();
bool ref_pk_verify(const std::string &pub_der_path_name, int hk, const Bytes &hash, const uint8_t *sig, size_t siglen);
Bytes ref_pk_sign(const Bytes &pem, int hk, const Bytes &hash);   // deterministic
// Reference verification of package bytes with the named key. why receives the reason.
bool ref_verify(const Bytes &file, const std::string &key, std::string *why = nullptr);

inline uint16_t rd16(const uint8_t *p) { uint16_t v; memcpy(&v, p, 2); return v; }
inline uint32_t rd32(const uint8_t *p) { uint32_t v; memcpy(&v, p, 4); return v; }
inline uint64_t rd64(const uint8_t *p) { uint64_t v; memcpy(&v, p, 8); return v; }
inline void wr16(uint8_t *p, uint16_t v) { memcpy(p, &v, 2); }
inline void wr32(uint8_t *p, uint32_t v) { memcpy(p, &v, 4); }
inline void wr64(uint8_t *p, uint64_t v) { memcpy(p, &v, 8); }
std::string hex(const void *p, size_t n);
Bytes unhex(const std::string &s);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// header field offsets
enum {
    OFF_META = 8, OFF_PARTS = 8 + 32 * 16, OFF_METADATA = OFF_PARTS + 32 * 32,
    OFF_HK = OFF_METADATA + 1920, OFF_SK = OFF_HK + 1, OFF_ALIGN = OFF_SK + 1,
    OFF_PHASH = OFF_ALIGN + 2, OFF_KEYID = OFF_PHASH + 64, OFF_KSID = OFF_KEYID + 4,
    OFF_PAD1 = OFF_KSID + 4, OFF_SIG = OFF_PAD1 + 42, OFF_SIGSZ = OFF_SIG + 512
};
