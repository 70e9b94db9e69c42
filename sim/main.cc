// Driver of one simulator process: seeded batches, replay and minimisation.
// Every scenario runs in a forked child so that a crash of the code under test
// is attributed to its scenario and cannot disturb others.
#include "exec.h"
#include "model.h"
#include "world.h"
#include <algorithm>
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sstream>
#include <unistd.h>

extern "C" const char *__asan_default_options() {
    // comparing whole buffers finds more, but makes the delta search very slow: only one build does it
    char exe[512]; long n = syscall(SYS_readlink, "/proc/self/exe", exe, sizeof exe - 1);
#define OPTS "exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:max_allocation_size_mb=2048:print_legend=0:malloc_context_size=2:quarantine_size_mb=64"
    return n > 0 && exe[n - 1] == 'b' ? OPTS ":strict_memcmp=1" : OPTS ":strict_memcmp=0";
}
extern "C" __attribute__((weak)) void __sanitizer_set_death_callback(void (*)(void));

bool listens(const std::string &prop0, const std::string &c) {
    std::string prop = prop0.substr(0, prop0.find('/'));
    static const std::set<std::string> all = { "sanitizer", "crash", "hang", "abort" };
    if (all.count(c)) return true;
    static const std::map<std::string, std::set<std::string>> t = {
        { "C01", { "content", "layout", "merkle", "signature", "spurious-failure", "accept-refused", "extract-data", "not-intact", "mem-not-restored", "lost-effect" } },
        { "C02", { "verify-accept", "verify-reject" } },
        { "C03", { "lost-effect", "content", "layout", "roundtrip", "decode-accept", "merkle", "signature", "extract-data", "accept-refused", "stdout-lost" } },
        { "C04", { "not-intact", "mem-not-restored", "nonpkg-altered", "content", "lost-effect", "layout", "signature", "verify-reject" } },
        { "C05", { "crash-state", "content", "not-intact", "lost-effect", "layout", "merkle", "signature", "spurious-failure", "verify-reject", "mem-not-restored" } },
        { "C06", { "roundtrip", "spurious-failure", "content", "verify-reject", "merkle", "decode-accept", "lost-effect", "extract-data" } },
        { "C07", { "decode-accept", "roundtrip", "spurious-failure", "lost-effect", "verify-accept" } },
        { "C08", { "stream", "merkle", "verify-accept", "verify-reject", "roundtrip", "decode-accept", "spurious-failure" } },
        { "C09", { "identity", "roundtrip", "spurious-failure", "accept-refused", "decode-accept" } },
        { "C10", {} },
        { "C11", { "leak", "alloc-mismatch", "not-intact", "mem-not-restored", "lost-effect", "content", "merkle", "roundtrip", "decode-accept", "verify-accept", "keystore", "extract-data", "spurious-failure" } },
        { "C12", { "content", "not-intact", "mem-not-restored", "accept-refused", "spurious-failure", "lost-effect", "crash-state", "layout", "extract-data", "show", "merkle", "signature" } },
        { "C13", { "merkle", "verify-accept", "verify-reject", "stream", "lost-effect", "not-intact", "spurious-failure", "roundtrip", "accept-refused", "content", "layout" } },
        { "C14", { "keystore", "verify-accept", "verify-reject", "spurious-failure", "accept-refused" } },
        { "C15", { "input-modified", "nonpkg-altered" } },
        { "C16", { "signature", "verify-accept", "verify-reject", "accept-refused", "not-intact", "content", "mem-not-restored", "lost-effect", "spurious-failure", "cli-status" } },
        { "C17", { "repro", "layout", "content" } },
        { "C18", { "cli-status", "cli-stderr", "stdout-lost", "lost-effect", "accept-refused", "spurious-failure", "show", "content", "extract-data", "verify-accept", "verify-reject", "roundtrip", "compare", "parthash", "layout", "merkle", "signature", "decode-accept", "not-intact", "keystore" } },
        { "C19", { "py", "content", "lost-effect", "not-intact", "accept-refused", "spurious-failure", "leak", "layout", "merkle", "signature", "mem-not-restored", "extract-data", "show", "parthash", "verify-accept", "verify-reject", "roundtrip", "input-modified", "decode-accept" } },
        { "C20", { "compare", "show", "parthash", "spurious-failure", "accept-refused", "cli-status", "extract-data" } },
    };
    auto i = t.find(prop);
    return i != t.end() && i->second.count(c);
}

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static std::string exe_dir() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); if (n < 0) return "."; b[n] = 0; std::string s = b; return s.substr(0, s.rfind('/')); }

static void load_keys() {
    const char *e = getenv("SIM_KEYS");
    std::string d = e ? e : exe_dir() + "/../../sim/keys";
    DIR *dp = opendir(d.c_str());
    if (!dp) { fprintf(stderr, "no key directory %s\n", d.c_str()); exit(2); }
    while (struct dirent *de = readdir(dp)) {
        std::string n = de->d_name;
        if (n[0] == '.') continue;
        std::string s = slurp(d + "/" + n);
        g.keys[n] = Bytes(s.begin(), s.end());
    }
    closedir(dp);
}
#ifdef WITH_PY
void py_global_init();
#else
__attribute__((weak)) void py_global_init() {}
#endif

// ------------------------------------------------------------------ shared memory between child and parent
struct Shm {
    volatile uint32_t cur_len;
    char cur[1 << 20];           // scenario being executed
    volatile uint32_t runs;      // runs completed
    volatile uint32_t next_variant;
    volatile uint32_t len;
    volatile uint32_t overflow;
    char buf[14 << 20];          // log of results
};
static Shm *shm;
static void put(const std::string &s) {
    if (shm->len + s.size() + 8 > sizeof shm->buf) { shm->overflow = 1; return; }
    uint32_t n = s.size();
    memcpy(shm->buf + shm->len, &n, 4);
    memcpy(shm->buf + shm->len + 4, s.data(), n);
    shm->len = shm->len + 4 + n;
}
static void on_timer(int) { _exit(78); }
static int cpu_limit = 45;
static void arm(int sec) {
    struct itimerval it = {};
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &it, nullptr);
}
static std::string env_sans(Scenario s) { return s.text(); }

static bool via_cli_possible(const Op &o) {
    if (o.kind == "delmeta" || o.kind == "setmeta") return false;
    if (o.kind == "addmeta" && o.has("hex")) return false;
    if (o.kind == "signraw" && !o.has("file")) return false;
    return true;
}
// the same edit history in another environment
static Scenario other_world(const Scenario &s, int k, Rng &r) {
    Scenario t = s;
    static const std::vector<int> st = { 4096, 512, 1024, 8192, 65536, 1, 256 };
    t.env.stdio = r.pick(st);
    if (t.env.stdio < 512) for (auto &f : t.files) if (f.i("len") > 65536) t.env.stdio = 1024;
    t.env.time = 900000000 + r.below(1u << 30); t.env.ent = r.next() % 100000; t.env.fill = (s.env.fill + 1 + r.below(254)) & 255;
    t.env.shorts = r.p(0.5) ? r.range(5, 70) : 0; t.env.shortseed = r.below(10000);
    if (k >= 1) {                // lifetimes of handles and the way an edit is issued
        std::map<int64_t, std::string> hf;
        std::vector<Op> v;
        for (auto &o : t.ops) {
            Op q = o;
            if (o.kind == "open") { hf[o.i("h")] = o.s("f"); continue; }
            if (o.kind == "close") { hf.erase(o.i("h")); continue; }
            if (q.has("h") && hf.count(q.i("h"))) { q.set("f", hf[q.i("h")]).set("via", "lib"); q.a.erase("h"); }
            if (q.has("via") && (k == 2 || r.p(0.3))) {
                bool cli = q.s("via") == "cli";
                if (cli && q.kind != "setmeta") q.set("via", "lib"); else if (!cli && via_cli_possible(q)) q.set("via", "cli");
            }
            v.push_back(q);
        }
        t.ops = v;
    }
    return t;
}

struct Child {
    std::map<std::string, uint64_t> fired, planned, ops, failed;
    std::set<uint64_t> traces, states;
    uint64_t runs = 0, events = 0, now = 0;
};
static void report(const std::string &prop, const Scenario &s, const RunResult &r, Child &c) {
    c.runs++; c.events += r.events; c.now += r.now;
    for (auto &k : r.fired) c.fired[k.first] += k.second;
    for (auto &k : r.planned) c.planned[k.first] += k.second;
    for (auto &k : r.ops) c.ops[k.first] += k.second;
    for (auto &k : r.failed) c.failed[k.first] += k.second;
    c.traces.insert(r.trace);
    for (auto x : r.states) c.states.insert(x);
    std::string other;
    for (auto &v : r.v) {
        if (listens(prop, v.cls)) { put("V" + v.cls + "\n" + v.detail + "\n" + s.text()); return; }
        other += v.cls + " ";
    }
    if (!other.empty()) put("O" + r.v[0].cls + "\n" + r.v[0].detail + "\n" + s.text());
}
static void set_current(const Scenario &s) {
    std::string t = s.text();
    uint32_t n = std::min(t.size(), sizeof shm->cur);
    memcpy(shm->cur, t.data(), n);
    shm->cur_len = n;
}
static void child_body(const std::string &prop, uint64_t seed, bool thorough, uint32_t from, FILE *dig) {
    Child c;
    Scenario s = gen_scenario(prop, seed, thorough);
    set_current(s);
    arm(cpu_limit);
    RunResult dry = run_scenario(s, false);
    if (from == 0) {
        report(prop, s, dry, c);
        if (seed % 8 == 0) {
            arm(cpu_limit);
            RunResult again = run_scenario(s, false);
            if (again.trace != dry.trace || again.digest != dry.digest) put("O" + std::string("harness") + "\nexecution is not deterministic\n" + s.text());
            c.runs++;
        }
        if (prop == "C17") put("D" + strf("%llu %llu", (unsigned long long)seed, (unsigned long long)dry.fdigest));
    }
    Rng r(seed * 31337 + 5);
    if (prop == "C17") {
        for (int k = from ? from - 1 : 0; k < 3; k++) {
            Rng q(seed * 101 + k);
            Scenario t = other_world(s, k, q);
            shm->next_variant = k + 2;
            set_current(t);
            arm(cpu_limit);
            RunResult x = run_scenario(t, false);
            if (x.fdigest != dry.fdigest) {
                Viol v; v.cls = "repro"; v.detail = k == 0 ? "the same edits in another environment give other bytes" : "the same edits through other handles or the other interface give other bytes";
                x.v.clear(); x.v.push_back(v);
                t.prop = prop + strf("/%d", k);
                Scenario orig = s;      // the driver re-creates the variant from the seed
                put("V" + v.cls + "\n" + v.detail + "\n" + orig.text() + strf("variant %d\n", k));
                x.v.clear();
            }
            report(prop, t, x, c);
        }
    } else {
        int n = fault_variants(prop, r, thorough);
        if (n > 3 && dry.events > 40000) n = n / 3 + 1;          // expensive histories get fewer fault sequences
        bool bad = false;
        for (auto &v : dry.v) if (listens(prop, v.cls)) bad = true;
        for (int k = from ? from - 1 : 0; k < n && !bad; k++) {
            Rng q(seed * 7927 + k * 131 + 17);
            Scenario t = s;
            t.faults = gen_faults(s, q, dry.counts, k);
            shm->next_variant = k + 2;
            if (t.faults.empty()) continue;
            set_current(t);
            arm(cpu_limit);
            RunResult x = run_scenario(t, false);
            report(prop, t, x, c);
        }
    }
    std::string st = "S" + strf("%llu %llu %llu\n", (unsigned long long)c.runs, (unsigned long long)c.events, (unsigned long long)c.now);
    for (auto *m : { &c.fired, &c.planned, &c.ops, &c.failed }) {
        const char *n = m == &c.fired ? "F" : m == &c.planned ? "P" : m == &c.ops ? "O" : "E";
        for (auto &k : *m) st += strf("%s %s %llu\n", n, k.first.c_str(), (unsigned long long)k.second);
    }
    put(st);
    put("T" + std::string((const char *)std::vector<uint64_t>(c.traces.begin(), c.traces.end()).data(), c.traces.size() * 8));
    put("A" + std::string((const char *)std::vector<uint64_t>(c.states.begin(), c.states.end()).data(), c.states.size() * 8));
}

static int errfd = -1;
static pid_t spawn(const std::function<void()> &f) {
    if (ftruncate(errfd, 0)) {}
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        lseek(errfd, 0, SEEK_SET);
        dup2(errfd, 2);
        int dn = open("/dev/null", O_RDWR);
        dup2(dn, 0); dup2(dn, 1);
        signal(SIGPROF, on_timer);
        f();
        _exit(0);
    }
    return p;
}
// class and detail of an abnormal end; "" when normal
static std::string ending(int st, std::string &detail, bool xfault) {
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
    std::string e(8 << 10, 0);
    ssize_t n = pread(errfd, &e[0], e.size(), 0);
    e.resize(n > 0 ? n : 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 78) { detail = "no answer within the processor time allowed"; return "hang"; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
        size_t a = e.find("ERROR: AddressSanitizer: ");
        std::string kind = "error", where;
        if (a != std::string::npos) { a += 25; kind = e.substr(a, e.find_first_of(" \n", a) - a); }
        // innermost frames of the code under test
        size_t at = 0; int got = 0;
        while (got < 3 && (at = e.find(" in ", at)) != std::string::npos) {
            at += 4;
            std::string fn = e.substr(at, e.find_first_of(" \n(", at) - at);
            size_t eol = e.find('\n', at);
            std::string line = e.substr(at, eol - at);
            if (line.find("/sim/") == std::string::npos && line.find("compiler-rt") == std::string::npos && line.find(".c:") != std::string::npos) { where += (got ? " < " : "") + fn; got++; }
            if (e.compare(at, 0, "") == 0 && got == 0 && line.find("sanitizer") == std::string::npos && where.empty() && line.find("__interceptor") == 0) where = "";
            at = eol == std::string::npos ? e.size() : eol;
        }
        detail = kind + " in " + (where.empty() ? "?" : where);
        // mbedcrypto 2.28 itself crashes in some RSA operations when memory runs out
        if (xfault) {
            size_t f = e.find("    #0 ");
            while (f != std::string::npos) {
                size_t in = e.find(" in ", f);
                if (in == std::string::npos) break;
                std::string fn = e.substr(in + 4, e.find_first_of(" \n(", in + 4) - in - 4);
                bool skip = fn.compare(0, 2, "__") == 0 || fn.compare(0, 3, "mem") == 0;
                if (!skip) {
                    for (const char *p : { "mbedtls_", "mpi_", "rsa_", "ecp_", "ecdsa_", "pk_", "lzma_" }) if (fn.compare(0, strlen(p), p) == 0) return "third-party";
                    break;
                }
                f = e.find("\n    #", f + 4); if (f != std::string::npos) f++;
            }
        }
        return "sanitizer";
    }
    if (WIFSIGNALED(st)) { detail = strf("killed by signal %d", WTERMSIG(st)); return "crash"; }
    detail = strf("exit %d: %s", WEXITSTATUS(st), e.substr(0, 200).c_str());
    return "harness";
}

struct Totals {
    std::map<std::string, std::map<std::string, uint64_t>> m;
    uint64_t runs = 0, events = 0, now = 0, seeds = 0;
    std::vector<uint64_t> traces, states;
    std::set<uint64_t> tset, aset;
};
static void absorb(Totals &T, std::vector<std::string> &viols, std::vector<std::string> &others, FILE *dig) {
    uint32_t at = 0;
    while (at + 4 <= shm->len) {
        uint32_t n; memcpy(&n, shm->buf + at, 4);
        std::string s(shm->buf + at + 4, n);
        at += 4 + n;
        if (s.empty()) continue;
        char k = s[0]; s.erase(0, 1);
        if (k == 'V') viols.push_back(s);
        else if (k == 'O') others.push_back(s);
        else if (k == 'D') { if (dig) fprintf(dig, "%s\n", s.c_str()); }
        else if (k == 'T' || k == 'A') { for (size_t i = 0; i + 8 <= s.size(); i += 8) { uint64_t v; memcpy(&v, &s[i], 8); (k == 'T' ? T.tset : T.aset).insert(v); } }
        else if (k == 'S') {
            std::istringstream in(s);
            uint64_t a, b, c; in >> a >> b >> c; T.runs += a; T.events += b; T.now += c;
            std::string t, name; uint64_t v;
            while (in >> t >> name >> v) T.m[t][name] += v;
        }
    }
}
static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) o += strf("\\u%04x", c); else o += c; return o; }

static int batch(int argc, char **argv) {
    // batch prop seed0 count stride outprefix deadline thorough
    std::string prop = argv[2];
    uint64_t seed0 = strtoull(argv[3], 0, 0), count = strtoull(argv[4], 0, 0), stride = strtoull(argv[5], 0, 0);
    std::string out = argv[6];
    double deadline = now_s() + atof(argv[7]);
    bool thorough = atoi(argv[8]);
    size_t maxv = argc > 9 ? atoi(argv[9]) : 6;
    Totals T;
    FILE *dig = prop == "C17" ? fopen((out + ".dig").c_str(), "w") : nullptr;
    std::vector<std::string> viols, others;
    std::map<std::string, int> perclass;
    FILE *vf = fopen((out + ".viol").c_str(), "w");
    uint64_t nviol = 0, aborted = 0;
    std::map<std::string, uint64_t> ocount, vcount;
    std::map<std::string, std::string> oexample;
    std::string samples;
    for (uint64_t i = 0; i < count && now_s() < deadline && nviol < maxv; i++) {
        uint64_t seed = seed0 + i * stride;
        uint32_t from = 0;
        for (int guard = 0; guard < 60; guard++) {
            shm->cur_len = 0; shm->len = 0; shm->next_variant = 1; shm->overflow = 0;
            pid_t p = spawn([&] { child_body(prop, seed, thorough, from, dig); });
            int st;
            waitpid(p, &st, 0);
            viols.clear(); others.clear();
            absorb(T, viols, others, dig);
            std::string detail, cls = ending(st, detail, memmem((void *)shm->cur, shm->cur_len, "ev=xalloc", 9));
            if (!cls.empty()) {
                aborted++;
                std::string cur(shm->cur, shm->cur_len);
                std::string rec = cls + "\n" + detail + "\n" + cur;
                if (listens(prop, cls)) viols.push_back(rec); else others.push_back(rec);
            }
            for (auto &v : viols) {
                std::string c = v.substr(0, v.find('\n'));
                vcount[c]++;
                // keep a few examples of every class
                if (perclass[c + v.substr(v.find('\n'), 40)]++ >= 2) continue;
                nviol++;
                uint32_t n = v.size(); fwrite(&n, 4, 1, vf); fwrite(v.data(), n, 1, vf);
            }
            for (auto &o : others) { std::string c = o.substr(0, o.find('\n')); ocount[c]++; if (!oexample.count(c)) oexample[c] = o; }
            if (cls.empty()) break;
            uint32_t nv = shm->next_variant;
            if (nv <= from && guard) break;
            from = std::max(from + 1, nv);
            if (nv <= 1) break;                   // the fault-free run itself died
            if (nviol >= maxv || now_s() > deadline) break;
        }
        T.seeds++;
        if (i < 2 && shm->cur_len) samples += (samples.empty() ? "\"" : ",\"") + jesc(std::string(shm->cur, std::min<size_t>(shm->cur_len, 4000))) + "\"";
    }
    fclose(vf);
    if (dig) fclose(dig);
    FILE *f = fopen((out + ".json").c_str(), "w");
    fprintf(f, "{\"seeds\":%llu,\"runs\":%llu,\"events\":%llu,\"simms\":%llu,\"aborted\":%llu,\"viol\":%llu", (unsigned long long)T.seeds, (unsigned long long)T.runs, (unsigned long long)T.events, (unsigned long long)T.now, (unsigned long long)aborted, (unsigned long long)nviol);
    for (auto &g : T.m) {
        fprintf(f, ",\"%s\":{", g.first == "F" ? "fired" : g.first == "P" ? "planned" : g.first == "O" ? "ops" : "failed");
        bool first = true;
        for (auto &k : g.second) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second); first = false; }
        fprintf(f, "}");
    }
    fprintf(f, ",\"vclasses\":{");
    bool first = true;
    for (auto &k : vcount) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second); first = false; }
    fprintf(f, "},\"others\":{");
    first = true;
    for (auto &k : ocount) { fprintf(f, "%s\"%s\":[%llu,\"%s\"]", first ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second, jesc(oexample[k.first].substr(0, 30000)).c_str()); first = false; }
    fprintf(f, "},\"samples\":[%s]}\n", samples.c_str());
    fclose(f);
    for (int k = 0; k < 2; k++) {
        auto &s = k ? T.aset : T.tset;
        FILE *b = fopen((out + (k ? ".states" : ".traces")).c_str(), "w");
        for (auto x : s) fwrite(&x, 8, 1, b);
        fclose(b);
    }
    return 0;
}

// run a scenario once in a child; returns the list "class\ndetail\n"
static std::vector<std::pair<std::string, std::string>> attempt(const Scenario &s, bool log, int cpu) {
    shm->cur_len = 0; shm->len = 0;
    pid_t p = spawn([&] {
        arm(cpu);
        if (getenv("SIM_TWICE")) run_scenario(s, log);
        RunResult r = run_scenario(s, log);
        for (auto &v : r.v) put("V" + v.cls + "\n" + strf("op %d: ", v.op) + v.detail);
        put("X" + strf("trace %016llx digest %016llx files %016llx events %llu", (unsigned long long)r.trace, (unsigned long long)r.digest, (unsigned long long)r.fdigest, (unsigned long long)r.events));
        if (log) put("L" + r.log);
    });
    int st;
    waitpid(p, &st, 0);
    std::vector<std::pair<std::string, std::string>> o;
    uint32_t at = 0;
    while (at + 4 <= shm->len) {
        uint32_t n; memcpy(&n, shm->buf + at, 4);
        std::string t(shm->buf + at + 4, n);
        at += 4 + n;
        if (t[0] == 'V') { size_t e = t.find('\n'); o.push_back({ t.substr(1, e - 1), t.substr(e + 1) }); }
        else if (t[0] == 'X') o.push_back({ "#x", t.substr(1) });
        else if (t[0] == 'L') o.push_back({ "#log", t.substr(1) });
    }
    std::string d, c = ending(st, d, s.text().find("ev=xalloc") != std::string::npos);
    if (!c.empty()) o.push_back({ c, d });
    return o;
}
// as attempt, but a scenario that names a variant is also run in that other world and the files are compared
static std::vector<std::pair<std::string, std::string>> attempt2(const Scenario &s, bool log, int cpu) {
    if (s.variant < 0) return attempt(s, log, cpu);
    Scenario a = s; a.variant = -1;
    Rng q(s.seed * 101 + s.variant);
    Scenario b = other_world(a, s.variant, q);
    auto x = attempt(a, log, cpu), y = attempt(b, log, cpu);
    std::string fx, fy;
    for (auto *l : { &x, &y }) for (auto &p : *l) if (p.first == "#x") { auto at = p.second.find("files "); (l == &x ? fx : fy) = p.second.substr(at, 22); }
    x.insert(x.end(), y.begin(), y.end());
    if (fx != fy) x.push_back({ "repro", s.variant == 0 ? "the same edits in another environment give other bytes" : "the same edits through other handles or the other interface give other bytes" });
    return x;
}
static int replay(int argc, char **argv) {
    Scenario s; std::string err;
    bool log = argc > 3 && !strcmp(argv[3], "--log");
    if (!s.parse(slurp(argv[2]), err)) { fprintf(stderr, "%s\n", err.c_str()); return 2; }
    auto r = attempt2(s, log, cpu_limit);
    int bad = 0;
    for (auto &x : r) {
        if (x.first == "#log") printf("%s", x.second.c_str());
        else if (x.first == "#x") printf("%s\n", x.second.c_str());
        else { bool l = listens(s.prop, x.first); printf("%s class %s %s\n", l ? "VIOLATED" : "note", x.first.c_str(), x.second.c_str()); bad |= l; }
    }
    if (log) { std::string e(16 << 10, 0); ssize_t n = pread(errfd, &e[0], e.size(), 0); if (n > 0) printf("%.*s\n", (int)n, e.c_str()); }
    return bad ? 1 : 0;
}
static bool has(const Scenario &s, const std::string &cls, std::string *detail, int cpu) {
    for (auto &x : attempt2(s, false, cpu)) if (x.first == cls) { if (detail) *detail = x.second; return true; }
    return false;
}
static int minimise(char **argv) {
    Scenario s; std::string err, cls = argv[3], out = argv[4];
    double limit = now_s() + atof(argv[5]);
    if (!s.parse(slurp(argv[2]), err)) { fprintf(stderr, "%s\n", err.c_str()); return 2; }
    std::string detail;
    int cpu = cls == "hang" ? 20 : cpu_limit;
    const Scenario orig = s;
    if (!has(s, cls, &detail, cpu_limit)) { printf("NOREPRO\n"); return 3; }
    auto good = [&](const Scenario &t) { std::string d; if (now_s() > limit) return false; if (!has(t, cls, &d, cpu)) return false; detail = d; return true; };
    bool ch = true;
    while (ch && now_s() < limit) {
        ch = false;
        for (size_t i = 0; i < s.faults.size();) { Scenario t = s; t.faults.erase(t.faults.begin() + i); if (good(t)) { s = t; ch = true; } else i++; }
        for (size_t step = std::max<size_t>(1, s.ops.size() / 2); step; step /= 2)
            for (size_t i = s.ops.size(); i-- > 0;) {
                if (i + step > s.ops.size()) continue;
                Scenario t = s; t.ops.erase(t.ops.begin() + i, t.ops.begin() + i + step);
                if (good(t)) { s = t; ch = true; }
            }
        for (size_t i = s.files.size(); i-- > 0;) { Scenario t = s; t.files.erase(t.files.begin() + i); if (good(t)) { s = t; ch = true; } }
    }
    for (size_t i = 0; i < s.ops.size(); i++) {
        if (!s.ops[i].has("steps")) continue;
        auto parts = [](const std::string &x) { std::vector<std::string> v; std::stringstream q(x); std::string e; while (std::getline(q, e, ';')) v.push_back(e); return v; };
        for (size_t k = parts(s.ops[i].s("steps")).size(); k-- > 0;) {
            auto v = parts(s.ops[i].s("steps")); if (k >= v.size()) continue;
            v.erase(v.begin() + k);
            std::string x; for (auto &e : v) x += (x.empty() ? "" : ";") + e;
            Scenario t = s; t.ops[i].set("steps", x);
            if (good(t)) s = t;
        }
    }
    { Scenario t = s; t.env.shorts = 0; if (s.env.shorts && good(t)) s = t; }
    { Scenario t = s; t.env.stdio = 4096; if (s.env.stdio != 4096 && good(t)) s = t; }
    { Scenario t = s; t.env.alloc = 0; if (s.env.alloc && good(t)) s = t; }
    { Scenario t = s; t.env.hash = 0; if (s.env.hash && good(t)) s = t; }
    for (size_t i = 0; i < s.files.size(); i++)
        for (int k = 0; k < 12; k++) {
            auto it = s.files[i].a.find("len");
            if (it == s.files[i].a.end()) break;
            long long v = atoll(it->second.c_str());
            if (v < 2) break;
            Scenario t = s; t.files[i].a["len"] = std::to_string(v / 2);
            if (good(t)) s = t; else break;
        }
    if (!has(s, cls, &detail, cpu_limit)) { s = orig; has(s, cls, &detail, cpu_limit); }
    std::ofstream f(out);
    f << "class " << cls << "\ndetail " << detail << "\n" << s.text();
    printf("OK %s\n", detail.c_str());
    return 0;
}

int main(int argc, char **argv) {
    if (argc < 3) { fprintf(stderr, "usage: batch|replay|min|gen ...\n"); return 2; }
    errfd = memfd_create("err", 0);
    ref_memo_init();
    shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (getenv("SIM_CPU")) cpu_limit = atoi(getenv("SIM_CPU"));
    load_keys();
    py_global_init();
    std::string m = argv[1];
    if (m == "batch" && argc >= 9) return batch(argc, argv);
    if (m == "replay") return replay(argc, argv);
    if (m == "min" && argc >= 6) return minimise(argv);
    if (m == "gen" && argc >= 4) { printf("%s", gen_scenario(argv[2], strtoull(argv[3], 0, 0), argc > 4).text().c_str()); return 0; }
    return 2;
}
