#include "sim.h"
#include <cerrno>
#include <cstdlib>
#include <cstdarg>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
#include <algorithm>

Sim g;
const char *ev_names[EV_N] = { "open", "close", "read", "write", "seek", "trunc", "stat", "mmap",
    "alloc", "xalloc", "entropy", "hash", "crypto", "cb", "misc" };
int ev_class(const std::string &n) { for (int i = 0; i < EV_N; i++) if (n == ev_names[i]) return i; return -1; }
std::string Env::text() const {
    return strf("env stdio=%d time=%llu rnd=%llu ent=%llu fill=%d alloc=%d hash=%d shorts=%d shortseed=%llu",
        stdio, (unsigned long long)time, (unsigned long long)rnd, (unsigned long long)ent, fill, alloc, hash, shorts,
        (unsigned long long)shortseed);
}
static FILE *real_stdout, *real_stderr, *real_stdin;

static std::string canon(const char *p) {
    std::string s = p ? p : "";
    while (s.compare(0, 2, "./") == 0) s = s.substr(2);
    return s;
}
static uint64_t sm(uint64_t &s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

void sim_reset(const Env &e) {
    if (!real_stdout) { real_stdout = stdout; real_stderr = stderr; real_stdin = stdin; }
    auto keys = g.keys;
    g.~Sim();
    new (&g) Sim();
    g.keys = keys;
    g.env = e;
    g.rnd_state = e.rnd * 77 + 5; g.ent_state = e.ent * 99 + 7; g.short_state = e.shortseed * 31 + 3;
    g.fds.assign(3, nullptr);
    for (auto &k : g.keys) sim_put(k.first, k.second);
    g.out = std::make_shared<Inode>(); g.out->name = "<stdout>"; g.out->is_stream = true;
    g.err = std::make_shared<Inode>(); g.err->name = "<stderr>"; g.err->is_stream = true;
    g.in = std::make_shared<Inode>(); g.in->name = "<stdin>"; g.in->is_stream = true;
    memset(g.cnt, 0, sizeof g.cnt); memset(g.total, 0, sizeof g.total);
}
const Bytes *sim_key_file(const std::string &n) { auto it = g.keys.find(n); return it == g.keys.end() ? nullptr : &it->second; }
Bytes *sim_file(const std::string &p) { auto it = g.files.find(p); return it == g.files.end() ? nullptr : &it->second->data; }
bool sim_exists(const std::string &p) { return g.files.count(p); }
void sim_put(const std::string &p, const Bytes &b) {
    auto i = std::make_shared<Inode>(); i->name = p; i->data = b; g.files[p] = i;
}
void sim_remove(const std::string &p) { g.files.erase(p); }

void sim_begin_op(int op) {
    g.op = op;
    memset(g.cnt, 0, sizeof g.cnt);
    g.fired_in_op = 0; g.fired_write_kind = 0; g.read_fault_in_op = false; g.resize_in_op = false; g.stdout_fault = false;
    g.fired_files.clear();
    g.crashed = false;
    if (g.faults) for (auto &f : *g.faults) if (f.on && f.sticky < 2) f.on = false;
}
void sim_end_op() {
    g.op_counts.push_back({ g.op, std::vector<uint32_t>(g.cnt, g.cnt + EV_N) });
    if (g.faults) for (auto &f : *g.faults) if (f.on && f.sticky < 2) f.on = false;
}

[[noreturn]] static void leave(int how) {
    g.active = false;
    if (!g.jmp_ok) { fprintf(real_stderr ? real_stderr : stderr, "sim: leave without frame\n"); _exit(99); }
    siglongjmp(g.jmp, how);
}

Fault *sim_event(int cls, const char *what, const std::string &file, int64_t a, int64_t b) {
    uint32_t n = g.cnt[cls]++;
    g.total[cls]++;
    g.events++;
    g.now++;
    uint64_t rec[4] = { (uint64_t)g.op << 8 | (uint64_t)cls, (uint64_t)a, (uint64_t)b, fnv(file) };
    g.trace = fnv(rec, sizeof rec, g.trace);
    if (g.log) g.logtext += strf("%llu op%d %s#%u %s %s %lld %lld\n", (unsigned long long)g.events, g.op, ev_names[cls], n, what, file.c_str(), (long long)a, (long long)b);
    if (g.step_limit && g.events > g.step_limit) leave(J_HANG);
    if (!g.faults) return nullptr;
    for (auto &f : *g.faults) {
        if (f.cls != cls || f.kind == "absent") continue;
        bool hit = false;
        if (f.on) hit = true;
        else if (!f.fired && f.op == g.op && f.nth == n) hit = true;
        if (!hit) continue;
        f.fired = true;
        if (f.sticky) f.on = true;
        g.fired_in_op++;
        g.fired_files.insert(file);
        uint64_t fr = fnv(f.kind);
        g.trace = fnv(&fr, sizeof fr, g.trace);
        if (g.log) g.logtext += strf("   ^ fault %s arg %lld\n", f.kind.c_str(), (long long)f.arg);
        if (f.kind == "crash" || (f.kind == "torn" && cls != EV_WRITE)) { g.crashed = true; leave(J_CRASH); }
        return &f;
    }
    return nullptr;
}

// ------------------------------------------------------------------ file system core
static OFD *ofd_of(int fd) { return fd >= 0 && fd < (int)g.fds.size() && g.fds[fd] && g.fds[fd]->open ? g.fds[fd] : nullptr; }
static int new_fd(OFD *o) {
    for (size_t i = 3; i < g.fds.size(); i++) if (!g.fds[i]) { g.fds[i] = o; return i; }
    g.fds.push_back(o);
    return g.fds.size() - 1;
}
static int fd_of(OFD *o) { for (size_t i = 0; i < g.fds.size(); i++) if (g.fds[i] == o) return i; return -1; }

static bool legal_short() { return g.env.shorts && (int)(sm(g.short_state) % 100) < g.env.shorts; }

void Inode::rd(int64_t off, void *buf, size_t n) const {
    uint8_t *o = (uint8_t *)buf;
    if (!n) return;
    if (!hole_len) { memcpy(o, &data[off], n); return; }
    while (n) {
        size_t k;
        if (off < hole_at) { k = std::min<int64_t>(n, hole_at - off); memcpy(o, &data[off], k); }
        else if (off < hole_at + hole_len) { k = std::min<int64_t>(n, hole_at + hole_len - off); memset(o, 0, k); }
        else { k = n; memcpy(o, &data[off - hole_len], k); }
        o += k; off += k; n -= k;
    }
}
bool Inode::wr(int64_t off, const void *buf, size_t n) {
    const uint8_t *b = (const uint8_t *)buf;
    if (!hole_len) {
        if (n && off + n > data.size()) data.resize(off + n, 0);
        if (n) memcpy(&data[off], b, n);
        return true;
    }
    while (n) {
        size_t k;
        if (off < hole_at) { k = std::min<int64_t>(n, hole_at - off); memcpy(&data[off], b, k); }
        else if (off < hole_at + hole_len) {
            k = std::min<int64_t>(n, hole_at + hole_len - off);
            if (off > hole_at) {       // zeros change nothing, other bytes have no place here
                for (size_t i = 0; i < k; i++) if (b[i]) return false;
            } else { data.insert(data.begin() + hole_at, b, b + k); hole_at += k; hole_len -= k; }
        } else {
            k = n;
            size_t p = off - hole_len;
            if (p + k > data.size()) data.resize(p + k, 0);
            memcpy(&data[p], b, k);
        }
        b += k; off += k; n -= k;
    }
    return true;
}
void Inode::resize(int64_t n) {
    if (!hole_len) { data.resize(n, 0); return; }
    if (n <= hole_at) { hole_len = 0; hole_at = -1; data.resize(n, 0); }
    else if (n < hole_at + hole_len) { hole_len = n - hole_at; data.resize(hole_at); }
    else data.resize(n - hole_len, 0);
}

static bool resizable(OFD *o) { return !o->wr && !o->ino->is_stream && o->ino->name.compare(0, 2, "in") == 0; }
static ssize_t core_read(OFD *o, char *buf, size_t n) {
    Fault *f = sim_event(EV_READ, "read", o->ino->name, o->pos, n);
    if (f) {
        if (f->kind == "eio") { g.read_fault_in_op = true; errno = EIO; return -1; }
        if (f->kind == "eof") { g.read_fault_in_op = true; return 0; }
        if (f->kind == "short" && n > 1) n = 1 + (uint64_t)f->arg % (n - 1);
        if (f->kind == "shrink" && resizable(o)) { g.resize_in_op = true; o->ino->data.resize(o->ino->data.size() * (f->arg % 8) / 8); }
        if (f->kind == "grow" && resizable(o) && ++g.grown <= 6) { g.resize_in_op = true; o->ino->data.resize(o->ino->data.size() + 1 + f->arg % 5000, 0x5A); }
    }
    if (o->pos >= o->ino->size()) return 0;
    size_t k = std::min<size_t>(n, o->ino->size() - o->pos);
    if (k > 1 && legal_short()) k = 1 + sm(g.short_state) % k;
    o->ino->rd(o->pos, buf, k);
    o->pos += k;
    return k;
}
static bool put_at(OFD *o, const char *buf, size_t n) {
    if (o->app) o->pos = o->ino->size();
    if (!o->ino->wr(o->pos, buf, n)) return false;
    o->pos += n;
    o->ino->writes++;
    return true;
}
// one write system call; may be short
static ssize_t core_write1(OFD *o, const char *buf, size_t n) {
    if (n && (uint64_t)o->pos + n > (uint64_t)o->ino->hole_len + (256ull << 20)) { g.now++; if (++g.events > g.step_limit && g.step_limit) leave(J_HANG); errno = EFBIG; return -1; }
    Fault *f = sim_event(EV_WRITE, "write", o->ino->name, o->pos, n);
    if (f) {
        size_t ext = (uint64_t)o->pos + n > (uint64_t)o->ino->size() ? n : 0;   // extending write?
        if (o->ino->is_stream) { ext = n; if (o->ino == g.out && f->kind != "short") g.stdout_fault = true; }
        else g.fired_write_kind++;
        if (f->kind == "eio") { errno = EIO; return -1; }
        if (f->kind == "nospc") {
            // a full disk takes only part of an extending write, and does not disturb existing bytes
            if (ext && !o->ino->is_stream) {
                size_t k = (uint64_t)f->arg % n;
                f->arg = 0;
                if (k) { put_at(o, buf, k); return k; }
            }
            errno = ENOSPC; return -1;
        }
        // an overwritten header (less than a page) is taken whole
        if (f->kind == "short" && n > 1 && (o->ino->is_stream || o->pos >= 4096 || ext)) { g.fired_write_kind--; size_t k = 1 + (uint64_t)f->arg % (n - 1); put_at(o, buf, k); return k; }
        if (f->kind == "lost") { o->pos += n; return n; }
        if (f->kind == "torn") {
            size_t k = (uint64_t)f->arg % (n + 1);
            if (o->pos < o->ino->size()) {
                // overwriting: the page cache takes whole pages
                uint64_t endk = (o->pos + k) & ~4095ull;
                k = endk > (uint64_t)o->pos ? endk - o->pos : 0;
            }
            put_at(o, buf, k);
            g.crashed = true; leave(J_CRASH);
        }
    }
    size_t k = n;
    if (k > 1 && !o->ino->is_stream && o->pos >= 4096 && legal_short()) k = 1 + sm(g.short_state) % k;
    if (!put_at(o, buf, k)) { errno = ENOSPC; return -1; }
    return k;
}
static int64_t core_seek(OFD *o, int64_t off, int wh) {
    Fault *f = sim_event(EV_SEEK, "seek", o->ino->name, off, wh);
    if (f && f->kind == "eio") { errno = EIO; return -1; }
    int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->pos : o->ino->size();
    if (b + off < 0) { errno = EINVAL; return -1; }
    return o->pos = b + off;
}

// cookie functions
static ssize_t ck_read(void *c, char *b, size_t n) {
    OFD *o = (OFD *)c;
    if (!o->rd) { errno = EBADF; return -1; }
    return core_read(o, b, n);
}
static ssize_t ck_write(void *c, const char *b, size_t n) {
    OFD *o = (OFD *)c;
    if (!o->wr) { errno = EBADF; return 0; }
    size_t done = 0;
    while (done < n) {               // the C library repeats short writes
        ssize_t k = core_write1(o, b + done, n - done);
        if (k < 0) return done ? done : 0;   // for cookie streams 0 signals the error (errno set)
        done += k;
    }
    return done;
}
static int ck_seek(void *c, off64_t *off, int wh) {
    OFD *o = (OFD *)c;
    if (o->ino->is_stream) { errno = ESPIPE; return -1; }
    int64_t r = core_seek(o, *off, wh);
    if (r < 0) return -1;
    *off = r;
    return 0;
}
static int ck_close(void *c) { (void)c; return 0; }

static FILE *mkstream(OFD *o, const char *mode) {
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    bool act = g.active; g.active = false;
    FILE *fp = fopencookie(o, mode, io);
    if (g.env.stdio <= 1) setvbuf(fp, nullptr, _IONBF, 0);
    else { o->buf = (char *)malloc(g.env.stdio); memset(o->buf, g.env.fill, g.env.stdio); setvbuf(fp, o->buf, _IOFBF, g.env.stdio); }
    o->fp = fp;
    g.active = act;
    return fp;
}
static OFD *find_fp(FILE *fp) { for (auto o : g.fds) if (o && o->open && o->fp == fp) return o; return nullptr; }

static OFD *core_open(const char *path, bool rd, bool wr, bool creat, bool trunc, bool app, bool excl) {
    std::string p = canon(path);
    Fault *f = sim_event(EV_OPEN, "open", p, rd | wr << 1 | creat << 2 | trunc << 3);
    if (f) {
        errno = f->kind == "nospc" ? ENOSPC : f->kind == "emfile" ? EMFILE : EIO;
        if (f->kind == "noent") errno = ENOENT;
        return nullptr;
    }
    if (p == "/dev/urandom") {
        auto i = std::make_shared<Inode>(); i->name = p; i->data.resize(4096);
        for (auto &b : i->data) b = sm(g.ent_state);
        OFD *o = new OFD; o->ino = i; o->rd = true; o->open = true; o->op = g.op; o->proc = g.proc; return o;
    }
    if (p.empty() || p.find('/') != std::string::npos) { errno = ENOENT; return nullptr; }
    auto it = g.files.find(p);
    if (it == g.files.end()) {
        if (!creat) { errno = ENOENT; return nullptr; }
        sim_put(p, Bytes());
        it = g.files.find(p);
    } else {
        if (excl) { errno = EEXIST; return nullptr; }
        if (it->second->noaccess) { errno = EACCES; return nullptr; }
        if (trunc) it->second->resize(0);
    }
    OFD *o = new OFD;
    o->proc = g.proc;
    o->ino = it->second; o->rd = rd; o->wr = wr; o->app = app; o->open = true; o->op = g.op;
    return o;
}

extern "C" {
FILE *sim_fopen(const char *path, const char *mode) {
    bool plus = strchr(mode, '+'), r = mode[0] == 'r', w = mode[0] == 'w', a = mode[0] == 'a';
    if (!r && !w && !a) { errno = EINVAL; return nullptr; }
    OFD *o = core_open(path, r || plus, w || a || plus, w || a, w, a, strchr(mode, 'x'));
    if (!o) return nullptr;
    new_fd(o);
    return mkstream(o, mode);
}
FILE *sim_fdopen(int fd, const char *mode) {
    OFD *o = ofd_of(fd);
    if (!o) { errno = EBADF; return nullptr; }
    return o->fp ? o->fp : mkstream(o, mode);
}
FILE *sim_freopen(const char *p, const char *m, FILE *) { return sim_fopen(p, m); }
static int close_ofd(OFD *o) {
    Fault *f = nullptr;
    if (g.active) f = sim_event(EV_CLOSE, "close", o->ino->name);
    int fd = fd_of(o);
    o->open = false;
    if (fd >= 0) g.fds[fd] = nullptr;
    int rc = 0;
    if (f) { g.fired_write_kind += o->wr; errno = EIO; rc = -1; }
    return rc;
}
int sim_fclose(FILE *fp) {
    OFD *o = find_fp(fp);
    if (!o) { if (fp == stdout || fp == stderr || fp == stdin) return 0; g.alloc_violation = "fclose of a stream that is not open"; return EOF; }
    int rc = fclose(fp);          // flushes through ck_write
    o->fp = nullptr;
    int rc2 = close_ofd(o);
    free(o->buf);
    delete o;
    return (rc != 0 || rc2 != 0) ? EOF : 0;
}
int sim_fileno(FILE *fp) {
    if (fp == stdin) return 0;
    if (fp == stdout) return 1;
    if (fp == stderr) return 2;
    OFD *o = find_fp(fp);
    if (!o) { errno = EBADF; return -1; }
    return fd_of(o);
}
int sim_open(const char *path, int flags, ...) {
    int acc = flags & O_ACCMODE;
    OFD *o = core_open(path, acc != O_WRONLY, acc != O_RDONLY, flags & O_CREAT, flags & O_TRUNC, flags & O_APPEND, flags & O_EXCL);
    return o ? new_fd(o) : -1;
}
int sim_close(int fd) {
    OFD *o = ofd_of(fd);
    if (!o) { errno = EBADF; return -1; }
    int rc = close_ofd(o);
    delete o;
    return rc;
}
ssize_t sim_read(int fd, void *b, size_t n) {
    OFD *o = ofd_of(fd);
    if (!o || !o->rd) { errno = EBADF; return -1; }
    return core_read(o, (char *)b, n);
}
ssize_t sim_write(int fd, const void *b, size_t n) {
    OFD *o = ofd_of(fd);
    if (fd == 1 || fd == 2) { auto &i = fd == 1 ? g.out : g.err; i->data.insert(i->data.end(), (const char *)b, (const char *)b + n); return n; }
    if (!o || !o->wr) { errno = EBADF; return -1; }
    if (n == 0) return 0;
    return core_write1(o, (const char *)b, n);
}
off_t sim_lseek(int fd, off_t off, int wh) {
    OFD *o = ofd_of(fd);
    if (!o) { errno = EBADF; return -1; }
    return core_seek(o, off, wh);
}
ssize_t sim_pread(int fd, void *b, size_t n, off_t off) {
    OFD *o = ofd_of(fd);
    if (!o || !o->rd) { errno = EBADF; return -1; }
    int64_t save = o->pos; o->pos = off;
    ssize_t r = core_read(o, (char *)b, n);
    o->pos = save;
    return r;
}
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t off) {
    OFD *o = ofd_of(fd);
    if (!o || !o->wr) { errno = EBADF; return -1; }
    if (n == 0) return 0;
    int64_t save = o->pos; o->pos = off;
    ssize_t r = core_write1(o, (const char *)b, n);
    o->pos = save;
    return r;
}
static int core_trunc(InodeP i, off_t n) {
    Fault *f = sim_event(EV_TRUNC, "ftruncate", i->name, n);
    if (f) { g.fired_write_kind++; errno = EIO; return -1; }
    if (n < 0 || n > i->hole_len + (1ll << 30)) { errno = EINVAL; return -1; }
    i->resize(n);
    return 0;
}
int sim_ftruncate(int fd, off_t n) {
    OFD *o = ofd_of(fd);
    if (!o || !o->wr) { errno = EBADF; return -1; }
    return core_trunc(o->ino, n);
}
int sim_truncate(const char *p, off_t n) {
    auto it = g.files.find(canon(p));
    if (it == g.files.end()) { errno = ENOENT; return -1; }
    return core_trunc(it->second, n);
}
int sim_fsync(int fd) {
    OFD *o = ofd_of(fd);
    if (!o) { errno = EBADF; return -1; }
    Fault *f = sim_event(EV_MISC, "fsync", o->ino->name);
    if (f) { errno = EIO; return -1; }
    return 0;
}
int sim_fdatasync(int fd) { return sim_fsync(fd); }
void sim_sync(void) {}
static void fill_stat(struct stat *st, InodeP i) {
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0644; st->st_size = i->size(); st->st_blksize = 4096;
    st->st_blocks = (i->size() + 511) / 512; st->st_nlink = 1; st->st_mtime = g.env.time; st->st_ino = fnv(i->name) & 0xffffff;
}
int sim_stat(const char *p, struct stat *st) {
    std::string c = canon(p);
    Fault *f = sim_event(EV_STAT, "stat", c);
    if (f) { errno = EIO; return -1; }
    auto it = g.files.find(c);
    if (it == g.files.end()) { errno = ENOENT; return -1; }
    fill_stat(st, it->second);
    return 0;
}
int sim_lstat(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_fstat(int fd, struct stat *st) {
    OFD *o = ofd_of(fd);
    if (!o) { errno = EBADF; return -1; }
    Fault *f = sim_event(EV_STAT, "fstat", o->ino->name);
    if (f) { errno = EIO; return -1; }
    fill_stat(st, o->ino);
    return 0;
}
int sim_access(const char *p, int) {
    std::string c = canon(p);
    Fault *f = sim_event(EV_STAT, "access", c);
    if (f) { errno = EIO; return -1; }
    if (!g.files.count(c)) { errno = ENOENT; return -1; }
    return 0;
}
int sim_unlink(const char *p) {
    std::string c = canon(p);
    Fault *f = sim_event(EV_MISC, "unlink", c);
    if (f) { errno = EIO; return -1; }
    if (!g.files.erase(c)) { errno = ENOENT; return -1; }
    return 0;
}
int sim_remove(const char *p) { return sim_unlink(p); }
int sim_rename(const char *a, const char *b) {
    std::string ca = canon(a), cb = canon(b);
    Fault *f = sim_event(EV_MISC, "rename", ca);
    if (f) { errno = EIO; return -1; }
    auto it = g.files.find(ca);
    if (it == g.files.end()) { errno = ENOENT; return -1; }
    InodeP i = it->second; g.files.erase(it); i->name = cb; g.files[cb] = i;
    return 0;
}
int sim_mkstemp(char *t) {
    size_t n = strlen(t);
    static const char *al = "abcdefghijklmnopqrstuvwxyz";
    for (int k = 0; k < 6; k++) t[n - 6 + k] = al[sm(g.rnd_state) % 26];
    return sim_open(t, O_RDWR | O_CREAT | O_EXCL, 0600);
}
FILE *sim_tmpfile(void) { char t[] = "tmpfile-XXXXXX"; int fd = sim_mkstemp(t); return fd < 0 ? nullptr : sim_fdopen(fd, "w+"); }

void *sim_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
    OFD *o = ofd_of(fd);
    Fault *f = sim_event(EV_MMAP, "mmap", o ? o->ino->name : "?", len, off);
    if (f) { errno = ENOMEM; return MAP_FAILED; }
    if (fd >= 0 && !o) { errno = EBADF; return MAP_FAILED; }
    if (len == 0) { errno = EINVAL; return MAP_FAILED; }
    // private copy with the end flush against an inaccessible page when possible
    size_t pg = 4096, n = (len + pg - 1) / pg * pg;
    uint8_t *m = (uint8_t *)mmap(nullptr, n + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) return m;
    if (o && off < o->ino->size()) {
        int64_t end = std::min<int64_t>(off + len, o->ino->size()), h0 = o->ino->hole_len ? o->ino->hole_at : end, h1 = h0 + o->ino->hole_len;
        if (off < std::min(end, h0)) o->ino->rd(off, m, std::min(end, h0) - off);
        int64_t b = std::max<int64_t>(off, h1);
        if (o->ino->hole_len && b < end) o->ino->rd(b, m + (b - off), end - b);
    }
    mprotect(m, n, prot);
    mprotect(m + n, pg, PROT_NONE);
    g.maps[m] = { n + pg, m };
    return m;
}
int sim_munmap(void *a, size_t len) {
    auto it = g.maps.find(a);
    if (it == g.maps.end()) { g.alloc_violation = "munmap of an address that is not mapped"; errno = EINVAL; return -1; }
    (void)len;
    munmap(a, it->second.first);
    g.maps.erase(it);
    return 0;
}
int sim_msync(void *, size_t, int) { return 0; }

// ------------------------------------------------------------------ clock, randomness, exit
long sim_random(void) { return sm(g.rnd_state) & 0x7fffffff; }
void sim_srandom(unsigned s) { (void)s; }
int sim_rand(void) { return sm(g.rnd_state) & 0x7fffffff; }
void sim_srand(unsigned s) { (void)s; }
time_t sim_time(time_t *t) { time_t v = g.env.time + g.now / 1000; if (t) *t = v; return v; }
int sim_clock_gettime(int, struct timespec *ts) { ts->tv_sec = g.env.time + g.now / 1000; ts->tv_nsec = (g.now % 1000) * 1000000; return 0; }
int sim_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = g.env.time + g.now / 1000; tv->tv_usec = (g.now % 1000) * 1000; return 0; }
clock_t sim_clock(void) { return g.now * 1000; }
ssize_t sim_getrandom(void *b, size_t n, unsigned) {
    if (g.active) {
        Fault *f = sim_event(EV_ENTROPY, "getrandom", "", n);
        if (f) { errno = EIO; return -1; }
    }
    for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = sm(g.ent_state);
    return n;
}
long sim_syscall(long nr, ...) {
    va_list a; va_start(a, nr);
    if (nr == SYS_getrandom) {
        void *b = va_arg(a, void *); size_t n = va_arg(a, size_t);
        va_end(a);
        return sim_getrandom(b, n, 0);
    }
    va_end(a);
    errno = ENOSYS;
    return -1;
}
unsigned long __wrap_mbedtls_timing_hardclock(void) { return 0x12345678 + g.now * 17; }
void sim_exit(int code) { g.exit_code = code; leave(J_EXIT); }
void sim__exit(int code) { g.exit_code = code; leave(J_EXIT); }
void sim_abort(void) { leave(J_ABORT); }
void sim___assert_fail(const char *, const char *, unsigned, const char *) { leave(J_ABORT); }
char *sim_getenv(const char *) { return nullptr; }
#define AL(n) __attribute__((alias("sim_" #n)))
FILE *sim_fopen64(const char *, const char *) AL(fopen);
FILE *sim_freopen64(const char *, const char *, FILE *) AL(freopen);
int sim_open64(const char *, int, ...) AL(open);
off_t sim_lseek64(int, off_t, int) AL(lseek);
ssize_t sim_pread64(int, void *, size_t, off_t) AL(pread);
ssize_t sim_pwrite64(int, const void *, size_t, off_t) AL(pwrite);
int sim_ftruncate64(int, off_t) AL(ftruncate);
int sim_truncate64(const char *, off_t) AL(truncate);
int sim_stat64(const char *, struct stat *) AL(stat);
int sim_lstat64(const char *, struct stat *) AL(lstat);
int sim_fstat64(int, struct stat *) AL(fstat);
void *sim_mmap64(void *, size_t, int, int, int, off_t) AL(mmap);
FILE *sim_tmpfile64(void) AL(tmpfile);
void sim__Exit(int) AL(_exit);
int sim_mkstemp64(char *) AL(mkstemp);
char *sim_secure_getenv(const char *) AL(getenv);

// ------------------------------------------------------------------ allocation
static void *track(void *p, size_t n, int kind) { if (p) g.live[p] = AllocRec{ n, g.op, kind, g.alloc_seq++ }; return p; }
static bool alloc_fault(int cls, size_t n) {
    if (!g.active) return false;
    Fault *f = sim_event(cls, "alloc", "", n);
    if (f) { errno = ENOMEM; return true; }
    return n > (cls == EV_XALLOC ? 1ull << 30 : 256ull << 20);
}
// liblzma and mbedcrypto allocate a lot: their blocks come straight from the C library and carry a small header
extern "C" void *__libc_malloc(size_t); extern "C" void *__libc_calloc(size_t, size_t); extern "C" void __libc_free(void *);
extern "C" int __sanitizer_get_ownership(const volatile void *);
struct XHdr { XHdr *prev, *next; int op, proc; size_t n; uint64_t pad, magic; };
static_assert(sizeof(XHdr) == 48, "");
static XHdr xroot = { &xroot, &xroot, 0, 0, 0, 0, 0 };
static const uint64_t XMAGIC = 0x51b10cb10c5a11e5ull;
static void *xtrack(void *b, size_t n) {
    if (!b) return nullptr;
    XHdr *h = (XHdr *)b;
    h->op = g.op; h->proc = g.proc; h->n = n; h->magic = XMAGIC;
    h->next = xroot.next; h->prev = &xroot; h->next->prev = h; xroot.next = h;
    g.xlive++;
    return h + 1;
}
static void xdrop(XHdr *h) { h->prev->next = h->next; h->next->prev = h->prev; h->magic = 0; g.xlive--; __libc_free(h); }
static bool xowned(void *p) { return !__sanitizer_get_ownership(p) && ((uintptr_t)p & 15) == 0 && ((XHdr *)p)[-1].magic == XMAGIC; }
static void xdrop_proc(int proc) { for (XHdr *h = xroot.next; h != &xroot;) { XHdr *n = h->next; if (proc < 0 || h->proc == proc) xdrop(h); h = n; } }
static void *a_malloc(int cls, size_t n) { if (alloc_fault(cls, n)) return nullptr; void *p = malloc(n); if (p) memset(p, g.env.fill, cls == EV_XALLOC && n > 65536 ? 65536 : n); return track(p, n, cls); }
static void *a_calloc(int cls, size_t n, size_t s) {
    if (s && n > SIZE_MAX / s) { errno = ENOMEM; return nullptr; }
    if (alloc_fault(cls, n * s)) return nullptr;
    return track(calloc(n, s), n * s, cls);
}
static void a_free(void *p) {
    if (!p) return;
    g.live.erase(p);
    if (g.custom_live.count(p)) { g.alloc_violation = "memory of the replaced allocator given to free()"; return; }
    if (xowned(p)) { xdrop((XHdr *)p - 1); return; }
    free(p);
}
void *sim_malloc(size_t n) { return a_malloc(EV_ALLOC, n); }
void *sim_calloc(size_t n, size_t s) { return a_calloc(EV_ALLOC, n, s); }
void *sim_realloc(void *p, size_t n) {
    if (alloc_fault(EV_ALLOC, n)) return nullptr;
    g.live.erase(p);
    return track(realloc(p, n), n, EV_ALLOC);
}
void *sim_reallocarray(void *p, size_t n, size_t s) { return sim_realloc(p, n * s); }
void *sim_aligned_alloc(size_t a, size_t n) { if (alloc_fault(EV_ALLOC, n)) return nullptr; return track(aligned_alloc(a, n), n, EV_ALLOC); }
int sim_posix_memalign(void **o, size_t a, size_t n) { *o = sim_aligned_alloc(a, n); return *o ? 0 : ENOMEM; }
void sim_free(void *p) { a_free(p); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)a_malloc(EV_ALLOC, n); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = (char *)a_malloc(EV_ALLOC, n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void *simx_malloc(size_t n) {
    if (alloc_fault(EV_XALLOC, n)) return nullptr;
    void *p = xtrack(__libc_malloc(n + sizeof(XHdr)), n);
    if (p) memset(p, g.env.fill, n > 65536 ? 65536 : n);
    return p;
}
void *simx_calloc(size_t n, size_t s) {
    if (s && n > SIZE_MAX / s) { errno = ENOMEM; return nullptr; }
    if (alloc_fault(EV_XALLOC, n * s)) return nullptr;
    return xtrack(__libc_calloc(1, n * s + sizeof(XHdr)), n * s);
}
void simx_free(void *p) { if (!p) return; if (xowned(p)) xdrop((XHdr *)p - 1); else a_free(p); }

// replaced allocator for bpak_set_calloc_free: pointers are not usable with free()
void *simcustom_calloc(size_t n, size_t s) {
    if (s && n > SIZE_MAX / s) return nullptr;
    if (alloc_fault(EV_ALLOC, n * s)) return nullptr;
    char *b = (char *)calloc(1, n * s + 32);
    memset(b, 0x6b, 32);
    g.custom_live[b + 32] = AllocRec{ n * s, g.op, EV_ALLOC, g.alloc_seq++ };
    return b + 32;
}
void simcustom_free(void *p) {
    if (!p) return;
    auto it = g.custom_live.find(p);
    if (it == g.custom_live.end()) {
        g.alloc_violation = g.live.count(p) ? "malloc()ed memory given to the replaced allocator" : "pointer not owned by the replaced allocator was freed through it";
        if (g.live.count(p)) a_free(p);
        return;
    }
    g.custom_live.erase(it);
    free((char *)p - 32);
}
} // extern C

FILE *sim_c_fopen(const char *p, const char *m) { return sim_fopen(p, m); }
int sim_open_fds() { int n = 0; for (size_t i = 3; i < g.fds.size(); i++) if (g.fds[i]) n++; return n; }
int sim_live_allocs(int) { return g.live.size() + g.custom_live.size() + g.xlive; }
void sim_xleaks(int op, size_t &n, size_t &bytes) {
    for (XHdr *h = xroot.next; h != &xroot;) { XHdr *x = h->next; if (h->op == op) { n++; bytes += h->n; xdrop(h); } h = x; }
}

void sim_drop_process(bool flush, int proc) {
    for (size_t i = 3; i < g.fds.size(); i++) {
        OFD *o = g.fds[i];
        if (!o || (proc >= 0 && o->proc != proc)) continue;
        if (flush && o->fp) {
            bool a = g.active; g.active = true;
            fflush(o->fp);
            g.active = a;
        }
        o->open = false;
        g.fds[i] = nullptr;      // stream objects are abandoned, never flushed again
        if (o->fp) {
            // make the abandoned stream harmless
            o->wr = o->rd = false;
        }
    }
    for (auto &m : g.maps) munmap(m.first, m.second.first);
    g.maps.clear();
    xdrop_proc(proc);
    if (proc >= 0) return;
    g.live.clear();
    g.custom_live.clear();
}

static OFD so, se, si;
void sim_std_streams(bool on, const Bytes &input) {
    if (on) {
        so = OFD(); se = OFD(); si = OFD();
        so.ino = g.out; so.wr = true; so.open = true;
        se.ino = g.err; se.wr = true; se.open = true;
        si.ino = g.in; si.rd = true; si.open = true;
        g.out->data.clear(); g.err->data.clear(); g.in->data = input;
        stdout = mkstream(&so, "w");
        stderr = mkstream(&se, "w");
        setvbuf(stderr, nullptr, _IONBF, 0);
        stdin = mkstream(&si, "r");
    } else {
        stdout = real_stdout; stderr = real_stderr; stdin = real_stdin;
    }
}
