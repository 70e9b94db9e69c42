// The simulated world: in-memory file system, stdio streams, clock, randomness,
// allocator and cryptographic entropy as seen by the code under test, with
// fault injection at every event.
#pragma once
#include "ref.h"
#include <csetjmp>
#include <cstdio>
#include <set>

enum EvClass {
    EV_OPEN, EV_CLOSE, EV_READ, EV_WRITE, EV_SEEK, EV_TRUNC, EV_STAT, EV_MMAP,
    EV_ALLOC, EV_XALLOC, EV_ENTROPY, EV_HASH, EV_CRYPTO, EV_CB, EV_MISC, EV_N
};
extern const char *ev_names[EV_N];
int ev_class(const std::string &n);

struct Fault {
    int op = -1;          // operation id
    int cls = 0;          // event class
    uint32_t nth = 0;     // n-th event of that class within the operation (0 based)
    std::string kind;     // eio, eof, short, nospc, fail, crash, torn, shrink, grow
    int sticky = 0;       // 1: until end of operation, 2: until end of run
    int64_t arg = 0;
    bool fired = false;
    bool on = false;      // sticky and active
};

struct Inode {
    std::string name;
    Bytes data;
    bool is_stream = false;     // stdout/stderr
    bool noaccess = false;
    uint64_t writes = 0;
    // one stretch of zeros that is not stored, for files of many gigabytes
    int64_t hole_at = -1, hole_len = 0;
    int64_t size() const { return (int64_t)data.size() + hole_len; }
    void rd(int64_t off, void *buf, size_t n) const;
    bool wr(int64_t off, const void *buf, size_t n);
    void resize(int64_t n);
};
typedef std::shared_ptr<Inode> InodeP;

struct OFD {                    // open file description
    InodeP ino;
    int64_t pos = 0;
    bool rd = false, wr = false, app = false;
    FILE *fp = nullptr;
    char *buf = nullptr;
    bool open = false;
    int op = 0;
    int proc = 0;               // which process opened it
};

struct Env {
    int stdio = 4096;           // stdio buffer
    uint64_t time = 1700000000;
    uint64_t rnd = 1;           // random() stream
    uint64_t ent = 1;           // entropy stream
    int fill = 0xA5;            // malloc fill
    int alloc = 0;              // 0 default allocator, 1 replaced allocator
    int hash = 0;               // 1: replaced hash backend
    int shorts = 0;             // percent of reads/writes that are short (legal)
    uint64_t shortseed = 1;
    std::string text() const;
};

struct AllocRec { size_t size; int op; int kind; uint64_t seq; };

struct Sim {
    bool active = false;        // code under test is running
    Env env;
    std::map<std::string, InodeP> files;
    std::vector<OFD *> fds;     // index 0..2 std streams
    std::map<std::string, Bytes> keys;   // harness key files (also visible as files)
    // events
    int op = 0;
    uint32_t cnt[EV_N];
    uint64_t total[EV_N];
    uint64_t events = 0, step_limit = 0;
    uint64_t now = 0;
    uint64_t trace = 1469598103934665603ull;
    std::vector<Fault> *faults = nullptr;
    std::vector<std::pair<int, std::vector<uint32_t>>> op_counts; // op id -> counts
    int fired_in_op = 0;
    int fired_write_kind = 0;   // faults in this op that hit writes to package (nospc ...)
    bool read_fault_in_op = false;
    bool resize_in_op = false;
    int grown = 0;
    bool stdout_fault = false;
    std::set<std::string> fired_files;
    bool crashed = false;
    sigjmp_buf jmp;
    bool jmp_ok = false;
    int exit_code = 0;
    uint64_t rnd_state = 1, ent_state = 1, short_state = 1;
    // allocation
    int proc = 0, procs = 0;    // simulated process that is running
    std::map<void *, AllocRec> live;
    std::map<void *, AllocRec> custom_live;
    size_t xlive = 0;           // blocks held by liblzma and mbedcrypto
    uint64_t alloc_seq = 0;
    std::map<void *, std::pair<size_t, void *>> maps;   // base -> (len, real alloc)
    std::string alloc_violation;
    InodeP out, err, in;
    bool log = false;
    std::string logtext;
};
extern Sim g;

enum { J_CRASH = 1, J_EXIT = 2, J_HANG = 3, J_ABORT = 4 };

void sim_reset(const Env &e);
const Bytes *sim_key_file(const std::string &name);
Bytes *sim_file(const std::string &path);           // nullptr if absent
void sim_put(const std::string &path, const Bytes &b);
void sim_remove(const std::string &path);
bool sim_exists(const std::string &path);
void sim_begin_op(int op);
void sim_end_op();
// returns matching fault or null; advances the event counters
Fault *sim_event(int cls, const char *what, const std::string &file, int64_t a = 0, int64_t b = 0);
// after a simulated process death or exit: drop every open stream
void sim_drop_process(bool flush, int proc = -1);
int sim_open_fds();
int sim_live_allocs(int kindmask);
void sim_xleaks(int op, size_t &n, size_t &bytes);   // blocks of this operation; they are forgotten
void sim_std_streams(bool on, const Bytes &input = Bytes());
extern "C" void *simcustom_calloc(size_t n, size_t s);
extern "C" void simcustom_free(void *p);
FILE *sim_c_fopen(const char *p, const char *m);
