#pragma once
#include "exec.h"
#include "model.h"
#include "pyh.h"
#include <functional>
#include <getopt.h>
extern "C" {
#include <bpak/bpak.h>
#include <bpak/pkg.h>
#include <bpak/crypto.h>
#include <bpak/id.h>
#include <bpak/verify.h>
#include <bpak/merkle.h>
#include <bpak/transport.h>
#include <bpak/bsdiff.h>
#include <bpak/bspatch.h>
#include <bpak/keystore.h>
#include <bpak/utils.h>
int bpak_tool_main(int argc, char **argv);
}
enum How { H_RET = 0, H_CRASH = J_CRASH, H_EXIT = J_EXIT, H_HANG = J_HANG, H_ABORT = J_ABORT };
struct OpRes { How how = H_RET; int rc = 0; bool ok = false, cli = false; std::string out, err; };
struct FileM { std::vector<PState> cands; bool loose = false; };
struct HandleM {
    bpak_package *pkg = nullptr;
    PyH *py = nullptr;          // opened through the Python binding
    std::string file;
    PState mem;
    std::vector<PState> possible, last;
    bool loose = false, lastok = true, tainted = false, dead = false;
};
struct EncRec { Bytes target, origin; bool had_origin = false, need = false; };
struct World {
    RunResult *res = nullptr;
    const Op *cur = nullptr;
    std::map<std::string, FileM> pk;        // packages whose contents the model knows
    std::set<std::string> junk;             // files that are not packages
    std::set<std::string> wild;             // files about which nothing is assumed
    std::map<int, HandleM> h;
    std::map<uint32_t, std::string> names;  // for commands that take names only
    std::map<std::string, uint64_t> snap;
    std::map<uint64_t, EncRec> enc;         // digest of encoded package -> what it stands for
    bool any_fault = false;
    uint64_t outdigest = 3;
};
extern World *W;
void viol(const std::string &cls, const std::string &detail);
How guarded(const std::function<void()> &f);
How run_cli(const std::vector<std::string> &args, const Bytes &input, OpRes &r);
How run_lib(const std::function<int()> &f, OpRes &r);
std::string join(const std::vector<std::string> &v);
bpak_package *new_pkg();
void leak_begin(); void leak_check();
bool bad_how(const Op &o, const OpRes &r);
void note_result(const Op &o, const OpRes &r);
void check_others(const Op &o, const std::set<std::string> &outs);
void rebase(const std::string &f);
void handle_crash(const Op &o);
inline bool fault_in_op() { return g.fired_in_op > 0; }
