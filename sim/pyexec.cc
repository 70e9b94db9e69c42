// The Python binding inside the simulated world: the repository's extension
// module runs in an embedded interpreter, its file and memory operations are
// those of the simulator, and every call through it is judged against the model.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
extern "C" {
#include <stdbool.h>
}
#include "world.h"
#include "pyh.h"
extern "C" {
#include <python_wrapper.h>
PyObject *PyInit_bpak(void);
int bpak_tool_printf(int verbosity, const char *fmt, ...);
int bpak_py_printf(int verbosity, const char *fmt, ...);
}
#include <cstdarg>

struct PyH { PyObject *pkg = nullptr; std::vector<PyObject *> held; };
static PyObject *Mod, *TPackage, *TError, *UuidT;
static std::string bad;              // complaints about how the binding reports
static int last_exc;
bool py_alloc_fired;                 // an allocation of the binding failed in this operation
static void complain(const std::string &s) { if (bad.empty()) bad = s; }
std::string py_problem() { std::string s = bad; bad.clear(); return s; }

// ------------------------------------------------------------------ messages of the library
static bool in_binding;
extern "C" int bpak_printf(int verbosity, const char *fmt, ...) {
    char b[4096];
    va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    if (in_binding) return bpak_py_printf(verbosity, "%s", b);
    if (g.proc) return bpak_tool_printf(verbosity, "%s", b);
    return 0;
}

// ------------------------------------------------------------------ allocations made for the binding
static bool pyfail(const char *what) {
    if (!g.active) return false;
    Fault *f = sim_event(EV_ALLOC, what, "");
    if (!f) return false;
    py_alloc_fired = true;
    PyErr_NoMemory();
    return true;
}
extern "C" {
PyObject *simpy_FromStringAndSize(const char *p, Py_ssize_t n) { return pyfail("PyBytes") ? nullptr : PyBytes_FromStringAndSize(p, n); }
PyObject *simpy_List_New(Py_ssize_t n) { return pyfail("PyList") ? nullptr : PyList_New(n); }
int simpy_List_Append(PyObject *l, PyObject *o) { return pyfail("PyList_Append") ? -1 : PyList_Append(l, o); }
PyObject *simpy_AsASCIIString(PyObject *o) { return pyfail("AsASCII") ? nullptr : PyUnicode_AsASCIIString(o); }
PyObject *simpy_FromLong(long v) { return pyfail("PyLong") ? nullptr : PyLong_FromLong(v); }
PyObject *simpy_Object_New(PyTypeObject *t) { return pyfail("PyObject_New") ? nullptr : _PyObject_New(t); }
PyObject *simpy_DecodeASCII(const char *p, Py_ssize_t n, const char *e) { return pyfail("DecodeASCII") ? nullptr : PyUnicode_DecodeASCII(p, n, e); }
// done once per process and remembered by the binding, so it must not depend on the run
PyObject *simpy_ImportModule(const char *n) { return PyImport_ImportModule(n); }
}

// ------------------------------------------------------------------ interpreter
static long py_blocks;               // memory blocks of the interpreter
static PyMemAllocatorEx base_alloc[3];
static void *ca_malloc(void *c, size_t n) { auto *b = (PyMemAllocatorEx *)c; void *p = b->malloc(b->ctx, n); if (p) py_blocks++; return p; }
static void *ca_calloc(void *c, size_t k, size_t n) { auto *b = (PyMemAllocatorEx *)c; void *p = b->calloc(b->ctx, k, n); if (p) py_blocks++; return p; }
static void *ca_realloc(void *c, void *o, size_t n) { auto *b = (PyMemAllocatorEx *)c; void *p = b->realloc(b->ctx, o, n); if (!o && p) py_blocks++; return p; }
static void ca_free(void *c, void *p) { auto *b = (PyMemAllocatorEx *)c; if (p) py_blocks--; b->free(b->ctx, p); }

// log functions
static int log_calls; static bool log_badargs;
static PyObject *log_ok(PyObject *, PyObject *a) {
    log_calls++;
    if (PyTuple_Size(a) != 2 || !PyLong_Check(PyTuple_GetItem(a, 0)) || !PyUnicode_Check(PyTuple_GetItem(a, 1))) log_badargs = true;
    PyErr_Clear();
    Py_RETURN_NONE;
}
static PyObject *log_raise(PyObject *, PyObject *) { log_calls++; PyErr_SetString(PyExc_RuntimeError, "from the log function"); return nullptr; }
static PyObject *log_reset(PyObject *, PyObject *) {       // replaces itself while it runs
    log_calls++;
    PyObject *r = PyObject_CallMethod(Mod, "set_log_func", "O", Py_None);
    Py_XDECREF(r);
    PyErr_Clear();
    Py_RETURN_NONE;
}
static PyObject *log_value(PyObject *, PyObject *) { log_calls++; return PyLong_FromLong(123456789); }
static PyObject *quiet(PyObject *, PyObject *) { Py_RETURN_NONE; }
static PyMethodDef md_ok = { "log_ok", log_ok, METH_VARARGS, "" }, md_raise = { "log_raise", log_raise, METH_VARARGS, "" },
                   md_reset = { "log_reset", log_reset, METH_VARARGS, "" }, md_value = { "log_value", log_value, METH_VARARGS, "" },
                   md_quiet = { "quiet", quiet, METH_VARARGS, "" };

void py_global_init() {
    PyPreConfig pre;
    PyPreConfig_InitIsolatedConfig(&pre);
    pre.allocator = PYMEM_ALLOCATOR_MALLOC;
    pre.utf8_mode = 1;
    PyStatus st = Py_PreInitialize(&pre);
    if (PyStatus_Exception(st)) { fprintf(stderr, "python: %s\n", st.err_msg); exit(2); }
    PyMemAllocatorDomain dom[3] = { PYMEM_DOMAIN_RAW, PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ };
    for (int i = 0; i < 3; i++) {
        PyMem_GetAllocator(dom[i], &base_alloc[i]);
        PyMemAllocatorEx a = { &base_alloc[i], ca_malloc, ca_calloc, ca_realloc, ca_free };
        PyMem_SetAllocator(dom[i], &a);
    }
    PyImport_AppendInittab("bpak", PyInit_bpak);
    PyConfig c;
    PyConfig_InitIsolatedConfig(&c);
    c.site_import = 0; c.use_hash_seed = 1; c.hash_seed = 0; c.write_bytecode = 0; c.install_signal_handlers = 0;
    PyConfig_SetString(&c, &c.home, L"/usr");
    PyConfig_SetString(&c, &c.program_name, L"/usr/bin/python3.12");
    st = Py_InitializeFromConfig(&c);
    if (PyStatus_Exception(st)) { fprintf(stderr, "python: %s\n", st.err_msg); exit(2); }
    PyConfig_Clear(&c);
    Mod = PyImport_ImportModule("bpak");
    PyObject *u = PyImport_ImportModule("uuid");
    if (!Mod || !u) { PyErr_Print(); exit(2); }
    TPackage = PyObject_GetAttrString(Mod, "Package");
    TError = PyObject_GetAttrString(Mod, "Error");
    UuidT = PyObject_GetAttrString(u, "UUID");
    PySys_SetObject("unraisablehook", PyCFunction_New(&md_quiet, nullptr));
    if (!TPackage || !TError || !UuidT) exit(2);
    // fill caches, so that every scenario starts from the same state
    PyObject *h = PyObject_CallFunction(UuidT, "Oy#", Py_None, "0123456789abcdef", (Py_ssize_t)16);
    Py_XDECREF(h);
    PyErr_Clear();
}
struct Scope { bool o; Scope() { o = in_binding; in_binding = true; } ~Scope() { in_binding = o; } };

void py_reset() {
    in_binding = false; py_alloc_fired = false; bad.clear(); log_calls = 0;
    PyErr_Clear();
    PyObject *r = PyObject_CallMethod(Mod, "set_log_func", "O", Py_None);
    Py_XDECREF(r);
    PyErr_Clear();
}
// 0: a value; otherwise the kind of exception, which is cleared
enum { X_FINE = 0, X_BPAK = -1, X_KEY = -2, X_VALUE = -3, X_TYPE = -4, X_OVERFLOW = -5, X_OS = -6, X_MEM = -7, X_OTHER = -8, X_ATTR = -9 };
static int result(PyObject *r, const char *what) {
    PyObject *e = PyErr_Occurred();
    if (r && e) complain(strf("%s returned a value with an exception set", what));
    if (!r && !e) { complain(strf("%s failed without an exception", what)); return X_OTHER; }
    int x = X_FINE;
    if (e) {
        if (PyErr_GivenExceptionMatches(e, TError)) x = X_BPAK;
        else if (PyErr_GivenExceptionMatches(e, PyExc_KeyError)) x = X_KEY;
        else if (PyErr_GivenExceptionMatches(e, PyExc_ValueError)) x = X_VALUE;
        else if (PyErr_GivenExceptionMatches(e, PyExc_TypeError)) x = X_TYPE;
        else if (PyErr_GivenExceptionMatches(e, PyExc_OverflowError)) x = X_OVERFLOW;
        else if (PyErr_GivenExceptionMatches(e, PyExc_OSError)) x = X_OS;
        else if (PyErr_GivenExceptionMatches(e, PyExc_MemoryError)) x = X_MEM;
        else if (PyErr_GivenExceptionMatches(e, PyExc_AttributeError)) x = X_ATTR;
        else { x = X_OTHER; complain(strf("%s raised %s", what, ((PyTypeObject *)e)->tp_name)); }
        PyErr_Clear();
    }
    last_exc = x;
    return x;
}
static int drop(PyObject *r, const char *what) { int x = result(r, what); Py_XDECREF(r); return x; }
static int setres(int rc, const char *what) {
    if (rc == 0 && PyErr_Occurred()) { complain(strf("setting %s succeeded with an exception set", what)); PyErr_Clear(); }
    if (rc != 0 && !PyErr_Occurred()) { complain(strf("setting %s failed without an exception", what)); return X_OTHER; }
    if (rc != 0) return result(nullptr, what);
    return 0;
}
static int setattr(PyObject *o, const char *n, PyObject *v) {   // steals v; null deletes
    int rc = PyObject_SetAttrString(o, n, v);
    Py_XDECREF(v);
    return setres(rc, n);
}
static void refs(PyH *h, const char *what) {
    long want = 1 + (long)h->held.size();
    if (Py_REFCNT(h->pkg) != want) complain(strf("%s left %ld references to the package, expected %ld", what, (long)Py_REFCNT(h->pkg), want));
}

// ------------------------------------------------------------------ packages
static PyObject *pkg_new(const std::string &f, const std::string &mode, int &rc) {
    PyObject *p = PyObject_CallFunction(TPackage, "ss", f.c_str(), mode.c_str());
    rc = result(p, "Package");
    return p;
}
PyH *py_open(const std::string &f, const std::string &mode, int &rc) {
    Scope s;
    PyObject *p = pkg_new(f, mode, rc);
    if (!p) return nullptr;
    PyH *h = new PyH; h->pkg = p;
    refs(h, "opening");
    return h;
}
bpak_package *py_pkg(PyH *h) { return &((BPAKPackage *)h->pkg)->pkg; }
static void release(PyH *h, bool held_first) {
    if (held_first) for (auto x : h->held) Py_DECREF(x);
    Py_DECREF(h->pkg);
    if (!held_first) for (auto x : h->held) Py_DECREF(x);
    delete h;
}
int py_close(PyH *h, const std::string &how) {
    Scope s;
    int rc = 0;
    if (how == "with") {
        rc = drop(PyObject_CallMethod(h->pkg, "__enter__", nullptr), "__enter__");
        int rc2 = drop(PyObject_CallMethod(h->pkg, "__exit__", "OOO", Py_None, Py_None, Py_None), "__exit__");
        if (!rc) rc = rc2;
    } else if (how != "drop") rc = drop(PyObject_CallMethod(h->pkg, "close", nullptr), "close");
    if (how != "drop") {
        refs(h, "closing");
        // closing is for good, whatever it reported
        if (drop(PyObject_GetAttrString(h->pkg, "digest"), "digest") == 0) complain("a closed package still gives a digest");
    }
    release(h, how == "drop" ? false : true);
    return rc;
}
bool py_can(const Op &o) {
    const std::string &k = o.kind;
    if (k == "addfile") return !o.i("nohash");
    if (k == "addkey") return !o.i("nohash");
    if (k == "addmeta") {
        if (o.has("file")) { const Bytes *b = sim_file(o.s("file")); return b && !b->empty(); }
        bool ok; meta_bytes(o, ok); return ok;
    }
    if (k == "delpart") return !o.i("keep");
    if (k == "setid") return o.has("key") != o.has("ks");
    if (k == "signraw") return !o.has("file") || sim_file(o.s("file"));
    if (k == "delall" || k == "setmeta") return false;
    return is_edit(k);
}
static PyObject *bytes_of(const Bytes &b) { return PyBytes_FromStringAndSize((const char *)b.data(), b.size()); }
static int edit(PyObject *p, const Op &o) {
    const std::string &k = o.kind;
    if (k == "addfile") {
        std::string in = o.s("in"), part = o.s("part");
        PyObject *r = o.i("merkle") ? PyObject_CallMethod(p, "add_file", "ssO", part.c_str(), in.c_str(), Py_True) : PyObject_CallMethod(p, "add_file", "ss", part.c_str(), in.c_str());
        if (r && !PyErr_Occurred()) {
            PyObject *id = PyObject_GetAttrString(r, "id");
            if (id && (uint32_t)PyLong_AsUnsignedLong(id) != ref_id(part)) complain("add_file returned another part");
            Py_XDECREF(id); PyErr_Clear();
        }
        return drop(r, "add_file");
    }
    if (k == "addkey") return drop(PyObject_CallMethod(p, "add_key", "ss", o.s("part").c_str(), o.s("keyfile", o.s("key") + ".pub.pem").c_str()), "add_key");
    if (k == "addmeta" || k == "tradd") {
        PyObject *d;
        uint32_t id = k == "tradd" ? ID_TRANSPORT : name_id(o.s("id"));
        uint32_t ref = k == "tradd" ? name_id(o.s("part")) : o.has("ref") ? name_id(o.s("ref")) : 0;
        if (k == "tradd") { Bytes b(32, 0); wr32(b.data(), ref_id(o.s("enc"))); wr32(b.data() + 4, ref_id(o.s("dec"))); d = bytes_of(b); }
        else if (o.has("file")) d = bytes_of(*sim_file(o.s("file")));
        else if (o.has("hex") || o.s("enc") != "" || o.i("asbytes")) { bool ok; d = bytes_of(meta_bytes(o, ok)); }
        else d = PyUnicode_FromString(o.s("str").c_str());
        PyObject *r = o.has("size") ? PyObject_CallMethod(p, "add_meta", "IIOn", id, ref, d, (Py_ssize_t)o.i("size"))
                                    : PyObject_CallMethod(p, "add_meta", "IIO", id, ref, d);
        Py_DECREF(d);
        return drop(r, "add_meta");
    }
    if (k == "delmeta" || k == "metaren" || k == "metaput") {
        PyObject *m = PyObject_CallMethod(p, "get_meta", "II", name_id(o.s("id")), o.has("ref") ? name_id(o.s("ref")) : 0);
        int rc = result(m, "get_meta");
        if (!m) return rc;
        if (k == "delmeta") rc = drop(PyObject_CallMethod(m, "delete", nullptr), "Meta.delete");
        else if (k == "metaren") {
            if (o.has("to")) rc = setattr(m, "id", PyLong_FromUnsignedLong(name_id(o.s("to"))));
            else if (o.s("toref") == "none") { Py_INCREF(Py_None); rc = setattr(m, "part_id_ref", Py_None); }
            else rc = setattr(m, "part_id_ref", PyLong_FromUnsignedLong(name_id(o.s("toref"))));
        } else rc = setattr(m, "raw_data", o.has("hex") ? bytes_of(unhex(o.s("hex"))) : PyUnicode_FromString(o.s("str").c_str()));
        Py_DECREF(m);
        return rc;
    }
    if (k == "delpart" || k == "partren") {
        PyObject *q = PyObject_CallMethod(p, "get_part", "I", name_id(o.s("part")));
        int rc = result(q, "get_part");
        if (!q) return rc;
        if (k == "delpart") rc = drop(PyObject_CallMethod(q, "delete", nullptr), "Part.delete");
        else {
            rc = setattr(q, "id", PyLong_FromUnsignedLong(name_id(o.s("to"))));
            PyObject *id = PyObject_GetAttrString(q, "id");
            if (id && (uint32_t)PyLong_AsUnsignedLong(id) != name_id(o.s(rc == 0 ? "to" : "part"))) complain("Part.id after setting it");
            Py_XDECREF(id); PyErr_Clear();
        }
        Py_DECREF(q);
        return rc;
    }
    if (k == "sign") return drop(PyObject_CallMethod(p, "sign", "s", o.s("keyfile", o.s("key") + ".pem").c_str()), "sign");
    if (k == "signraw") return setattr(p, "signature", bytes_of(o.has("file") ? *sim_file(o.s("file")) : unhex(o.s("hex"))));
    if (k == "clearsig") {
        if (o.i("del")) return setattr(p, "signature", nullptr);
        Py_INCREF(Py_None);
        return setattr(p, "signature", Py_None);
    }
    if (k == "setid") return o.has("key") ? setattr(p, "key_id", PyLong_FromUnsignedLong(name_id(o.s("key")))) : setattr(p, "keystore_id", PyLong_FromUnsignedLong(name_id(o.s("ks"))));
    if (k == "setkind") return o.has("hk") ? setattr(p, "hash_kind", PyLong_FromLong(o.i("hk"))) : setattr(p, "signature_kind", PyLong_FromLong(o.i("sk")));
    return -99;
}
int py_edit(PyH *h, const Op &o) {
    Scope s;
    int rc = edit(h->pkg, o);
    refs(h, o.kind.c_str());
    return rc;
}
int py_once(const std::string &f, const std::string &mode, const Op &o) {
    Scope s;
    int rc;
    PyH *h = py_open(f, mode, rc);
    if (!h) return rc;
    rc = edit(h->pkg, o);
    refs(h, o.kind.c_str());
    std::string how = o.s("end", "close");
    int rc2 = py_close(h, how);
    if (how == "drop" && g.fired_in_op) return rc ? rc : -50;    // nobody is told whether closing worked
    return rc ? rc : rc2;
}
int py_create(const std::string &f, int hk, int sk) {
    Scope s;
    int rc;
    PyH *h = py_open(f, "wb+", rc);
    if (!h) return rc;
    if (hk != 1) rc = setattr(h->pkg, "hash_kind", PyLong_FromLong(hk));
    if (!rc) rc = setattr(h->pkg, "signature_kind", PyLong_FromLong(sk));
    refs(h, "create");
    int rc2 = py_close(h, "close");
    return rc ? rc : rc2;
}
int py_verify(const std::string &f, const std::string &mode, const std::string &key) {
    Scope s;
    int rc;
    PyH *h = py_open(f, mode, rc);
    if (!h) return rc;
    PyObject *r = PyObject_CallMethod(h->pkg, "verify", "s", key.c_str());
    if (r && r != Py_True) complain("verify returned something else than True");
    rc = drop(r, "verify");
    refs(h, "verify");
    int rc2 = py_close(h, "close");
    return rc ? rc : rc2;
}
int py_transport(bool enc, const std::string &in, const std::string &out, const std::string &org, int times, bool rewrite) {
    Scope s;
    int rc;
    PyH *i = py_open(in, "rb", rc);
    if (!i) return rc;
    PyH *q = nullptr;
    if (!org.empty()) { q = py_open(org, "rb", rc); if (!q) { py_close(i, "close"); return rc; } }
    int rc3 = 0;
    for (int t = 0; t < times; t++) {
        PyH *o = py_open(out, "wb+", rc);
        rc3 = 0;
        if (!o) continue;
        const char *fn = enc ? "transport_encode" : "transport_decode";
        PyObject *r = q ? PyObject_CallMethod(Mod, fn, "OOO", i->pkg, o->pkg, q->pkg) : PyObject_CallMethod(Mod, fn, "OO", i->pkg, o->pkg);
        rc = drop(r, fn);
        if (!rc && rewrite) {
            PyObject *v = PyObject_GetAttrString(o->pkg, "key_id");
            rc = result(v, "key_id");
            if (v) {
                if (PyObject_SetAttrString(o->pkg, "key_id", v) < 0) rc = result(nullptr, "key_id");
                Py_DECREF(v);
            }
        }
        refs(i, fn); refs(o, fn); if (q) refs(q, fn);
        rc3 = py_close(o, "close");
    }
    if (q) py_close(q, "close");
    int rc2 = py_close(i, "close");
    return rc ? rc : rc3 ? rc3 : rc2;
}

// ------------------------------------------------------------------ reading through the binding
static bool faulty() { return g.fired_in_op > 0; }
static bool num(PyObject *o, const char *name, uint64_t want, std::string &err) {
    PyObject *v = PyObject_GetAttrString(o, name);
    int rc = result(v, name);
    if (!v) { if (!faulty()) err = strf("%s could not be read (%d)", name, rc); return false; }
    uint64_t x = PyLong_Check(v) ? PyLong_AsUnsignedLongLong(v) : (uint64_t)-1;
    PyErr_Clear();
    Py_DECREF(v);
    if (x != want) { err = strf("%s is %llu, expected %llu", name, (unsigned long long)x, (unsigned long long)want); return false; }
    return true;
}
static bool blob(PyObject *v, const char *name, const Bytes &want, std::string &err) {   // steals v
    int rc = result(v, name);
    if (!v) { if (!faulty()) err = strf("%s could not be read (%d)", name, rc); return false; }
    char *p; Py_ssize_t n;
    bool ok = false;
    if (PyBytes_Check(v) && PyBytes_AsStringAndSize(v, &p, &n) == 0) ok = (size_t)n == want.size() && !memcmp(p, want.data(), n);
    PyErr_Clear();
    if (Py_REFCNT(v) != 1 && PyBytes_Size(v) > 1) err = strf("%s is referenced %ld times", name, (long)Py_REFCNT(v));
    Py_DECREF(v);
    if (!ok && err.empty()) err = strf("%s differs from what is stored", name);
    return ok;
}
static std::string read_all(PyObject *p, const uint8_t *hdr, PState st, const Op &o) {
    std::string e;
    num(p, "hash_kind", st.hk, e); if (!e.empty()) return e;
    num(p, "signature_kind", st.sk, e); if (!e.empty()) return e;
    num(p, "key_id", st.key_id, e); if (!e.empty()) return e;
    num(p, "keystore_id", st.ks_id, e); if (!e.empty()) return e;
    blob(PyObject_GetAttrString(p, "signature"), "signature", st.sig, e); if (!e.empty()) return e;
    uint64_t sz = HDR, pad = 0; bool tr = false;
    for (auto &q : st.parts) { sz += q.size; pad += q.pad; if (q.flags & F_TRANSPORT) tr = true; }
    if (!tr) {
        num(p, "installed_size", sz + pad - HDR, e); if (!e.empty()) return e;
        PyObject *v = PyObject_GetAttrString(p, "size");
        result(v, "size");
        if (v) { uint64_t x = PyLong_AsUnsignedLongLong(v); Py_DECREF(v); PyErr_Clear(); if (x < sz || x > sz + pad) return strf("size is %llu, expected %llu", (unsigned long long)x, (unsigned long long)sz); }
    }
    PyObject *l = PyObject_GetAttrString(p, "parts");
    result(l, "parts");
    if (l) {
        if (!PyList_Check(l)) { Py_DECREF(l); return "parts is not a list"; }
        if (Py_REFCNT(l) != 1) e = "the list of parts is referenced more than once";
        if ((size_t)PyList_Size(l) != st.parts.size()) e = strf("%zd parts, expected %zu", PyList_Size(l), st.parts.size());
        uint64_t off = HDR;
        for (size_t i = 0; e.empty() && i < st.parts.size(); i++) {
            PyObject *q = PyList_GetItem(l, i);
            Part &m = st.parts[i];
            if (Py_REFCNT(q) != 1) e = "a listed part is referenced more than once";
            num(q, "id", m.id, e);
            if (e.empty()) num(q, "size", m.stored_len(), e);
            if (e.empty()) num(q, "offset", off, e);
            off += m.stored_len();
            if (e.empty()) {
                PyObject *t = PyObject_GetAttrString(q, "is_transport_encoded");
                result(t, "is_transport_encoded");
                if (t && (t == Py_True) != !!(m.flags & F_TRANSPORT)) e = "is_transport_encoded is wrong";
                Py_XDECREF(t);
            }
            if (e.empty() && m.stored && m.stored->size() >= m.size && !(m.flags & F_TRANSPORT))
                blob(PyObject_CallMethod(q, "read_data", nullptr), "read_data", Bytes(m.stored->begin(), m.stored->begin() + m.size), e);
            if (e.empty() && o.i("repr")) drop(PyObject_Repr(q), "repr");
        }
        Py_DECREF(l);
    } else if (!faulty()) e = "parts could not be listed";
    if (!e.empty()) return e;
    l = PyObject_GetAttrString(p, "meta");
    result(l, "meta");
    if (l) {
        if ((size_t)PyList_Size(l) != st.metas.size()) e = strf("%zd metadata values, expected %zu", PyList_Size(l), st.metas.size());
        for (size_t i = 0; e.empty() && i < st.metas.size(); i++) {
            PyObject *q = PyList_GetItem(l, i);
            PyObject *a = PyObject_GetAttrString(q, "id"); result(a, "id");
            PyObject *b = PyObject_GetAttrString(q, "part_id_ref"); result(b, "part_id_ref");
            Meta *m = a && b ? st.meta(PyLong_AsUnsignedLong(a), PyLong_AsUnsignedLong(b)) : nullptr;
            bool have = a && b;
            Py_XDECREF(a); Py_XDECREF(b); PyErr_Clear();
            if (!have) { if (!faulty()) e = "metadata id could not be read"; continue; }
            if (!m) { e = "unknown metadata is listed"; break; }
            num(q, "size", m->data.size(), e);
            if (e.empty()) blob(PyObject_GetAttrString(q, "raw_data"), "raw_data", m->data, e);
            if (!e.empty()) break;
            // as text
            std::string t((char *)m->data.data(), strnlen((char *)m->data.data(), m->data.size()));
            bool ascii = true; for (unsigned char c : t) if (c > 127) ascii = false;
            PyObject *s = PyObject_CallMethod(q, "as_string", nullptr);
            int x = result(s, "as_string");
            if (s) {
                const char *u = PyUnicode_Check(s) ? PyUnicode_AsUTF8(s) : nullptr;
                if (!u || t != u) e = "as_string differs from what is stored";
                if (!ascii) e = "as_string of a value that is not text";
                PyErr_Clear();
                Py_DECREF(s);
            } else if (ascii && !faulty()) e = strf("as_string failed (%d)", x);
            if (!e.empty()) break;
            if (m->data.size() == 16) {
                s = PyObject_CallMethod(q, "as_uuid", nullptr);
                result(s, "as_uuid");
                if (s) {
                    PyObject *hx = PyObject_GetAttrString(s, "hex");
                    const char *u = hx ? PyUnicode_AsUTF8(hx) : nullptr;
                    if (!u || hex(m->data.data(), 16) != u) e = "as_uuid differs from what is stored";
                    Py_XDECREF(hx); Py_DECREF(s); PyErr_Clear();
                } else if (!faulty()) e = "as_uuid failed";
            } else {
                s = PyObject_CallMethod(q, "as_uuid", nullptr);
                if (result(s, "as_uuid") == 0) e = "as_uuid of a value that is no uuid";
                Py_XDECREF(s);
            }
            if (e.empty() && o.i("repr")) drop(PyObject_Repr(q), "repr");
        }
        Py_DECREF(l);
    } else if (!faulty()) e = "metadata could not be listed";
    if (!e.empty()) return e;
    if (!tr && o.i("digest", 1)) {
        Bytes h(hdr, hdr + HDR), ph = ref_payload_hash(st);
        bool whole = true; for (auto &q : st.parts) if (!q.stored || q.wild_tree) whole = false;
        for (size_t i = 0; i < ph.size(); i++) h[OFF_PHASH + i] = ph[i];
        PyObject *d = PyObject_GetAttrString(p, "digest");
        if (whole) blob(d, "digest", ref_header_hash(h.data()), e); else drop(d, "digest");
    }
    return e;
}
// calls that must all fail on objects that are no longer usable
static std::string must_fail(PyObject *o, const std::vector<std::string> &methods, const std::vector<std::string> &getters, const std::vector<std::string> &setters, const char *what) {
    for (auto &m : methods) {
        PyObject *f = PyObject_GetAttrString(o, m.c_str());
        if (!f) { PyErr_Clear(); continue; }
        PyObject *r = nullptr;
        if (m == "verify" || m == "sign") r = PyObject_CallFunction(f, "s", m == "sign" ? "p256a.pem" : "p256a.pub.pem");
        else if (m == "add_file" || m == "add_key") r = PyObject_CallFunction(f, "ss", "nopart", "p256a.pub.pem");
        else if (m == "add_meta") r = PyObject_CallFunction(f, "IIy", 77, 0, "abc");
        else if (m == "get_part" || m == "get_meta") r = PyObject_CallFunction(f, "I", 77);
        else r = PyObject_CallFunction(f, nullptr);
        Py_DECREF(f);
        if (drop(r, m.c_str()) == 0) return strf("%s succeeds on %s", m.c_str(), what);
    }
    for (auto &m : getters) if (drop(PyObject_GetAttrString(o, m.c_str()), m.c_str()) == 0) return strf("%s can be read from %s", m.c_str(), what);
    for (auto &m : setters) {
        PyObject *v = m == "signature" || m == "raw_data" ? PyBytes_FromString("abc") : PyLong_FromLong(1);
        if (setattr(o, m.c_str(), v) == 0) return strf("%s can be set on %s", m.c_str(), what);
    }
    if (drop(PyObject_Repr(o), "repr") != 0) {}
    return "";
}
static const std::vector<std::string> P_M = { "verify", "sign", "add_file", "add_key", "add_meta", "get_part", "get_meta", "__enter__" },
    P_G = { "digest", "hash_kind", "installed_size", "key_id", "keystore_id", "signature", "signature_kind", "size", "parts", "meta" },
    P_S = { "hash_kind", "key_id", "keystore_id", "signature", "signature_kind" },
    Q_M = { "read_data", "delete" }, Q_G = { "size", "offset", "is_transport_encoded" }, Q_S = { "id" },
    M_M = { "as_string", "as_uuid", "delete" }, M_G = { "size", "raw_data" }, M_S = { "id", "part_id_ref", "raw_data" };

// misuse of an open package; header and file must stay as they are
static std::string misuse(PyH *h, const Op &o, PState &st) {
    std::string what = o.s("what");
    PyObject *p = h->pkg;
    auto wrong = [&](const char *name, PyObject *v) -> std::string { return setattr(p, name, v) == 0 ? strf("%s accepts a value it cannot hold", name) : ""; };
    auto none = []() { Py_INCREF(Py_None); return Py_None; };
    std::string e;
    if (what == "types") {
        for (const char *n : { "key_id", "keystore_id", "hash_kind", "signature_kind" }) {
            bool small = strstr(n, "kind");
            if (!(e = wrong(n, none())).empty()) return e;
            if (!(e = wrong(n, PyUnicode_FromString("1"))).empty()) return e;
            if (!(e = wrong(n, PyFloat_FromDouble(1.0))).empty()) return e;
            if (!(e = wrong(n, PyLong_FromLong(-1))).empty()) return e;
            if (!(e = wrong(n, PyLong_FromLongLong(small ? 256 : 1LL << 32))).empty()) return e;
            if (!(e = wrong(n, PyLong_FromString("999999999999999999999999999999", nullptr, 10))).empty()) return e;
            if (!(e = wrong(n, nullptr)).empty()) return e;
        }
        if (!(e = wrong("signature", PyUnicode_FromString("abc"))).empty()) return e;
        if (!(e = wrong("signature", PyLong_FromLong(3))).empty()) return e;
        if (!(e = wrong("signature", PyBytes_FromStringAndSize(nullptr, 0))).empty()) return e;
        PyObject *big = PyBytes_FromStringAndSize(nullptr, 513); memset(PyBytes_AsString(big), 7, 513);
        if (!(e = wrong("signature", big)).empty()) return e;
        for (const char *n : { "digest", "installed_size", "size", "parts", "meta" }) if (!(e = wrong(n, PyLong_FromLong(1))).empty()) return e;
    } else if (what == "args") {
        auto bad = [&](PyObject *r, const char *m) -> std::string { return drop(r, m) == 0 ? strf("%s accepts arguments it must refuse", m) : ""; };
        if (!(e = bad(PyObject_CallMethod(p, "add_meta", "I", 77), "add_meta")).empty()) return e;
        if (!(e = bad(PyObject_CallMethod(p, "add_meta", "IIi", 77, 0, 5), "add_meta")).empty()) return e;
        if (!(e = bad(PyObject_CallMethod(p, "add_meta", "IIyn", 77, 0, "a", (Py_ssize_t)5000), "add_meta")).empty()) return e;
        if (!(e = bad(PyObject_CallMethod(p, "add_meta", "IIyn", 77, 0, "a", (Py_ssize_t)65536), "add_meta")).empty()) return e;
        if (!(e = bad(PyObject_CallMethod(p, "add_meta", "IIyn", 77, 0, "a", (Py_ssize_t)65537 * 65536), "add_meta")).empty()) return e;
        PyObject *u = PyUnicode_FromString("gr\xc3\xbc\xc3\x9f");
        if (!(e = bad(PyObject_CallMethod(p, "add_meta", "IIO", 77, 0, u), "add_meta")).empty()) { Py_DECREF(u); return e; }
        if (!(e = bad(PyObject_CallMethod(p, "add_file", "sO", "x", u), "add_file")).empty()) { Py_DECREF(u); return e; }
        if (!(e = bad(PyObject_CallMethod(p, "verify", "O", u), "verify")).empty()) { Py_DECREF(u); return e; }
        Py_DECREF(u);
        PyObject *z = PyUnicode_FromStringAndSize("in0\0x", 5);
        if (!(e = bad(PyObject_CallMethod(p, "add_file", "sO", "x", z), "add_file")).empty()) { Py_DECREF(z); return e; }
        Py_DECREF(z);
        if (!(e = bad(PyObject_CallMethod(p, "add_file", "sO", "x", Py_None), "add_file")).empty()) return e;
        if (!(e = bad(PyObject_CallMethod(p, "add_file", nullptr), "add_file")).empty()) return e;
        if (!(e = bad(PyObject_CallMethod(p, "sign", "i", 3), "sign")).empty()) return e;
        if (!(e = bad(PyObject_CallMethod(p, "get_part", "s", "x"), "get_part")).empty()) return e;
        if (!(e = bad(PyObject_CallMethod(p, "get_part", "I", 77), "get_part")).empty()) return e;
        if (!(e = bad(PyObject_CallMethod(p, "get_meta", "II", 77, 78), "get_meta")).empty()) return e;
        if (!(e = bad(PyObject_CallMethod(Mod, "id", "i", 3), "id")).empty()) return e;
        if (!(e = bad(PyObject_CallMethod(Mod, "transport_encode", "OO", p, p), "transport_encode")).empty()) return e;
        if (!(e = bad(PyObject_CallMethod(Mod, "transport_decode", "OO", p, p), "transport_decode")).empty()) return e;
        if (!(e = bad(PyObject_CallMethod(Mod, "transport_decode", "Oi", p, 1), "transport_decode")).empty()) return e;
        if (!(e = bad(PyObject_CallMethod(p, "read_data", nullptr), "read_data")).empty()) return e;
    } else if (what == "names") {
        PyObject *v = PyObject_CallMethod(Mod, "id", "s", o.s("name").c_str());
        if (result(v, "id") == 0 && (uint32_t)PyLong_AsUnsignedLong(v) != ref_id(o.s("name"))) e = "id of a name is wrong";
        Py_XDECREF(v); PyErr_Clear();
        return e;
    } else if (what == "partid" && !st.parts.empty()) {
        PyObject *q = PyObject_CallMethod(p, "get_part", "I", st.parts[0].id);
        if (result(q, "get_part")) return faulty() ? "" : "an existing part is not found";
        PyObject *vals[] = { PyLong_FromLong(0), PyLong_FromLongLong(1LL << 32), PyLong_FromLong(-5), PyUnicode_FromString("a"), nullptr };
        for (auto v : vals) if (setattr(q, "id", v) == 0) e = "a part accepts an unusable id";
        if (e.empty() && st.parts.size() > 1 && setattr(q, "id", PyLong_FromUnsignedLong(st.parts[1].id)) == 0) e = "two parts get the same id";
        Py_DECREF(q);
    } else if (what == "metaid" && !st.metas.empty()) {
        Meta &m = st.metas[o.i("pick") % st.metas.size()];
        PyObject *q = PyObject_CallMethod(p, "get_meta", "II", m.id, m.ref);
        if (result(q, "get_meta")) return faulty() ? "" : "existing metadata is not found";
        PyObject *vals[] = { PyLong_FromLong(0), PyLong_FromLongLong(1LL << 32), PyLong_FromLong(-5), PyUnicode_FromString("a"), nullptr };
        for (auto v : vals) if (setattr(q, "id", v) == 0) e = "metadata accepts an unusable id";
        PyObject *v2[] = { PyLong_FromLongLong(1LL << 32), PyLong_FromLong(-5), PyUnicode_FromString("a"), nullptr };
        for (auto v : v2) if (setattr(q, "part_id_ref", v) == 0) e = "metadata accepts an unusable part reference";
        PyObject *v3[] = { PyLong_FromLong(4), PyBytes_FromStringAndSize(nullptr, m.data.size() + 1), nullptr };
        if (v3[1]) memset(PyBytes_AsString(v3[1]), 9, m.data.size() + 1);
        for (auto v : v3) if (setattr(q, "raw_data", v) == 0) e = "metadata accepts an unusable value";
        for (auto &x : st.metas) if (e.empty() && x.id != m.id && x.ref == m.ref && setattr(q, "id", PyLong_FromUnsignedLong(x.id)) == 0) e = "two metadata values get the same id";
        Py_DECREF(q);
    } else if (what == "closed" || what == "blank") {
        PyObject *c = nullptr;
        if (what == "blank") { PyTypeObject *t = (PyTypeObject *)TPackage; PyObject *a = PyTuple_New(0); c = t->tp_new(t, a, nullptr); Py_DECREF(a); result(c, "__new__"); }
        else {
            int rc; c = pkg_new(o.s("other"), "rb", rc);
            if (c && drop(PyObject_CallMethod(c, "close", nullptr), "close") && !faulty()) e = "close failed";
        }
        if (!c) return faulty() || !W->pk.count(o.s("other")) ? "" : "a package could not be opened for reading";
        if (e.empty()) e = must_fail(c, P_M, P_G, P_S, what == "blank" ? "an uninitialised package" : "a closed package");
        if (e.empty() && drop(PyObject_CallMethod(Mod, "transport_encode", "OO", p, c), "transport_encode") == 0) e = "encoding into a closed package";
        if (e.empty() && drop(PyObject_CallMethod(Mod, "transport_decode", "OO", c, p), "transport_decode") == 0) e = "decoding a closed package";
        drop(PyObject_CallMethod(c, "close", nullptr), "close");
        if (Py_REFCNT(c) != 1) complain("a closed package is referenced by failed calls");
        Py_DECREF(c);
    } else if (what == "zombie") {       // objects of a package that is closed meanwhile
        int rc; PyObject *c = pkg_new(o.s("other"), "rb", rc);
        if (!c) return "";
        PyObject *l = PyObject_GetAttrString(c, "parts"); result(l, "parts");
        PyObject *m = PyObject_GetAttrString(c, "meta"); result(m, "meta");
        if (l && m) {
            if (o.i("close")) {
                drop(PyObject_CallMethod(c, "close", nullptr), "close");
                for (Py_ssize_t i = 0; e.empty() && i < PyList_Size(l); i++) e = must_fail(PyList_GetItem(l, i), Q_M, Q_G, Q_S, "a part of a closed package");
                for (Py_ssize_t i = 0; e.empty() && i < PyList_Size(m); i++) e = must_fail(PyList_GetItem(m, i), M_M, M_G, M_S, "metadata of a closed package");
            } else {                      // the package lives as long as its parts do
                Py_DECREF(c); c = nullptr;
                for (Py_ssize_t i = 0; i < PyList_Size(l); i++) { drop(PyObject_CallMethod(PyList_GetItem(l, i), "read_data", nullptr), "read_data"); drop(PyObject_Repr(PyList_GetItem(l, i)), "repr"); }
                for (Py_ssize_t i = 0; i < PyList_Size(m); i++) { drop(PyObject_GetAttrString(PyList_GetItem(m, i), "raw_data"), "raw_data"); drop(PyObject_Repr(PyList_GetItem(m, i)), "repr"); }
            }
        }
        Py_XDECREF(l); Py_XDECREF(m); Py_XDECREF(c);
    } else if (what == "missing") {
        PyObject *q = PyObject_CallFunction(TPackage, "ss", "no-such-file", "rb");
        if (drop(q, "Package") == 0) e = "a missing file was opened";
        q = PyObject_CallFunction(TPackage, "s", "no-such-file");
        if (drop(q, "Package") == 0) e = "a package was opened without a mode";
        q = PyObject_CallFunction(TPackage, nullptr);
        if (drop(q, "Package") == 0) e = "a package was opened without a name";
        q = PyObject_CallFunction(TPackage, "is", 5, "rb");
        if (drop(q, "Package") == 0) e = "a number was opened as a package";
    } else if (what == "reinit") {        // initialising again must release what was open
        int rc; PyObject *c = pkg_new(o.s("other"), "rb", rc);
        if (!c) return "";
        int fds = sim_open_fds();
        if (drop(PyObject_CallMethod(c, "__init__", "ss", "no-such-file", "rb"), "__init__") == 0) e = "a missing file was opened";
        if (e.empty() && !faulty() && sim_open_fds() >= fds) e = "initialising a package again leaks its file";
        if (e.empty() && !faulty()) e = must_fail(c, P_M, P_G, P_S, "a package whose initialisation failed");
        if (e.empty()) { drop(PyObject_CallMethod(c, "__init__", "ss", o.s("other").c_str(), "rb"), "__init__"); drop(PyObject_GetAttrString(c, "digest"), "digest"); }
        Py_DECREF(c);
    }
    return e;
}
static std::string stale(PyH *h, const Op &o, PState &st) {
    // parts and metadata that are deleted through another object; only on a private copy of the package
    int rc; std::string f = o.s("other"), e;
    PyObject *c = pkg_new(f, "rb+", rc);
    if (!c) return "";
    PyObject *l = PyObject_GetAttrString(c, "parts"); result(l, "parts");
    PyObject *m = PyObject_GetAttrString(c, "meta"); result(m, "meta");
    if (l) for (Py_ssize_t i = 0; e.empty() && i < PyList_Size(l); i++) {
        PyObject *q = PyList_GetItem(l, i);
        PyObject *id = PyObject_GetAttrString(q, "id");
        PyObject *q2 = id ? PyObject_CallMethod(c, "get_part", "O", id) : nullptr;
        Py_XDECREF(id);
        result(q2, "get_part");
        if (q2) {
            if (drop(PyObject_CallMethod(q2, "delete", nullptr), "delete") == 0) {
                e = must_fail(q, Q_M, Q_G, Q_S, "a deleted part");
                if (e.empty()) e = must_fail(q2, Q_M, Q_G, Q_S, "a deleted part");
            } else if (!faulty()) e = "deleting a part failed";
            Py_DECREF(q2);
        }
        if (faulty()) break;
    }
    if (m) for (Py_ssize_t i = 0; e.empty() && i < PyList_Size(m); i++) {
        PyObject *q = PyList_GetItem(m, i);
        if (drop(PyObject_CallMethod(q, "delete", nullptr), "delete") == 0) e = must_fail(q, M_M, M_G, M_S, "deleted metadata");
        if (faulty()) break;
    }
    Py_XDECREF(l); Py_XDECREF(m);
    if (Py_REFCNT(c) != 1) complain("deleted parts keep references to their package");
    Py_DECREF(c);
    (void)h; (void)st;
    return e;
}
static PyObject *logger(const std::string &w) {
    PyMethodDef *d = w == "raise" ? &md_raise : w == "reset" ? &md_reset : w == "value" ? &md_value : &md_ok;
    return PyCFunction_New(d, nullptr);
}
// an operation repeated; memory of the interpreter must not grow with it
static std::string loop(PyH *h, const Op &o, PState &st) {
    std::string what = o.s("what");
    PyObject *p = h->pkg;
    auto once = [&]() {
        if (what == "digest") drop(PyObject_GetAttrString(p, "digest"), "digest");
        else if (what == "lists") { drop(PyObject_GetAttrString(p, "parts"), "parts"); drop(PyObject_GetAttrString(p, "meta"), "meta"); drop(PyObject_GetAttrString(p, "signature"), "signature"); }
        else if (what == "open") { int rc; PyObject *c = pkg_new(o.s("other"), "rb", rc); Py_XDECREF(c); }
        else if (what == "openfail") { int rc; PyObject *c = pkg_new("missing-package-with-a-long-name", "rb", rc); Py_XDECREF(c); }
        else if (what == "addfail") drop(PyObject_CallMethod(p, "add_file", "ss", "x", "missing-file-with-a-long-name"), "add_file");
        else if (what == "keyfail") { drop(PyObject_CallMethod(p, "add_key", "ss", "x", "missing-key-with-a-long-name"), "add_key"); drop(PyObject_CallMethod(p, "sign", "s", "missing-key-with-a-long-name"), "sign"); }
        else if (what == "verify") drop(PyObject_CallMethod(p, "verify", "s", "p256a.pub.pem"), "verify");
        else if (what == "verifyfail") drop(PyObject_CallMethod(p, "verify", "s", "missing-key-with-a-long-name"), "verify");
        else if (what == "metafail") {
            PyObject *s = PyUnicode_FromString("a long value of metadata that is longer than the space that was given to it");
            drop(PyObject_CallMethod(p, "add_meta", "IIOn", 77, 0, s, (Py_ssize_t)5000), "add_meta");
            if (!st.metas.empty()) {
                PyObject *m = PyObject_CallMethod(p, "get_meta", "II", st.metas[0].id, st.metas[0].ref);
                result(m, "get_meta");
                if (m) { if (st.metas[0].data.size() < 60) { Py_INCREF(s); setattr(m, "raw_data", s); } drop(PyObject_CallMethod(m, "as_string", nullptr), "as_string"); drop(PyObject_CallMethod(m, "as_uuid", nullptr), "as_uuid"); drop(PyObject_GetAttrString(m, "raw_data"), "raw_data"); drop(PyObject_Repr(m), "repr"); Py_DECREF(m); }
            }
            Py_DECREF(s);
        } else if (what == "read") {
            if (!st.parts.empty()) {
                PyObject *q = PyObject_CallMethod(p, "get_part", "I", st.parts[0].id);
                result(q, "get_part");
                if (q) { drop(PyObject_CallMethod(q, "read_data", nullptr), "read_data"); drop(PyObject_Repr(q), "repr"); drop(PyObject_GetAttrString(q, "offset"), "offset"); setattr(q, "id", PyLong_FromLong(0)); Py_DECREF(q); }
            }
            drop(PyObject_CallMethod(p, "get_part", "I", 77), "get_part");
        } else if (what == "log") {
            PyObject *f = logger("ok");
            drop(PyObject_CallMethod(Mod, "set_log_func", "O", f), "set_log_func");
            Py_DECREF(f);
            drop(PyObject_CallMethod(p, "add_file", "ss", "x", "missing-file-with-a-long-name"), "add_file");
            drop(PyObject_CallMethod(Mod, "set_log_func", "O", Py_None), "set_log_func");
            drop(PyObject_CallMethod(Mod, "set_log_func", "i", 3), "set_log_func");
        }
    };
    size_t live0 = g.live.size(); int fd0 = sim_open_fds();
    for (int i = 0; i < 8 && !faulty(); i++) once();
    PyType_ClearCache();                  // it keeps names that were looked up
    long b0 = py_blocks;
    for (int i = 0; i < 40 && !faulty(); i++) once();
    if (faulty()) return "";
    PyType_ClearCache();
    if (py_blocks - b0 >= 38) return strf("repeating '%s' 40 times leaks %ld objects", what.c_str(), py_blocks - b0);
    if (g.live.size() > live0) return strf("repeating '%s' leaks memory", what.c_str());
    if (sim_open_fds() > fd0) return strf("repeating '%s' leaks files", what.c_str());
    return "";
}
// any file, hostile ones included: only how the binding behaves is judged
static void op_probe(const Op &o) {
    OpRes r;
    std::string f = o.s("f");
    bool ed = o.i("edit");
    leak_begin();
    run_lib([&] {
        Scope s;
        int rc; PyObject *c = pkg_new(f, ed ? "r+" : "rb", rc);
        if (!c) return rc;
        for (auto &n : P_G) drop(PyObject_GetAttrString(c, n.c_str()), n.c_str());
        PyObject *l = PyObject_GetAttrString(c, "parts"); result(l, "parts");
        PyObject *m = PyObject_GetAttrString(c, "meta"); result(m, "meta");
        if (l) for (Py_ssize_t i = 0; i < PyList_Size(l); i++) {
            PyObject *q = PyList_GetItem(l, i);
            for (auto &n : Q_G) drop(PyObject_GetAttrString(q, n.c_str()), n.c_str());
            drop(PyObject_GetAttrString(q, "id"), "id");
            drop(PyObject_CallMethod(q, "read_data", nullptr), "read_data");
            drop(PyObject_Repr(q), "repr");
        }
        if (m) for (Py_ssize_t i = 0; i < PyList_Size(m); i++) {
            PyObject *q = PyList_GetItem(m, i);
            for (auto &n : M_G) drop(PyObject_GetAttrString(q, n.c_str()), n.c_str());
            drop(PyObject_CallMethod(q, "as_string", nullptr), "as_string");
            drop(PyObject_CallMethod(q, "as_uuid", nullptr), "as_uuid");
            drop(PyObject_Repr(q), "repr");
        }
        drop(PyObject_CallMethod(c, "verify", "s", "p256a.pub.pem"), "verify");
        if (ed) {
            if (m) for (Py_ssize_t i = 0; i < PyList_Size(m); i++) { PyObject *q = PyList_GetItem(m, i); setattr(q, "raw_data", PyBytes_FromString("ab")); setattr(q, "id", PyLong_FromLong(500 + i)); }
            if (l) for (Py_ssize_t i = 0; i < PyList_Size(l) && i < 3; i++) { PyObject *q = PyList_GetItem(l, i); if (i) setattr(q, "id", PyLong_FromLong(900 + i)); else drop(PyObject_CallMethod(q, "delete", nullptr), "delete"); }
            drop(PyObject_CallMethod(c, "add_meta", "IIs", 4711, 0, "hello"), "add_meta");
            drop(PyObject_CallMethod(c, "add_file", "ss", "probe", "p256a.pub.pem"), "add_file");
            drop(PyObject_CallMethod(c, "sign", "s", "p256a.pem"), "sign");
        }
        Py_XDECREF(l); Py_XDECREF(m);
        if (Py_REFCNT(c) != 1) complain("references to a package remain");
        Py_DECREF(c);
        return 0;
    }, r);
    note_result(o, r);
    if (bad_how(o, r)) return;
    if (r.how == H_RET) leak_check();
    check_others(o, ed ? std::set<std::string>{ f } : std::set<std::string>{});
    if (ed) { W->pk.erase(f); W->wild.insert(f); }
}
bool exec_py(const Op &o) {
    const std::string &k = o.kind;
    if (k == "pyprobe") { op_probe(o); return true; }
    if (k != "pyget" && k != "pyuse" && k != "pyloop" && k != "pylog" && k != "pyhold") return false;
    if (k == "pylog") {
        std::string w = o.s("how", "none");
        OpRes r;
        run_lib([&] {
            Scope s;
            if (w == "none") return drop(PyObject_CallMethod(Mod, "set_log_func", "O", Py_None), "set_log_func");
            if (w == "bad") return drop(PyObject_CallMethod(Mod, "set_log_func", "i", 5), "set_log_func") == 0 ? -77 : 0;
            PyObject *f = logger(w);
            int rc = drop(PyObject_CallMethod(Mod, "set_log_func", "O", f), "set_log_func");
            Py_DECREF(f);                // the module holds the only reference
            return rc;
        }, r);
        note_result(o, r);
        if (r.rc == -77) viol("py", "set_log_func accepts a number");
        else if (!r.ok && !faulty() && r.how == H_RET) viol("py", "set_log_func failed");
        bad_how(o, r);
        return true;
    }
    auto it = W->h.find(o.i("h"));
    PyH *h = nullptr;
    if (it == W->h.end() || !it->second.py || it->second.dead) return true;
    h = it->second.py;
    HandleM &m = it->second;
    if (k == "pyhold") {                  // keep objects of the package for later
        OpRes r;
        run_lib([&] {
            Scope s;
            if (o.i("free")) { for (auto x : h->held) Py_DECREF(x); h->held.clear(); refs(h, "dropping parts"); return 0; }
            PyObject *l = PyObject_GetAttrString(h->pkg, o.i("meta") ? "meta" : "parts");
            int rc = result(l, "list");
            if (l) { for (Py_ssize_t i = 0; i < PyList_Size(l); i++) { PyObject *x = PyList_GetItem(l, i); Py_INCREF(x); h->held.push_back(x); } Py_DECREF(l); }
            refs(h, "listing");
            return rc;
        }, r);
        note_result(o, r);
        bad_how(o, r);
        return true;
    }
    std::string e;
    Bytes h0((uint8_t *)&m.pkg->header, (uint8_t *)&m.pkg->header + HDR);
    const Bytes *fb = sim_file(m.file);
    bool rd = k == "pyget";
    Bytes f0 = fb ? *fb : Bytes();
    bool st_alter = k == "pyuse" && o.s("what") == "stale";
    OpRes r;
    leak_begin();
    run_lib([&] {
        Scope s;
        if (k == "pyget") e = read_all(h->pkg, h0.data(), m.mem, o);
        else if (k == "pyloop") e = loop(h, o, m.mem);
        else e = st_alter ? stale(h, o, m.mem) : misuse(h, o, m.mem);
        refs(h, k.c_str());
        return 0;
    }, r);
    std::set<std::string> outs = { m.file };
    if (st_alter) { outs.insert(o.s("other")); W->pk.erase(o.s("other")); W->wild.insert(o.s("other")); }
    note_result(o, r);
    if (bad_how(o, r)) { W->pk.erase(m.file); m.dead = true; return true; }
    if (r.how == H_RET) leak_check();
    check_others(o, outs);
    if (!e.empty()) viol("py", k + " " + o.s("what") + ": " + e);
    // the recorded payload hash may have been brought up to date, nothing else
    Bytes h1((uint8_t *)&m.pkg->header, (uint8_t *)&m.pkg->header + HDR);
    for (int i = 0; i < 64; i++) h0[OFF_PHASH + i] = h1[OFF_PHASH + i];
    if (h0 != h1) { viol("py", k + " " + o.s("what") + " changed the package in memory"); m.dead = true; }
    (void)rd; (void)f0;
    if (faulty()) m.tainted = true;
    return true;
}
