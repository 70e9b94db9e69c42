// The Python binding as seen by the executor (stubs when it is not linked in).
#pragma once
#include "scen.h"
struct PyH;
struct bpak_package;
bool py_can(const Op &o);
PyH *py_open(const std::string &f, const std::string &mode, int &rc);
bpak_package *py_pkg(PyH *h);
int py_close(PyH *h, const std::string &how);
int py_edit(PyH *h, const Op &o);
int py_once(const std::string &f, const std::string &mode, const Op &o);
int py_create(const std::string &f, int hk, int sk);
int py_verify(const std::string &f, const std::string &mode, const std::string &key);
int py_transport(bool enc, const std::string &in, const std::string &out, const std::string &org, int times, bool rewrite);
std::string py_problem();
void py_reset();
extern bool py_alloc_fired;
