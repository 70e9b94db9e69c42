#pragma once
#include "scen.h"
enum Exp { E_MUST, E_REFUSE, E_EITHER };
// input contents an operation may have seen (usually one)
struct Inputs { const Bytes *in = nullptr; };
Exp model_apply(PState &st, const Op &o, const Inputs &in, std::string &why);
bool is_edit(const std::string &kind);
bool is_destructive(const std::string &kind);
// data-only state of a hash-tree add
bool model_data_only(PState &st, const Op &o, const Inputs &in);
// fill in salts, roots, trees and signatures that only the code can choose, after checking them
bool adopt(PState &exp, const uint8_t *hdr, const Bytes *file, std::string &cls, std::string &err);
std::string diff_state(const PState &exp, const PState &act, bool header_only);
// compare a file with an expected state; "" if equal. exp gets wild items filled in.
std::string match_file(const Bytes &f, PState &exp, bool loose, std::string &cls);
std::string match_header(const uint8_t *hdr, PState &exp, std::string &cls);
Bytes build_file(const uint8_t *hdr, const PState &st);
uint32_t name_id(const std::string &s);      // name or 0x..
Bytes meta_bytes(const Op &o, bool &ok);
