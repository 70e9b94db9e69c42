#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so wording and anchors stay together)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

prop("C01", "A package holds exactly what its edit history put there",
 "After any sequence of successful create, add file, add key, add, change or remove metadata, delete part, delete all and re-open operations, a package holds exactly the parts and metadata that the history implies: each remaining part extracts byte for byte as it was added, each metadata value reads back as last written under its id and part reference, and nothing else is altered, lost or added. "
 "Parts stay contiguous behind the header in the order they were added, each zero-padded to the 512-byte alignment, without gaps or trailing data, and the recorded payload hash is the hash of the parts that are not excluded from hashing. "
 "Adding a part or metadata value that already exists, or one that does not fit, is refused.",
 ["histories", "inputs", "configurations"],
 "every history of edits (through one open handle, re-opened handles, the library or the tool), every part size and order, every hash kind, every chunk-buffer and stdio-buffer size",
 "the tests run a handful of fixed scripts with one or two parts, mostly small, and check one property of the result; none compares the complete package with a model after long add/delete/re-add histories",
 ["lib/pkg.c", "lib/pkg_create.c", "lib/bpak.c", "lib/verify.c"],
 [("part append and padding", "lib/pkg_create.c bpak_pkg_add_file, bpak_pkg_add_key"),
  ("part removal by moving data down", "lib/pkg.c bpak_pkg_delete_part"),
  ("metadata compaction", "lib/bpak.c bpak_del_meta"),
  ("payload hash", "lib/verify.c bpak_verify_compute_payload_hash")],
 ["package file bytes after each operation", "extracted files", "return codes"],
 [dict(name="part table", meaning="ordered list of parts", where="struct bpak_header.parts"),
  dict(name="metadata table", meaning="(id, part ref) -> bytes", where="struct bpak_header.meta/.metadata")])

prop("C02", "A damaged or altered package never verifies",
 "A correctly signed package verifies with its key however often it is read, and still does when only parts excluded from hashing change. "
 "If any byte of its header (other than the unused tail of the signature field) or of any hashed part, its padding, hash tree or root hash is altered, lost, torn or truncated, on disk or as delivered by a failing or short read, or if the key is not the signer's or the hash or signature backend reports an error, verification reports failure.",
 ["inputs", "fault_sequences", "configurations"],
 "every package, every single or multiple corruption of stored or read bytes (flip, torn sector, lost write, truncation, swap), every failing read position and backend error, all hash and signature kinds",
 "the tests corrupt four fixed offsets of fixed packages; a hole in hash coverage or an ignored read error at any other position is invisible to them",
 ["lib/verify.c", "lib/pkg_verify.c", "lib/merkle.c", "lib/crypto.c", "lib/mbedtls_wrapper.c", "src/sign.c"],
 [("header hash with signature zeroed", "lib/verify.c bpak_verify_compute_header_hash"),
  ("payload hash", "lib/verify.c bpak_verify_compute_payload_hash"),
  ("merkle check", "lib/verify.c bpak_verify_merkle_tree")],
 ["result of bpak_pkg_verify / bpak_verify_payload / exit status of `bpak verify`"])

prop("C03", "Success is reported only when the whole effect is in the file",
 "Whatever reads, writes, seeks, flushes, truncations, closes, opens, memory maps, hash computations or input files fail, return short or shrink during an operation, an operation sequence whose every step including close reports success leaves exactly the state a fault-free execution would have left: packages, extracted files and transport outputs are complete and correct. "
 "An operation that cannot achieve that reports failure to its caller.",
 ["fault_sequences", "histories"],
 "every history of operations and every placement of I/O, size-change and backend faults within it",
 "no test makes any I/O call fail, so every error path of the library and tool is unexecuted",
 ["lib/pkg.c", "lib/pkg_create.c", "lib/pkg_sign.c", "lib/transport_encode.c", "lib/transport_decode.c", "src/set.c", "src/extract.c", "src/transport.c"],
 [("return codes of stdio calls", "lib/pkg.c, lib/pkg_create.c"), ("close result", "lib/pkg.c bpak_pkg_close")],
 ["return codes of every call", "final file bytes"])

prop("C04", "A failed edit leaves the package's existing content intact",
 "When opening, adding a file, key, hash-tree part or metadata, setting a value, or signing reports failure, for any cause (I/O error, missing or unreadable input, name already present, table or space exhausted), the package re-opens with every part, metadata value and signature it had before (or with the complete new state), still verifies if it did before, and the failed change does not resurface through later successful operations on the same handle. "
 "Opening a non-empty file that cannot be read as a package never alters that file.",
 ["fault_sequences", "histories", "inputs"],
 "every non-destructive edit, every failure cause and position, every prior history and every following history on the same handle",
 "the tests never look at the package after a failed edit; failures are only checked for their exit status, if at all",
 ["lib/pkg.c", "lib/pkg_create.c", "lib/pkg_sign.c", "lib/bpak.c", "src/set.c", "src/add.c"],
 [("data appended before header is rewritten", "lib/pkg_create.c"), ("header written last", "lib/pkg.c bpak_pkg_write_header")],
 ["package bytes after the failed call and re-open", "verify result"])

prop("C05", "A crash during an edit leaves the old or the new package",
 "If the process dies at any point while adding a file, key, hash-tree part or metadata, setting a value or signing, the file re-opens as a valid package holding either the complete previous state or the complete new state (for a hash-tree add also: the data part alone), with all earlier parts intact. "
 "Further edits after such a restart behave as on any package in that state.",
 ["crash_points", "histories"],
 "every crash position between or inside the writes an operation issues, every prior history; completed writes survive, buffered data is lost",
 "no test interrupts the tool or library; write ordering between payload and header is unobservable without a crash",
 ["lib/pkg_create.c", "lib/pkg.c", "lib/pkg_sign.c", "src/set.c"],
 [("payload is written and read back for hashing before the header", "lib/pkg_create.c"), ("single header write", "lib/pkg.c bpak_pkg_write_header")],
 ["package bytes after restart", "results of edits after restart"])

prop("C06", "Transport encode then decode reproduces the package exactly",
 "For any origin and target package of the same identity, encoding the target for transport and decoding the result against the origin yields a package byte-identical to the target, including header, signature, padding and regenerated hash trees, which verifies exactly when the target does. "
 "This holds for every supported encoder/decoder pair and every mix of encoded and copied parts, part sizes, orders and positions, including origins whose parts lie at different offsets.",
 ["inputs", "histories", "configurations"],
 "all pairs of origin and target histories, all per-part transport configurations (bsdiff with heatshrink, LZMA or no compression, remove/regenerate, none), chunk sizes, several generations of updates",
 "the tests use about five fixed file pairs with one layout each; delta algorithms and offset computations depend on content, sizes and order",
 ["lib/transport_encode.c", "lib/transport_decode.c", "lib/bsdiff.c", "lib/bspatch.c", "lib/sais.c", "lib/heatshrink/heatshrink_encoder.c", "lib/heatshrink/heatshrink_decoder.c", "lib/merkle.c"],
 [("delta encoding", "lib/bsdiff.c"), ("delta application", "lib/bspatch.c"), ("part offsets", "lib/bpak.c bpak_part_offset")],
 ["decoded package bytes"])

prop("C07", "A faulty or interrupted decode never passes as a complete package",
 "If the transport package is corrupted or truncated, the origin differs from the one used for encoding, or any read, write or allocation fails or the process dies during decoding, then decoding reports failure or the output verifies as the signed target only if it is byte-identical to it. "
 "Repeating an interrupted or failed decode with intact inputs yields the exact target.",
 ["fault_sequences", "crash_points", "inputs"],
 "every corruption of the patch or origin, every fault and crash position during decode, followed by retry",
 "tests decode only intact patches without faults",
 ["lib/transport_decode.c", "lib/bspatch.c", "lib/pkg.c", "lib/verify.c"],
 [("per-part transport flag cleared only after the part is decoded", "lib/transport_decode.c bpak_transport_decode_finish"),
  ("size check after each part", "lib/transport_decode.c"), ("signature over final header", "lib/verify.c")],
 ["decode result", "verify result on the output", "output bytes"])

prop("C08", "Streaming results do not depend on chunking; callback errors surface",
 "The streaming interfaces (transport decoder, patch applier, delta generator, hash-tree builder, payload verification) produce the same output for every way of splitting the input into chunks and every working-buffer size. "
 "If an I/O callback fails, returns short or returns too little data, the interface reports failure instead of success, and never calls back outside the regions of origin and output that belong to the part being processed.",
 ["schedules", "inputs", "fault_sequences"],
 "every partition of the input into write calls, every buffer size, every failing callback position and return value",
 "the unit tests feed fixed chunk sizes and callbacks that never fail",
 ["lib/bspatch.c", "lib/bsdiff.c", "lib/transport_decode.c", "lib/merkle.c", "lib/verify.c"],
 [("bspatch state machine", "lib/bspatch.c"), ("decoder callbacks", "include/bpak/transport.h")],
 ["bytes written through callbacks", "offsets passed to callbacks", "return codes"])

prop("C09", "An origin package of another identity is refused",
 "Encoding or decoding with an origin whose package identity (the package UUID metadata) differs from that of the package being processed, or where either identity is missing, reports failure; it never reports success with such an origin. "
 "With equal identities it is not refused for that reason, and parts that need an origin fail when none is given.",
 ["inputs", "histories"],
 "all pairs of packages with equal, different (in any bit) and missing identities, with and without origin, through library, tool and streaming interface",
 "one test exercises encode with a mismatch; decode with a mismatch, missing identities and an absent origin are not tested",
 ["lib/transport_encode.c", "lib/transport_decode.c", "src/transport.c"],
 [("uuid comparison", "lib/transport_encode.c bpak_transport_encode, lib/transport_decode.c bpak_transport_decode_set_origin")],
 ["return codes", "exit status"])

prop("C10", "Damaged or hostile files are handled safely and in bounded time",
 "Every operation that reads a package, transport package, origin, keystore, key or signature file terminates after work bounded by the sizes involved and without invalid memory access, hang or abort, whatever bytes those files contain, wherever they are truncated and whichever reads fail. "
 "It either succeeds or reports an error.",
 ["inputs", "fault_sequences"],
 "arbitrary corruption of all header fields, metadata, payload, patch streams and key material, truncation at any length and failing or short reads at any position, for every operation",
 "tests flip single bytes at fixed offsets; out-of-range sizes, counts, offsets and lengths inside headers and patches are not tested",
 ["lib/bpak.c", "lib/pkg.c", "lib/transport_decode.c", "lib/bspatch.c", "lib/heatshrink/heatshrink_decoder.c", "lib/keystore_load_from_file.c", "lib/verify.c", "lib/utils.c", "src/show.c", "src/compare.c"],
 [("header validation", "lib/bpak.c bpak_valid_header"), ("bounds checks in patch applier", "lib/bspatch.c")],
 ["AddressSanitizer reports", "step count", "exit of every call"])

prop("C11", "Memory is allocated, released and checked consistently",
 "When any allocation fails, the operation reports an error without crashing, and existing package content stays as the failed-edit guarantee says; everything an operation allocated, mapped or opened is released when it and its handle are finished, on success and on every error path. "
 "All memory obtained through the replaceable allocator is returned to that same allocator and to no other.",
 ["fault_sequences", "histories", "configurations"],
 "every failing allocation position, every operation, every other fault that makes an operation leave early, with the default and a replaced allocator",
 "no test makes an allocation fail, installs an allocator together with package operations, or counts what is released",
 ["lib/mem.c", "lib/bsdiff.c", "lib/bspatch.c", "lib/transport_decode.c", "lib/pkg_create.c", "lib/mbedtls_wrapper.c", "lib/pkg_sign.c"],
 [("replaceable allocator", "lib/mem.c"), ("error unwinding", "goto err_* blocks")],
 ["allocator call log", "open files and mappings after each operation", "return codes"])

prop("C12", "The metadata table survives any history of changes intact",
 "Under any history of adding, changing, growing and removing metadata of any sizes, up to and beyond the capacity limits and in every order, all other metadata values stay byte-identical and reachable under their id and part reference, values never overlap or leave the metadata area, parts are unaffected, and space freed by removal can be used again. "
 "A change that is refused (already present, table full, no space) leaves the header unchanged.",
 ["histories", "inputs"],
 "all histories of metadata operations in memory and through files, including re-open, crash and failed write between them, at full table and full data area",
 "tests add and delete a few entries of equal size; removal of unequal neighbours and operations at capacity are not covered",
 ["lib/bpak.c", "src/set.c", "src/add.c", "lib/pkg.c"],
 [("bpak_add_meta / bpak_del_meta compaction", "lib/bpak.c"), ("grow by remove and re-add", "src/set.c")],
 ["header bytes after each operation"],
 [dict(name="metadata area", meaning="1920 bytes shared by up to 32 values", where="struct bpak_header.metadata")])

prop("C13", "Hash trees always match their data, salt and root hash",
 "A part added with a hash tree is accompanied by a tree part, salt and root hash that are exactly the SHA-256 dm-verity tree (4096-byte blocks) of that data under that salt; if that cannot be produced, for example because reading fails or the size is unsuitable, adding reports failure and the package is as before. "
 "Regenerating a removed tree while decoding gives the same bytes, and verification fails when data, tree, salt or root hash do not belong together.",
 ["inputs", "fault_sequences", "histories"],
 "every data length (one block up to several tree levels, unsuitable lengths), content, salt, failing read or write position, and any inconsistency between the four items",
 "tests compare a few fixed trees with reference output; error paths and other sizes are untested",
 ["lib/merkle.c", "lib/pkg_create.c", "lib/verify.c", "lib/transport_decode.c"],
 [("level layout", "lib/merkle.c bpak_merkle_init"), ("tree construction", "lib/merkle.c bpak_merkle_write_chunk, bpak_merkle_finish")],
 ["tree part, salt and root-hash metadata", "verify result"])

prop("C14", "Keystore lookup yields the named key or an error",
 "Loading a key from a keystore package returns exactly the public key stored under the requested key id, and only if the keystore's provider id equals the requested keystore id and the caller's header check accepts; a package therefore verifies through a keystore exactly when it was signed with the key stored there under the key id and keystore id named in its header. "
 "A wrong keystore, missing or damaged key or any read failure yields an error and no key.",
 ["inputs", "fault_sequences", "configurations"],
 "all keystores (any number, order and kind of keys, deletions, ids), all requested ids, all fault positions and corruptions",
 "one scripted keystore with one matching key is tested",
 ["lib/keystore_load_from_file.c", "lib/keystore.c", "lib/mbedtls_wrapper.c", "src/sign.c"],
 [("provider id check", "lib/keystore_load_from_file.c"), ("key part lookup", "lib/bpak.c bpak_get_part")],
 ["returned key bytes and kind", "exit status of verify --keystore"])

prop("C15", "Reading operations never modify the files they read",
 "Verifying, showing, hashing, comparing and extracting a package, loading keys or keystores, and encoding or decoding (for their input and origin packages and for files being added) leave the files they read byte-identical, whether they succeed, fail, meet read errors, truncated or foreign files, or are killed midway.",
 ["fault_sequences", "crash_points", "inputs"],
 "every reading operation, every input including non-packages and truncated files, every fault and crash position",
 "tests do not compare inputs before and after, and never with failing reads",
 ["lib/pkg.c", "src/sign.c", "src/extract.c", "src/show.c", "src/compare.c", "src/transport.c", "lib/transport_encode.c"],
 [("header is only initialised for new files", "lib/pkg.c bpak_pkg_open")],
 ["bytes of all input files before and after"])

prop("C16", "A signature covers exactly the state that was signed",
 "Signing a package after any history makes it verify with the matching public key and not with another; attaching an externally made signature over the reported package hash is equivalent to signing directly, and an oversized or empty signature is refused. "
 "Any later change to hashed parts, metadata, key id or keystore id makes verification fail until the package is signed again, for all key kinds and hash kinds; a key that cannot be loaded or used leaves the previous signature in place.",
 ["histories", "configurations", "fault_sequences"],
 "all histories interleaving edits, signing with different keys, external signing, re-signing and verification; all key and hash kinds; failing key loads and entropy",
 "tests sign once and verify once per key kind; staleness after later edits, re-signing with other keys and failures while signing are not covered",
 ["lib/pkg_sign.c", "lib/pkg_verify.c", "lib/verify.c", "lib/mbedtls_wrapper.c", "src/sign.c", "src/show.c"],
 [("hash recomputed before signing", "lib/pkg_sign.c bpak_pkg_sign"), ("raw signature attach", "lib/pkg.c bpak_pkg_write_raw_signature")],
 ["verify result after each step", "signature bytes checked with an independent verifier"])

prop("C17", "Equal edit histories produce byte-identical files",
 "The bytes of a package or transport output depend only on the sequence of edits and their inputs (plus the random salt of hash trees): not on wall-clock time, uninitialised memory, buffer sizes, how reads and writes are split, whether edits go through one handle or many, or through the library or the tool. "
 "In particular no memory contents other than the given inputs are ever written to a file.",
 ["histories", "schedules", "configurations"],
 "every history executed under different clock values, memory fill patterns, chunk and stdio buffer sizes, short-I/O schedules and handle lifetimes",
 "a test runs in one environment, so leaks of uninitialised memory or dependence on buffer sizes cannot show",
 ["lib/pkg_create.c", "lib/pkg.c", "lib/bpak.c", "lib/transport_encode.c", "lib/bsdiff.c"],
 [("explicit zero padding", "lib/pkg_create.c"), ("zeroed headers", "lib/bpak.c bpak_init_header")],
 ["file digests compared across environments"])

prop("C18", "The command-line tool's exit status tells the truth",
 "Every bpak tool command exits with status 0 exactly when the requested operation took full effect (or the requested check succeeded) and with a non-zero status and a message on standard error otherwise, including for wrong arguments, missing files, names or metadata, and any I/O failure on packages, inputs, outputs or standard output. "
 "A command that takes effect leaves the same package state as the corresponding library calls.",
 ["inputs", "fault_sequences", "histories"],
 "all commands with valid and invalid arguments after any history, with faults at every I/O position including output flush and close",
 "tests check exit status of mostly successful commands in fault-free runs",
 ["src/main.c", "src/add.c", "src/create.c", "src/delete.c", "src/extract.c", "src/set.c", "src/sign.c", "src/show.c", "src/transport.c", "src/compare.c", "src/generate.c"],
 [("action return code", "src/main.c main")],
 ["exit status", "standard error", "package state"])

prop("C19", "The Python binding matches the library and never crashes",
 "A history of package operations made through the Python module leaves the same package contents as the same history through the library, values read through it equal what is stored, and an operation that fails, including under I/O faults, raises an exception instead of returning normally. "
 "No sequence of calls, including use of packages, parts or metadata after close or deletion, crashes the interpreter or corrupts the package.",
 ["histories", "fault_sequences"],
 "all histories of calls on Package, Part and Meta objects with any lifetime order, valid and invalid arguments, and I/O faults at any position",
 "the Python tests run three fixed scripts; object lifetimes, error paths and faults are not covered",
 ["python/python_wrapper.c", "python/package.c", "python/part.c", "python/meta.c"],
 [("exception on error return", "python/package.c")],
 ["Python exceptions", "package bytes", "AddressSanitizer"])

prop("C20", "Reported differences, hashes and values match the packages",
 "Comparing two packages marks every metadata value and part present in either as equal, changed, only in the first or only in the second exactly as their contents are; part hashes, package hashes and metadata values that are shown equal those computed independently from the stored bytes. "
 "When a read fails or data is missing, the command fails instead of reporting a result.",
 ["inputs", "histories", "fault_sequences"],
 "all pairs of packages from related histories, all parts and metadata, with faults at any read",
 "compare has no test at all; part hash and show are tested on one package",
 ["src/compare.c", "src/show.c", "lib/pkg_verify.c", "lib/utils.c"],
 [("comparison loop", "src/compare.c"), ("part hash", "lib/pkg_verify.c bpak_pkg_part_sha256")],
 ["standard output and exit status of compare and show", "bpak_pkg_part_sha256 result"])

prop("C21", "Names map to stable identifiers",
 "A part or metadata name always maps to the same 32-bit identifier, a CRC-32 of its text, so packages made by different versions and languages agree on ids.",
 ["inputs"],
 "all names",
 "a few names are tested",
 ["lib/id.c", "lib/bpakcrc.c", "src/generate.c"],
 [("crc", "lib/bpakcrc.c")],
 ["bpak_id result"])

prop("C22", "The on-disk header layout is fixed",
 "The header occupies 4096 bytes with every field at its documented offset on every supported platform and compiler, so packages are interchangeable between host and target.",
 ["configurations", "programs"],
 "all compilers and target ABIs",
 "one test checks one struct size on the host",
 ["include/bpak/bpak.h"],
 [("packed structs", "include/bpak/bpak.h")],
 ["struct sizes and offsets"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
