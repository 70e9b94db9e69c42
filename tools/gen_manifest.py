#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'deterministic simulation with fault injection: seeded search over edit histories, environments and fault sequences against a reference model'
N = {
 'C01': ('exploration', 'After every successful operation the file is read by an independent reader and compared with a model of the edit history. Sampled histories, both interfaces, no faults in the first run of a seed, then faults.'),
 'C02': ('exploration', 'Signed packages are damaged (bits, lengths, swaps, truncation, re-hashed headers, foreign keys, failing reads and hash backends) and verified; acceptance is judged by a reference verifier using its own parser and mbedcrypto primitives.'),
 'C03': ('fault_enumeration', 'For sampled histories faults are placed on the I/O events that the fault-free run had; success must coincide with the complete effect being in the file.'),
 'C04': ('fault_enumeration', 'As C03, judging what a failed operation leaves in the file and in the open handle.'),
 'C05': ('fault_enumeration', 'Crashes (also torn writes) at sampled write, read and close events of an edit; only the simulated disk survives; the file must be the old or the new package.'),
 'C06': ('exploration', 'Encode against an origin and decode through tool, library and streaming interface; result compared byte for byte with the encoded target by reference.'),
 'C07': ('fault_enumeration', 'Faults and crashes during decode and damaged transport packages; a reported success must be the target, and a retry without faults must succeed.'),
 'C08': ('exploration', 'Streaming decode, bsdiff/bspatch, hash trees and verification under random chunking and failing or short callbacks, with callbacks checked for leaving their regions.'),
 'C09': ('exploration', 'Origins with the same, another, missing or malformed identity; acceptance judged by comparing the identities read by the reference parser.'),
 'C10': ('exploration', 'Corrupted packages, patches, keystores and keys are fed to every operation under AddressSanitizer, with a step and processor-time limit.'),
 'C11': ('fault_enumeration', 'The n-th allocation of an operation fails, sizes and alignment are checked, custom allocators and leaked blocks, files and mappings are accounted for per operation.'),
 'C12': ('exploration', 'Long histories of metadata changes compared with a model of the table after every step, including full tables and injected write errors.'),
 'C13': ('fault_enumeration', 'Trees are compared with an independent dm-verity construction for sampled lengths, contents and salts, with failing reads, writes and hash backends and with inconsistent tree, data, salt or root hash.'),
 'C14': ('exploration', 'Keystores with several keys, wrong identities, damage and read faults; the loaded key is compared with what the reference parser finds.'),
 'C15': ('fault_enumeration', 'The bytes of every file that an operation only reads are compared before and after, with read faults, crashes and non-packages.'),
 'C16': ('exploration', 'Random interleavings of edits, signing, raw and external signatures and verification, with crypto and write faults; verify must accept exactly while the signature belongs to the content.'),
 'C17': ('exploration', 'The same history is executed under other buffering, clock, memory fill, short transfers, handle lifetimes, interfaces and builds; files must be byte-identical.'),
 'C18': ('fault_enumeration', 'Every command with valid and invalid use and with faults in files, standard output and allocation; exit status and standard error are compared with what happened.'),
 'C20': ('exploration', 'Output of show, compare and part hash is compared with what the reference parser computes from the same files, also for related and damaged packages.'),
}
NA = {
 'C19': 'The binding runs inside a Python interpreter whose allocator and I/O are not behind the simulator\'s seam; the underlying library behaviour is covered by the other properties. Not claimed so far.',
 'C21': 'A pure function of a string: no scheduling, time, I/O, fault or multi-step behaviour for a simulator to vary.',
 'C22': 'A static fact about structure layout fixed at compile time; there is nothing to schedule or to make fail.',
}
if os.path.exists(os.path.join(here, 'sim', 'pyexec.cc')):
    NA.pop('C19')
    N['C19'] = ('exploration', 'The extension module runs in an embedded interpreter inside the simulated world; histories through Python objects are compared with the model, with faults on its files and with closed, failed and re-used objects.')
checks = []
for p in sorted(N):
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': T, 'level': N[p][0],
                   'level_note': N[p][1] + ' Assurance is that of seeded search, not of proof; trusted are the reference model in sim/ and the simulated disk.'})
m = {'version': 1, 'setup_cmd': 'python3 tools/simbuild.py a,b' + (' py' if 'C19' in N else ''), 'checks': checks,
     'not_applicable': [{'property': p, 'reason': NA[p]} for p in sorted(NA)],
     'notes': 'No hooks in /repo: system calls are redirected at link time (objcopy), so the shipped sources are compiled unchanged. A replay file is re-executed with: python3 check.py --replay FILE'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
