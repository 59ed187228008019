#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC, FE = "model_checking", "fault_enumeration"
T = {
 "C01": (MC, "exhaustive enumeration of transfer shapes on the real code against a reference implementation",
   "every length / chunk size / API / sender shape within the bound is executed; contents are opaque patterns; 2^32-chunk wrap is out of bound"),
 "C02": (MC, "exhaustive exploration of I/O segmentations (all compositions, deviation-bounded choice trees) of the real code",
   "all compositions of small inputs and all <=2 (3) deviations in longer ones; assumes nothing about timing"),
 "C03": (FE, "exhaustive fault placement over every I/O call (choice-tree exploration) of the real code",
   "all placements of <=2 (3) faults; io.ErrClosedPipe from a source is end of input by design"),
 "C04": (MC, "exhaustive bounded attacker: all single-byte edits and all fragment words, executed on the real code",
   "attacker without keys, bounded edits; cryptographic primitives trusted"),
 "C05": (MC, "exhaustive bounded insider attacker built on a reference writer, executed on the real code",
   "attacker knows every symmetric key of the file; signatures unforgeable by assumption"),
 "C06": (MC, "exhaustive enumeration of recipient sequences and decrypting keys on the real code",
   "small key universe (symmetric in keys) plus counts around the header limit"),
 "C07": (MC, "explicit-state exploration of all API call sequences in lockstep with a reference state machine",
   "all sequences to the depth bound on the real objects; every trace replayed on the implementation"),
 "C08": (MC, "exhaustive call histories with every AEAD use recovered by a reference decoder; all random-source fault points",
   "bounded histories; AEAD uses recovered independently of the code"),
 "C09": (MC, "bidirectional conformance: all small shapes written by one of {code, reference} and read by the other, plus golden artefacts",
   "the reference model is an independent implementation of the format"),
 "C10": (MC, "exhaustive enumeration of header bodies over a protobuf alphabet and of structural defects on the real decoder",
   "bounded body length; allocation measured per case"),
 "C11": (MC, "exhaustive accept/reject matrices and single-bit edits on the real code against a reference signature model",
   "messages at boundary sizes; Ed25519 and SHA-512 trusted"),
 "C12": (MC, "exhaustive enumeration of comments over a hostile alphabet, round-tripped through the real code",
   "all comments to the length bound plus a list of longer ones"),
 "C13": (MC, "exhaustive passphrase matrix and byte edits on the real code against a reference implementation of the key file",
   "scrypt cost of most cases lowered in the document, the default cost is checked on real output"),
 "C14": (MC, "exhaustive edits and structural words fed to the real parsers",
   "bounded edits; absurd KDF costs (bcrypt rounds) excluded"),
 "C15": (MC, "exhaustive combinations of OpenSSH container options from a reference writer on the real code",
   "reference writer plus ssh-keygen golden keys"),
 "C16": (MC, "exhaustive enumeration of authorized_keys files over a line catalogue against a reference parser, library and command line",
   "files of bounded length over the catalogue"),
 "C17": (FE, "exhaustive crash-point exploration of the real program under a ptrace supervisor, with torn and lost writes",
   "process kill at every file-system call; power loss modelled from the observed trace"),
 "C18": (FE, "exhaustive system-call fault injection into the real program under a ptrace supervisor",
   "every file-system call of each scenario failing with each error; scrypt cost lowered by a build overlay"),
 "C19": (MC, "exhaustive command histories over a small directory against a reference directory model, on the real program",
   "bounded depth; scrypt cost lowered by a build overlay"),
 "C20": (MC, "exhaustive enumeration of intermediate file-system states (every system-call boundary) of the real program",
   "every boundary x umask; content scan for raw, base64 and hex forms"),
 "C21": (MC, "explicit-state exploration of command histories of the real program against a symbolic directory model",
   "bounded depth over a small universe of keys and files"),
 "C22": (MC, "stateless model checking: all preemption-bounded interleavings of two sessions under a controlled scheduler",
   "statement-level scheduling points inserted by a source overlay; separate race-detector pass"),
 "C23": (MC, "stateless model checking of real processes: all preemption-bounded interleavings of their file-system calls under a ptrace scheduler",
   "preemption bound; file-system calls atomic; a few shared-file situations per command"),
 "C24": (MC, "exhaustive exploration of terminal dialogues with the real program on a pseudo-terminal, typed by a ptrace supervisor and compared with a reference model",
   "bounded dialogues; what happens to the terminal after a signal is not judged"),
 "C25": (MC, "exhaustive enumeration of command lines (word sequences, edits, option placements) run by the real program and judged by a reference reading of the line",
  "bounded line length over fixed alphabets; what -h does together with another mistake is left open"),
 "C26": (MC, "explicit enumeration of all pairs of encryptions of a bounded space (self-composition): structure, byte windows and, under equal randomness, dependence of the public fields",
  "assumes the primitives themselves leak nothing; digests of pairs of known values only"),
 "C27": (MC, "exhaustive execution of a bounded space of sessions and commands with monitors on what is held back, the live heap and resource limits",
  "fixed allowances (two blocks and 64 KB held back, 16 blocks and 2 MB live); sizes up to 8 GB"),
}
NA = {}
done = sys.argv[1:] or sorted(T)
checks = []
for p in done:
    lv, tech, note = T[p]
    checks.append({"property": p, "quick_cmd": f"./run.sh {p}", "thorough_cmd": f"env VERIF_TIER=thorough ./run.sh {p}",
                   "technique": "model checking: " + tech, "level": lv, "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in sorted(T) if p not in done],
     "notes": "run.sh rebuilds the checker against /repo's working tree on every run; no hooks in /repo are needed"}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
