#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX = "exploration"
FE = "fault_enumeration"
T = {
 "C01": (EX, "exact reference model compared online with real chunks, storages and databases on generated histories and ranges",
         "Every query result observed was compared, bit for bit, with a reference model. Exploration: generated histories only; TiKV is an in-memory stand-in with the same client API."),
 "C02": (EX, "reference selection compared online with real indexers and chunks over adversarial label populations",
         "Every selection observed was compared with a set-based reference. Exploration: generated populations; TiKV is a stand-in."),
 "C03": (EX, "identity monitor over races of first writes, colliding label sets and restarts",
         "Observed races and label families only; schedules are perturbed (random delays at backend calls, log statements and allocations), not enumerated."),
 "C04": (EX, "offline linearizability checking of recorded concurrent histories under schedule perturbation",
         "Each recorded history is decided exactly for the grow-only sample set; the schedules are those that random delays and 8 cores produced."),
 "C05": (EX, "online and offline exactly-once checking of histories recorded across chunk rotations under schedule perturbation",
         "Each recorded history is decided exactly; the interleavings are those that random delays produced around rotations."),
 "C06": (EX, "differential monitor across process restarts of the real backends",
         "Every query after a restart was compared with everything stored before. Assumes that a process ends after its backends wrote their buffers."),
 "C07": (FE, "crash injection at every file-changing system call (LD_PRELOAD) and TiKV write, then a recovery oracle",
         "All crash points of scripted histories (sampled beyond a bound in the quick tier), with partly written last writes. A killed process, not a lost page cache; TiKV is a stand-in whose journal survives."),
 "C08": (EX, "byte-level before/after monitor of refused opens, by library and server, over all backend pairs",
         "All ordered pairs of backend combinations and a family of damaged metadata files were tried on real databases."),
 "C09": (EX, "exact reference model behind an independent protobuf/snappy client against the real server binary",
         "Every response observed was compared with a reference model. Exploration of generated requests."),
 "C10": (EX, "hostile request generation against the real server binary with liveness, status and state monitors",
         "Generated hostile bytes only; the server process, its answers and its stored state are monitored throughout."),
 "C11": (EX, "stalled network clients with bounded-time and correctness monitors on the other clients",
         "Observed stall patterns and worker counts; the time bound is a generous constant."),
 "C12": (EX, "round-trip monitor over generated and small exhaustive sequences, with overflow checks on",
         "Every generated sequence was decompressed and compared bit for bit."),
 "C13": (EX, "fuzzed decoder input with panic, overflow, time and output-size monitors",
         "Random, truncated and mutated inputs; overflow checks are compiled in."),
 "C14": (FE, "independent decoder of what the underlying writer received, with every write call of it failing in turn",
         "Generated entry sequences; failure at every call of the writer (sampled beyond 60 calls), short and interrupted writes."),
 "C15": (EX, "reference intersection compared over small exhaustive and generated families",
         "All small families, and generated large ones, were compared with a set-based reference."),
 "C16": (EX, "round-trip and totality monitor over names, options and metadata",
         "Generated windows, names and options."),
 "C17": (FE, "failure of every TiKV operation in turn, in outages and at random, with a retry/convergence oracle",
         "Every single operation of scripted histories fails (applied or not), outages of all lengths up to a bound, and random ones. TiKV is a stand-in."),
 "C18": (EX, "boundary monitor on real chunks and databases against the window reference",
         "Generated windows with timestamps and ranges at and around their ends."),
 "C19": (EX, "law checking (equality, order, hash, trimming, conversions) over generated values",
         "Generated values; all pairs within small families."),
 "C20": (EX, "operation-log and content monitors over databases sharing one TiKV cluster",
         "Key sets written by each database are compared, and contents with per-database models. TiKV is a stand-in."),
 "C21": (EX, "black-box monitor of the real binary over generated command lines and configurations",
         "Generated combinations of valid and invalid options."),
 "C22": (EX, "black-box monitor of the real binary under a moved system clock (LD_PRELOAD), with everything once readable compared at every read",
         "Generated courses of the clock (jumps, repeats, standstills, across restarts) were observed; the clock is the server process's own. TiKV is a stand-in."),
 "C23": (FE, "failure of file operations (LD_PRELOAD) and of backends in stretches, with everything once readable compared at every read and after restarts",
         "Generated outages, by kinds of operations, errors and times. sled's own failures are observed through crashes and restarts only (it does not survive them)."),
 "C24": (FE, "files, store entries, TiKV keys and a fixed set of answers compared around batches of reads and of writes that store nothing, and after a restart",
         "Generated batches were observed. Embedded stores are compared by their entries (sled rearranges its files by itself). TiKV is a stand-in."),
 "C25": (FE, "threads, open files and memory of the server binary compared over rounds of thousands of mixed requests",
         "A loss slower than one thread or file in 75 requests, or 5 KB for each, is not seen. TiKV is a stand-in."),
 "C26": (EX, "black-box monitor of several server binaries on one directory, each answer and the state after all of them compared with what they acknowledged",
         "Second servers were started beside running ones at generated moments, none while a chunk is being made. TiKV is a stand-in."),
 "C27": (EX, "trace monitor over recording backends: every call the database makes to its builders, storages and indexes is judged against the protocol",
         "Generated histories of openings and rotations, with any single builder step failing, were observed."),
}
DONE = os.environ.get("DONE", "").split() or sorted(T)
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in hooks if l.split(" ", 1)[1].startswith("hook:")]
m = {
 "version": 1,
 "setup_cmd": "./check --build",
 "hooks": {"guard": "cfg(monolith_verif)",
           "enable": "rustflags = [\"--cfg\", \"monolith_verif\"] in harness/.cargo/config.toml, which every build of the harness uses",
           "source_commits": hooks},
 "checks": [{"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "./check " + p, "evidence_file": "evidence/%s.json" % p,
             "technique": "runtime monitoring: " + T[p][1], "level": T[p][0], "level_note": T[p][2]} for p in DONE],
 "not_applicable": [{"property": p, "reason": "its check is not finished yet"} for p in sorted(T) if p not in DONE],
 "notes": "VERIF_SEED and VERIF_TIER (quick, thorough) select the run; see DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
