"""Which scenario decides which property, and with what budget."""

import importlib

C = "props_c"
FP = "props_fp"

CACHE_REAL = ["tn.cache", "tn.processor (Processor.build_fst and everything it calls)", "json, hashlib, pathlib, tempfile, shutil, contextlib (real code over the seam)"]
CACHE_STUB = ["kernel file system, flock, clocks, sleep, process death: simulated (dst/simfs.py, dst/osseam.py)",
              "threading primitives: simulated scheduler (dst/simcore.py)", "pynini/pywrapfst: graphs are tagged byte strings",
              "grammar construction: small lab Processor subclass whose build emits a pair naming its own options and sources"]

PROPS = {
    # id: (module, function, quick seconds, thorough seconds, hang is a violation)
    "C01": (C, "c01", 45, 900, True),
    "C02": (C, "c02", 45, 900, True),
    "C03": (C, "c03", 45, 900, True),
    "C04": (C, "c04", 45, 900, True),
    "C05": (C, "c05", 45, 900, True),
    "C06": (C, "c06", 45, 900, True),
    "C07": (C, "c07", 45, 900, True),
    "C08": (C, "c08", 45, 900, True),
    "C09": (C, "c09", 45, 900, True),
    "C10": (C, "c10", 45, 900, True),
    "C11": (C, "c11", 45, 900, True),
    "C12": (C, "c12", 45, 900, True),
    "C13": (C, "c13", 45, 900, True),
    "C14": (C, "c14", 45, 900, True),
    "C15": (FP, "c15", 45, 900, True),
    "C16": (FP, "c16", 30, 600, False),
    "W01": ("props_w", "w01", 60, 900, True),
    "B01": ("props_b", "b01", 45, 900, True),
    "B02": ("props_b", "b02", 45, 900, True),
    "L01": ("clilab", "l01", 25, 300, True),
    "L02": ("clilab", "l02", 25, 300, True),
    "L03": ("clilab", "l03", 25, 300, True),
    "R01": ("props_r", "r01", 30, 600, True),
    "R02": ("props_r", "r02", 30, 600, True),
    "R03": ("props_r", "r03", 25, 300, True),
    "R04": ("props_r", "r04", 30, 300, True),
    "T01": ("threads", "t01", 60, 900, True),
    "T02": ("threads", "t02", 60, 900, True),
}

STALL = {"B02": 420}  # real seconds without any sign of life before a run counts as stuck (default 60)
JOBS = {}

RULES = {
    "C01": "A run uses small lab grammars, or (one in ten) the six real pipelines with varied options sharing a cache. It mixes 1-3 phases of up to 8 constructor calls on 1-3 keys over 1-4 processes, with I/O faults, kills, power loss, damage, full disks. Non-trivial: some constructor succeeded and either faults were injected or more than two succeeded.",
    "C02": "A run damages stored entries (bytes, JSON structure, exchanged and removed files) at rest or during loads and then constructs. Non-trivial: at least one damage was applied.",
    "C03": "A run kills processes or cuts power at seeded operations, repeatedly, then starts a fresh process. Non-trivial: at least one crash happened.",
    "C04": "A run starts up to 10 constructors of one key together, fault-free or with dying/failing builders. Non-trivial: more than one constructor took part.",
    "C05": "A run has readers and forcing writers on one key without failures but with stalls. Non-trivial: some operations overlap in time.",
    "C06": "A run fails, interrupts or kills forced rebuilds of a stored entry, one or many times. Non-trivial: at least one rebuild failed.",
    "C07": "A run cuts power at a seeded instant after a storing constructor returned (ordered metadata). Each run has a power cut and is non-trivial.",
    "C08": "A run waits for a holder that finishes, fails, dies or never ends, with clock jumps and lock errors. Non-trivial: the waiter really waited, or the injected lock failure was met.",
    "C09": "A run works on one entry (building, failing, crashing, stuck) beside another entry. Every run is non-trivial.",
    "C10": "A run replaces parts of the cache by links, FIFOs or other special files, at rest or swapped in. Non-trivial: a replacement took place.",
    "C11": "A run crashes or fails constructors, then completes one build. Non-trivial: leftovers existed or a constructor failed before.",
    "C12": "A run places foreign files and directories, then builds, fails, crashes, recovers. Non-trivial: foreign files were placed.",
    "C13": "A run loads an intact entry on a read-only, full or failing disk, or beside a stuck builder, or disables caching. Non-trivial: the named condition held.",
    "C14": "A run makes constructors fail (I/O errors, interrupts, damage, hostile entries, timeouts) and looks at descriptors and locks. Non-trivial: some constructor failed.",
    "C15": "A run edits sources at seeded instants while processes import, wait and build. Non-trivial: at least one edit happened during the run.",
    "C16": "A run compares two generated trees (or one tree listed/read two ways, or with injected errors). Every run is non-trivial.",
    "W01": "A run is a run of C01-C06, C08-C10 or C12-C14 on a simulated Windows machine, sometimes with another program that holds cache files open for a moment. Non-trivial: as there.",
    "L01": "A run feeds generated lines (blank, blanks, Unicode separators, long) over stdin or a file in seeded chunks and delays. Non-trivial: more than one line and more than one chunk.",
    "L02": "A run makes one read, decode, call, write or flush fail at a seeded point. Non-trivial: the failure was actually met.",
    "L03": "A run delivers lines slowly, sometimes without end. Non-trivial: the program waited for input at least once after a complete line had been delivered.",
    "B01": "A run makes accesses to the rule data of one real pipeline fail (one chosen access, one file, everything from an access on, missing files, no descriptors) while it is imported and built, then retries and starts fresh processes. Non-trivial: a failure was actually met.",
    "B02": "A run builds one or more real pipelines (in sequence, or in two pre-empted threads) in a child process with seeded hash seed, locale, default text encoding, directory order, clock, time zone, working directory and interpreter flags, and compares each grammar with the reference. Some constructions are interrupted between two lines first; two runs in three are such histories inside one process. Non-trivial: the hash seed or the encoding differs, or other pipelines were built before or beside, or an interrupt landed.",
    "R01": "A run has 2-4 threads with up to 4 C API calls each on shared and private processors of the six pipelines (small generated graphs), switched at seeded basic blocks. Non-trivial: at least one switch happened inside a call.",
    "R02": "A run makes allocations or graph reads fail at seeded points, damages graph files, or passes malformed text, among ordinary calls of 1-3 threads. Non-trivial: a failure was met or a null answer was due.",
    "R03": "A run feeds a generated file in seeded reads, with a read error, an output limit, a bad graph or a bad input in half of the runs. Non-trivial: more than two reads or an injected failure.",
    "R04": "A run loads the Android binding into a stand-in virtual machine, initialises it (also with null, missing or damaged models) and calls it from 1-4 threads with generated Java strings, while allocations, graph reads or JNI functions fail at seeded points. Non-trivial: a switch, a failure or a due exception.",
    "T01": "A run has 2-4 caller threads with 1-3 calls each on shared instances, pre-empted at seeded lines or bytecodes. Non-trivial: calls overlapped in time and a pre-emption happened inside a call.",
    "T02": "A run has histories of calls with injected interrupts, failing calls, callers mutating answers, and normalizers created in between. Non-trivial: at least one of these happened.",
}

ASSUMPTIONS = {
    "R": ["OpenFst's reading, composition and shortest path behave like the stand-ins (null on unreadable files, exceptions on failing allocations, no shared mutable state).",
          "Pre-emption happens between basic blocks of runtime code (weak memory effects are not simulated).",
          "Seeded sampling: what was not reached was not checked."],
    "C": ["The simulated file system stands for the local POSIX file systems users have; its calls are compared with a real tmpfs by dst/selftest.py.",
          "Power loss keeps metadata operations in order unless a run selects the unordered mode; unsynced file data may be lost, torn or zeroed.",
          "Pre-emption happens at intercepted system calls and locks, and in a share of the runs between any two source lines.",
          "Seeded sampling: what was not reached was not checked."],
    "W": ["Windows behaves as documented: sharing modes of _wopen, MoveFileEx, mandatory LockFile ranges, no dir_fd; paths keep POSIX spelling.",
          "Seeded sampling: what was not reached was not checked."],
    "T": ["Pre-emption happens between source lines (or bytecodes) of tn/ and itn/ code and at its locks; pynini's native calls are atomic, as they are under the interpreter lock.",
          "References come from forks of a process in which the pipelines were built but never called.",
          "Quick runs use ja_itn, ja_tn, en_itn, zh_tn and small pipelines with every pipeline's token orders; thorough runs add zh_itn and en_tn."],
    "L": ["The streams model Python text files over a byte source that delivers seeded chunks, delays and errors."],
    "B": ["Rule data reaches a build through open() or pynini's native file readers; both are seams.",
          "Two builds whose graph expressions are equal have equal graphs (pynini's operations are deterministic)."],
}


def components(prop):
    return COMPONENTS.get(prop, (CACHE_REAL, CACHE_STUB))


_T = (["tn.processor, tn.alignment, tn.token_parser, every real pipeline, pynini"], ["caller threads: real threads run one at a time by the simulated scheduler", "threading locks of the code under test: simulated"])
_L = (["tn.cli, tn.main, itn.main, argparse, io.TextIOWrapper and buffering"], ["byte source and sink: simulated", "normalizers: stand-ins with unique answers"])
_B = (["every rule module of the six pipelines in tn/ and itn/, tn.utils, tn.processor, tn.cache, pynini's Python libraries"],
      ["files, clocks, scheduling: simulated (dst/simfs.py, dst/osseam.py, dst/simcore.py)",
       "pynini core: symbolic, a graph is the hash of the expression that builds it (dst/sympynini.py)"])
_R = (["runtime/processor, runtime/utils, runtime/bin (compiled from /repo with ASan and UBSan)", "libstdc++"],
      ["OpenFst, glog, gflags: small stand-ins (rt/stub), because their sources cannot be downloaded here", "thread scheduling, mutexes, allocation, graph and input reads: under control (rt/sim.cc, rt/mainsim.cc)",
       "graphs: small ones made with pynini"])
_J = (["runtime/bindings/android, runtime/processor, runtime/utils (compiled from /repo with ASan and UBSan)", "libstdc++", "jni.h of the JDK"],
      ["Java virtual machine: a stand-in that tracks strings, borrowed characters, references and pending exceptions (rt/jnienv.h)"] + _R[1])
_W = (CACHE_REAL, ["Windows file rules, msvcrt.locking, os module as on Windows: simulated (dst/winsim.py over dst/simfs.py, dst/osseam.py)"] + CACHE_STUB[1:])
COMPONENTS = {"W01": _W, "R04": _J, "R01": _R, "R02": _R, "R03": _R, "B01": _B, "B02": _B, "T01": _T, "T02": _T, "L01": _L, "L02": _L, "L03": _L}

KNOWN = {"C15": (FP, "c15_known"), "B01": ("props_b", "b01_known")}


def scenario(prop):
    mod, fn = PROPS[prop][:2]
    return getattr(importlib.import_module(mod), fn)


def known(prop):
    if prop not in KNOWN:
        return None
    mod, fn = KNOWN[prop]
    return getattr(importlib.import_module(mod), fn)

LEVEL_NOTE = {
    "W": "Sampled schedules, faults and crash points of the shipped cache code's Windows branches against documented Windows file rules; no real Windows is involved. Evidence, not proof.",
    "R": "Sampled schedules, failures and inputs of the shipped C++ runtime compiled with stand-ins for OpenFst, glog and gflags; small generated graphs. Evidence, not proof; OpenFst's own behaviour is outside.",
    "B": "Sampled failures and environments of the shipped grammar construction, with symbolic graphs in place of pynini's native ones. Evidence, not proof; failures inside pynini's native readers after the first block are listed as a known finding and not injected.",
    "L": "Sampled chunkings, delays and failure points of the shipped command line with real text layers; normalizers are stand-ins. Evidence, not proof.",
    "T": "Sampled line- and bytecode-level schedules and interrupt points of real pipelines with real graphs; each answer is compared with the same call made alone in a pristine process. Evidence, not proof; pre-emption inside native pynini calls is not explored.",
    "C": "Sampled schedules, faults and crash points of the shipped cache code (tn/cache.py, Processor.build_fst) on a simulated file system, clock and scheduler; graphs are tagged stand-ins. Evidence, not proof; trusts the file system model, which is compared with tmpfs by the self test.",
}
