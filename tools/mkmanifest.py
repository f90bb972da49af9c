"""Writes /verif/MANIFEST.json."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "bounded exhaustive enumeration of inputs on the real code against a reference model",
 "C02": "bounded exhaustive enumeration of inputs on the real code against the textbook formula",
 "C03": "bounded exhaustive enumeration of inputs on the real code against a reference model",
 "C04": "bounded exhaustive enumeration of inputs on the real code against a reference model",
 "C05": "bounded exhaustive enumeration of inputs on the real code against a reference model",
 "C06": "bounded exhaustive enumeration of lag parameters on the real code against a reference model",
 "C07": "bounded exhaustive enumeration of inputs on the real code, invariant on every result",
 "C08": "exhaustive enumeration of inputs, four implementations of the lag loop run in lockstep",
 "C09": "exhaustive enumeration of groups of series, compared with each series alone",
 "C10": "exhaustive enumeration of inputs and transformations, metamorphic relation on each",
 "C11": "exhaustive enumeration of missing-value masks on the real code against a reference model",
 "C12": "exhaustive enumeration of inputs and of mutation histories against a reference model",
 "C13": "exhaustive enumeration of input shapes against an acceptance predicate",
 "C14": "exhaustive enumeration of file layouts, loaded and compared with the numbers in memory",
 "C15": "exhaustive enumeration of I/O faults (failing, short, interrupted reads and opens) injected under the real loader",
 "C16": "exhaustive enumeration of parameter subsets on the real code against a reference model",
 "C17": "exhaustive enumeration of lag grids; every pair of grids sharing a lag compared",
 "C18": "exhaustive enumeration of operation histories on one correlator against a reference model",
 "C19": "exhaustive enumeration of call histories against the same call in a fresh process",
 "C20": "exhaustive enumeration of schedules: threads under a controlled scheduler (preemption-bounded), step functions completely",
 "C21": "exhaustive enumeration of object-lifetime histories with freed memory overwritten",
 "C22": "exhaustive enumeration of special parameters and time orders with a watchdog",
 "C23": "exhaustive enumeration of API call sequences under AddressSanitizer, UBSan and checked containers",
 "C24": "exhaustive enumeration of inputs run in lockstep on four (five) builds",
 "C25": "exhaustive enumeration of inputs and call forms, structural invariant and reference model",
 "C27": "exhaustive enumeration of call histories and failure points, each repeated, invariant on what the extensions, the Python heap and the process hold",
 "C29": "exhaustive enumeration of call histories from enumerated process states, invariant on everything observable of the process and its surroundings",
 "C30": "exhaustive enumeration of (pairs of) calling contexts, process configurations and import orders, all answering the same questions",
 "C28": "exhaustive enumeration of object states, ways of copying and further uses on the real code, original and copies in lockstep",
 "C26": "exhaustive enumeration of failure points (failing allocations, interruptions, raising inputs) injected into the real code, then reuse compared with the reference",
}
NOTE = {
 "C15": "Complete for the listed scripts of open/read answers on the given files. Faults are injected at libc's open/fopen/read; a loader that reads by other means would only meet the real faults (directories, pipes, /proc/self/mem).",
 "C20": "Complete for the given programs up to the preemption bound at line (and, for one preemption, bytecode) granularity, and for all interleavings of the step functions. C++ calls are atomic because the bindings hold the interpreter lock; a build releasing it would need another scheduler.",
 "C21": "Complete for the histories up to the depth. Use of freed memory is seen because freed memory is overwritten (MALLOC_PERTURB_) and reallocated; C23 repeats the core of it under AddressSanitizer.",
 "C23": "Complete for the call sequences and inputs listed. Out-of-bounds accesses are seen where AddressSanitizer, UBSan, annotated vectors or checked containers see them. Step numbers near 2^31 that only exhaust memory are left out.",
 "C27": "Complete for the histories up to the depth on the listed data. What grows with every repetition is seen (blocks and bytes of operator new, objects and container entries of the Python heap, open files); memory taken by malloc directly or kept once is not.",
 "C29": "Complete for the histories up to the depth from the listed states of the process. What is looked at is listed in mc/probe.py; changes to the outside are seen in the files of the working directory and as library calls that open for writing, remove, rename, execute or connect.",
 "C30": "Complete for the listed contexts, their pairs (thorough: triples of ten), flags, environments and import orders. Left out: deep recursion (PyPy itself fails there) and other rounding modes (they change arithmetic).",
 "C28": "Complete for the states reached by the operation sequences up to the depth on the listed data, and for all pairs of ways of copying.",
 "C26": "Complete for the listed operations on the listed data: every operator new of the two extensions (checked -O0 build), every traced line (and bytecode) of the package. Four functions of pybind11 that mishandle an exception of their own are spared; PyPy's own allocations do not fail.",
 "C24": "Complete for the bounded inputs on gcc release, gcc without Python headers, gcc -O0 with checked containers, clang with patterned automatic variables (thorough: also AddressSanitizer/UBSan); other compilers are not covered.",
}
DEFAULT = "Every case of the finite spaces stated in the evidence and DESIGN.md is executed on the extension built from the working tree and compared; nothing is sampled. Inputs outside the stated alphabets and sizes are not covered. Trusted: the reference model, the comparison tolerances, the compiler."
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = [{"property": p["id"], "quick_cmd": "bin/check %s quick" % p["id"], "thorough_cmd": "bin/check %s thorough" % p["id"],
           "technique": "model checking: " + T[p["id"]], "level": "fault_enumeration" if False else "model_checking",
           "level_note": NOTE.get(p["id"], DEFAULT)} for p in props if p["id"] in T]
json.dump({"version": 1, "setup_cmd": "python3 mc/build.py plain portable checked clang asan racing", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: the checks use the public Python API, the working tree built in several variants under /verif/.cache, and LD_PRELOAD libraries (C15, C26, C27, C29, C30). All /repo commits are fixes, listed in known_findings.json."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
