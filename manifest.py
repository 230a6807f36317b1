#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and cases.py."""
import json, cases as C
NA = {
    "P30": "the command-line trainer's reader threads communicate through OS threads, channels and files; the engine executes single-threaded IR only, and interleavings of std threads are outside what it can encode",
    "P31": "the bindings are a Python extension module: every path crosses the CPython C API (FFI), which cannot be encoded",
    "P32": "relates two whole languages (documents accepted by a generated JSON schema versus serde); the schema is interpreted by external validators, there is no repository code that decides acceptance to execute symbolically",
}
ps = [json.loads(l) for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash build.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the harness crate uses only the public interface of reductionml-core", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in ps:
    i = p["id"]
    if i in C.CHECKS:
        c = C.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
            "technique": "symbolic execution of the compiled code (LLVM IR) with an SMT solver (z3), counterexamples replayed natively",
            "level": "model_checking", "level_note": "bounded: " + c["bounds"][:600]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
