#!/usr/bin/env python3
"""Source of MANIFEST.json (run: python3 tools/manifest.py > MANIFEST.json)."""
import json
TECH = "symbolic execution of the compiled LLVM IR of serde_yaml and unsafe-libyaml, decided by Z3 over all inputs within the bounds"
NOTE = ("Every path of the harnesses over the real code is followed and every assertion, panic, arithmetic overflow and "
        "memory access on it is decided by the solver for all values of the symbolic input within the stated bounds (evidence lists them); "
        "counterexamples are replayed natively before they are reported. Trusted: rustc's lowering, the engine's IR semantics "
        "(sampled paths are replayed natively and compared), the stubs listed in evidence (allocator, hasher, decimal/binary float kernels on concrete digits).")
checks = [dict(property="C%02d" % i, quick_cmd="python3 check.py C%02d quick" % i, thorough_cmd="python3 check.py C%02d thorough" % i,
               technique=TECH, level="model_checking", level_note=NOTE) for i in range(1, 32)]
print(json.dumps(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=[],
    notes="No hooks: the harnesses use serde_yaml's public API only. Repairs in /repo are the commits whose message starts with fix: (known-findings.txt)."), indent=1))
