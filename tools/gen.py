#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from meta.py and specs.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import meta, specs  # noqa: E402
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for m in meta.META:
        assert len(m["title"]) <= 80, m["title"]
        f.write(json.dumps(m) + "\n")
checks = []
na = list(meta.NA)
for m in meta.META:
    pid = m["id"]
    if pid not in specs.PROPS:
        if pid not in [x["property"] for x in na]:
            na.append(dict(property=pid, reason="no check has been built for it yet"))
        continue
    threads = any(j.get("threads") for j in specs.PROPS[pid]["jobs"])
    checks.append(dict(
        property=pid, quick_cmd="python3 run.py %s" % pid,
        thorough_cmd="VERIF_TIER=thorough python3 run.py %s --tier thorough" % pid,
        evidence_file="evidence/%s.json" % pid,
        technique="symbolic execution of the real code's LLVM IR, every branch, assertion and memory access decided by z3"
                  + ("; all interleavings of atomic accesses" if threads else "") + "; counterexamples replayed natively",
        level=specs.LEVEL,
        level_note="Bounded: " + "; ".join("%s: %s" % (j["name"], j["bounds"]) for j in specs.PROPS[pid]["jobs"])
                   + ". Trusts clang 18's IR, the engine's IR semantics (sampled paths are validated against a native build on every run), z3, "
                     "and the stand-ins named in DESIGN.md."))
json.dump(dict(version=1, setup_cmd="make -s", checks=checks, not_applicable=na,
               notes="See DESIGN.md. run.py <id> compiles /repo's current sources with clang, executes harness and code symbolically "
                     "(engine/sse.cpp), and replays every solver counterexample against a native build before reporting it."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
