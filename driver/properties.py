#!/usr/bin/env python3
"""The properties, in one place: writes properties.jsonl and MANIFEST.json.

Run it after changing a property or the registry; both files are committed."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, state=(), level_note="", technique=None):
    assert len(title) <= 80, title
    PROPS.append(dict(pid=pid, level_note=level_note, technique=technique, line={
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": ["Textile::parse (public API)"], "hook_needed": None}}))


P, B, T, U, H = "src/parser.rs", "src/block.rs", "src/table.rs", "src/urlutils.rs", "src/htmltools.rs"
IN, CF, HI, PR = "inputs", "configurations", "histories", "programs"
FIX = "The test suite converts a fixed list of documents, each with one fixed configuration; "

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_text.py")).read())

TECH = ("TLA+ specification (TLC): documents generated exhaustively and by random walks from the specification, "
        "replayed into the library, observed HTML compared with the specified one")
NOTE = ("Bounded: every document of the models (see DESIGN.md) plus seeded random documents; trusts TLC, the tokenizer in "
        "driver/canon.py and the replay driver. White space between blocks, attribute order and the numbers inside generated "
        "identifiers are abstracted.")

if __name__ == "__main__":
    claimed = [p for p in PROPS if p["pid"] in registry.CHECKS]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in claimed:
            f.write(json.dumps(p["line"], ensure_ascii=False) + "\n")
    man = {"version": 1,
           "setup_cmd": "cd harness && CARGO_TARGET_DIR=../target CARGO_NET_OFFLINE=true cargo build --release --offline --quiet",
           "checks": [{"property": p["pid"],
                       "quick_cmd": "python3 driver/check.py %s" % p["pid"],
                       "thorough_cmd": "python3 driver/check.py %s --tier thorough" % p["pid"],
                       "evidence_file": "evidence/%s.json" % p["pid"],
                       "technique": p["technique"] or TECH, "level": registry.CHECKS[p["pid"]].level,
                       "level_note": p["level_note"] or NOTE} for p in claimed],
           "not_applicable": [],
           "notes": "No hooks in /repo: everything is observed through the public API. Known findings: known-findings.txt."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(len(claimed), "claimed;", "unclaimed:", [p["pid"] for p in PROPS if p["pid"] not in registry.CHECKS],
          "untexted:", [p for p in registry.CHECKS if p not in [q["pid"] for q in PROPS]])
