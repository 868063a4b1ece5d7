#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and `khcheck --list`."""
import json, subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state, observe, hook=None, tech="", note=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=observe, hook_needed=hook), _tech=tech, _note=note))

KC="keyhive_core/src/"; CR="keyhive_crypto/src/"; BK="beekem/src/"
exec(open(os.path.join(ROOT, "tools", "table.py")).read())

listed = subprocess.run([ROOT + "/harness/target/debug/khcheck", "--list"], capture_output=True, text=True).stdout.split()
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
GEN = "PBT: "
man = dict(version=1,
    setup_cmd="bash -c '. /opt/vp/env.sh && cd /verif/harness && cargo build --offline'",
    hooks=dict(guard="cargo feature test_utils (already in the repository; off by default)", enable="the harness crate depends on keyhive_core and beekem with features = [\"test_utils\"]", source_commits=["1bc4daa","86ca9a4"]),
    checks=[], not_applicable=[],
    notes="One harness crate (/verif/harness, binary khcheck) holds every check; check.sh rebuilds it against /repo's working tree and runs one property. Known findings: KNOWN_FINDINGS.json. properties.jsonl and MANIFEST.json are written by tools/gen.py.")
for p in P:
    if p["id"] in listed:
        man["checks"].append(dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
            evidence_file=f"evidence/{p['id']}.json", technique=GEN + p["_tech"], level="exploration",
            level_note=p["_note"] + " Sampled, not exhaustive; absence of violations is not established. Trusts the cryptographic primitives, the harness' models and its generators."))
    else:
        man["not_applicable"].append(dict(property=p["id"], reason="check not built yet (work in progress)"))
json.dump(man, open(ROOT + "/MANIFEST.json", "w"), indent=1)
open(ROOT + "/MANIFEST.json", "a").write("\n")
missing = [x for x in listed if x not in [p["id"] for p in P]]
print(len(P), "properties,", len(man["checks"]), "claimed; checks without property:", missing)
