"""Regenerates properties.jsonl and MANIFEST.json from the definitions below.
   /opt/venv/bin/python tools/mkdocs.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/direpack/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, level_note, technique):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, id
    P.append((id, dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                       anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mech],
                                    observe_at=observe, hook_needed=None)), technique, level_note))


I, CF, H, SCH = "inputs", "configurations", "histories", "schedules"
exec(open(os.path.join(HERE, "tools", "propdefs.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for _, d, _, _ in P:
        fh.write(json.dumps(d) + "\n")
man = dict(
    version=1,
    setup_cmd="bash setup.sh",
    checks=[dict(property=i, quick_cmd="bash check.sh %s quick" % i, thorough_cmd="bash check.sh %s thorough" % i, evidence_file="evidence/%s.json" % i,
                 technique=t, level="exploration", level_note=n) for i, d, t, n in P],
    not_applicable=NOT_APPLICABLE,
    notes="All instrumentation lives in /verif and wraps the real code at run time; no hooks were added to /repo. Every check imports direpack from /repo/src, "
          "so it always runs the current working tree. Replays: bash check.sh Cnn --replay FILE.",
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
print(len(P), "properties")
