#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
G = "src/parser/parse.y"
B = "src/builder.rs"
LX = "src/lexer/main.rs"
NOTE = ("Generated-input search against an explicit oracle; says nothing about inputs the generators do not "
        "write or that the run did not reach. ")
P = []
def p(id, title, statement, over, text, why, files, mech, technique, note, observe=None, extra=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe or ["Parser::do_parse() -> ParserResult"]))

exec(open(os.path.join(os.path.dirname(__file__), "properties.py")).read())

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here + "/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(dict(
            id=x["id"], title=x["title"], statement=x["statement"],
            quantifier=dict(over=x["over"], text=x["text"]),
            why_tests_cant=x["why"],
            anchors=dict(files=x["files"], mechanism=[dict(name=n, where=w) for n, w in x["mech"]],
                         observe_at=x["observe"], hook_needed=None)), ensure_ascii=False) + "\n")
m = dict(
    version=1,
    setup_cmd="./run.sh build && ./run.sh build-onig",
    checks=[dict(property=x["id"], quick_cmd="./run.sh " + x["id"],
                 thorough_cmd="VERIF_TIER=thorough ./run.sh " + x["id"],
                 evidence_file="evidence/%s.json" % x["id"], technique=x["technique"], level="exploration",
                 level_note=NOTE + x["note"]) for x in P],
    not_applicable=[],
    notes="No hooks in /repo: everything is observed through the public API. /repo carries fix: commits for genuine defects, listed in known-findings.tsv.")
with open(here + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    for f in x["files"] + [w for _, w in x["mech"]]:
        assert os.path.exists("/repo/" + f), (x["id"], f)
