"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = "jax_galsim/"
ALLSRC = ["angle", "bandpass"]

PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, entry=None):
    d = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": [J + f for f in files], "mechanism": mech},
    }
    assert len(title) <= 80, title
    PROPS.append((d, technique, note, na))


AI = "path-partitioned abstract interpretation (interprocedural dataflow over the syntax tree)"
TRUST = (
    " Trusts: the transfer functions of the analyser for Python, numpy, jax.numpy and equinox; value numbers compare terms "
    "at four fixed valuations of the symbolic inputs, so two different closed forms are confused with negligible probability. "
    "Obligations the domain cannot decide are listed as undecided and never raise an alarm; a floor on the number of decided "
    "obligations makes the check fail (exit 2) when the analysed constructs move."
)

exec(open(os.path.join(HERE, "tools", "props_list.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, *_ in PROPS:
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for d, tech, note, why in PROPS:
        if tech:
            checks.append(
                {
                    "property": d["id"],
                    "quick_cmd": "python3 -m sa.main %s" % d["id"],
                    "thorough_cmd": "python3 -m sa.main %s" % d["id"],
                    "technique": tech,
                    "level": "other",
                    "level_note": note,
                }
            )
        else:
            na.append({"property": d["id"], "reason": why})
    m = {
        "version": 1,
        "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 10)'",
        "hooks": {"guard": "NONE", "enable": "no hooks: the checks read /repo's source and never run it"},
        "checks": checks,
        "not_applicable": na,
        "notes": "All checks are static: python3 (standard library only) parses /repo's current working tree and interprets it abstractly; see DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
