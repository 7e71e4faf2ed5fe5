"""The single source of /verif/properties.jsonl and /verif/MANIFEST.json.

Run `python3 tools/spec.py` after an edit; it rewrites both files.
"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None,
         technique="", note="", claimed=True, reason=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe or [], state=state or [], technique=technique, note=note,
                  claimed=claimed, reason=reason))


exec(open(os.path.join(V, "tools", "spec_data.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"],
                                  mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                                  state=[dict(name=n, meaning=m, where=w) for n, m, w in p["state"]],
                                  observe_at=p["observe"], hook_needed=None))
            f.write(json.dumps(d) + "\n")
    m = dict(version=1, setup_cmd="python3 check.py --setup",
             checks=[], not_applicable=[],
             notes="Every check is self-contained: it compiles /repo's current sources with ASan+UBSan (and TSan where "
                   "threads matter), runs the monitored workload and writes evidence/<id>.json. No hooks in /repo are "
                   "needed: every oracle observes the public API, the files it writes, and interposed libc calls.")
    for p in P:
        built = os.path.exists(os.path.join(V, "harness", p["id"] + ".cpp"))
        if p["claimed"] and built:
            m["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"],
                                    thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                                    evidence_file="evidence/%s.json" % p["id"],
                                    technique=p["technique"], level="exploration", level_note=p["note"]))
        else:
            m["not_applicable"].append(dict(property=p["id"], reason=p["reason"] or "check not built yet"))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
