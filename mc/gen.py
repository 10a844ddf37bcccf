import json
import pathlib
import pkgutil

HERE = pathlib.Path(__file__).resolve().parent.parent


def main():
    from . import checks
    from .catalog import P
    have = {m.name.split("_")[0].upper() for m in pkgutil.iter_modules(checks.__path__)}
    lines, chk, na = [], [], []
    for p in sorted(P, key=lambda d: d["id"]):
        anchors = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                       observe_at=p["observe"], hook_needed=None)
        if p["state"]:
            anchors["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        lines.append(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                     anchors=anchors)))
        if p["id"] in have:
            chk.append(dict(property=p["id"], quick_cmd=f"bash run.sh {p['id']} quick",
                            thorough_cmd=f"bash run.sh {p['id']} thorough",
                            technique="stateless model checking: exhaustive depth-first enumeration of a bounded choice tree "
                                      "driving the real code, every execution compared with a reference model",
                            level="model_checking",
                            level_note=p["level_note"] or ("Every element of the stated bounded space is executed on the real code "
                                                           "and compared with an independent reference; numeric payloads inside each element are fixed by VERIF_SEED, "
                                                           "and nothing beyond the bounds is claimed.")))
        else:
            na.append(dict(property=p["id"], reason="no check built yet"))
    (HERE / "properties.jsonl").write_text("\n".join(lines) + "\n")
    (HERE / "MANIFEST.json").write_text(json.dumps(dict(version=1, setup_cmd="bash setup.sh", checks=chk, not_applicable=na), indent=1) + "\n")
    print(len(chk), "claimed;", len(na), "not claimed")


if __name__ == "__main__":
    main()
