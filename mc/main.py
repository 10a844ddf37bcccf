import importlib
import json
import os
import pathlib
import pkgutil
import sys
import warnings

warnings.simplefilter("ignore")


def find(prop):
    from . import checks
    for m in pkgutil.iter_modules(checks.__path__):
        if m.name.upper().startswith(prop.upper() + "_"):
            return m.name
    raise SystemExit(f"no check for {prop}")


def supervise(prop):
    """run the checker in a child: if the code under test takes the process down
    (or never returns) outside the isolated workers, that is reported too"""
    import subprocess
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    env = dict(os.environ, VERIF_CHILD="1")
    p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "mc.main"] + sys.argv[1:], env=env)
    try:
        rc = p.wait(timeout=860 if tier == "quick" else None)
        what = f"checker process ended with status {rc}"
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        rc, what = -9, "the code under test did not return"
    if rc in (0, 1):
        return rc
    here = pathlib.Path(__file__).resolve().parent.parent
    rd = here / "replays" / prop
    rd.mkdir(parents=True, exist_ok=True)
    f = rd / "process.json"
    f.write_text(json.dumps(dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), driver="process",
                                 key="process", picks=[], message=what), indent=1))
    print(f"  {what}")
    print(f"VIOLATION property={prop} replay={f}", flush=True)
    return 1


def main():
    import numpy as np
    np.seterr(all="ignore")
    from . import repo, engine
    if sys.argv[1] == "setup":
        print(repo.build_ext())
        return 0
    if sys.argv[1] == "replay":
        d = json.loads(pathlib.Path(sys.argv[2]).read_text())
        os.environ["VERIF_SEED"] = str(d["seed"])
        engine.SEED = int(d["seed"])
        repo.install()
        mod = importlib.import_module("mc.checks." + find(d["property"]))
        bodies = {}

        class R(engine.Report):
            def explore(self, name, body, **k):
                bodies[name] = body
        mod.run(R(d["property"], d["tier"]), d["tier"])
        ck, st = engine.run_one(d["property"], d["driver"], bodies[d["driver"]], d["picks"])
        for lab in ck.labels:
            print("  pick", *lab)
        for f in ck.fails:
            print("FAIL", f[0], f[1])
        if ck.fails:
            print(f"VIOLATION property={d['property']} replay={sys.argv[2]}")
        return 1 if ck.fails else 0
    prop = sys.argv[1]
    if os.environ.get("VERIF_CHILD") != "1":
        return supervise(prop)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    rep = engine.Report(prop, tier)
    try:
        repo.install()
        mod = importlib.import_module("mc.checks." + find(prop))
        mod.run(rep, tier)
    except SystemExit:
        raise
    except Exception as e:  # the code under test cannot even be loaded/driven
        import traceback
        tb = "".join(traceback.format_exception(e))
        rep.stats["fails"].append(("load", "load", tb[-3000:], [], []))
        print(tb)
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())
