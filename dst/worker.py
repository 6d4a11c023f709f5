"""Worker: a pristine process that forks one simulated universe per request."""

import json
import os
import sys

from . import base, universe


def load(prop_id):
    if prop_id in ("C01", "C02", "C03", "C04", "C05", "C06", "C11", "C13"):
        from . import solverprops

        universe.boot()
        return solverprops.PROPS[prop_id]
    if prop_id == "C12":
        from . import importworld

        importworld.boot()
        return importworld.PROPS[prop_id]
    from . import reportprops

    reportprops.PROPS[prop_id].boot()
    return reportprops.PROPS[prop_id]


def summary(prop, spec, st, res, vs, want_events):
    out = {
        "st": st, "violations": vs, "digest": res.get("digest"), "fired": res.get("fired", {}),
        "switches": res.get("switches", 0), "steps": res.get("steps", 0), "locs": res.get("locs", []),
        "nontrivial": bool(st == "ok" and prop.nontrivial(spec, res)), "vtime": res.get("vtime", 0.0),
        "inter": base.sha([spec.get("nodes"), spec.get("stops"), spec.get("quantum")]) if "inter" not in res else res["inter"],
        "extra": res.get("extra", {}),
    }
    if want_events:
        out["events"] = res.get("events", [])
    return out


def main():
    chan = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # nothing else may write on the channel
    prop_id, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]  # the report world replaces sys.argv
    prop = load(prop_id)
    prop.prepare(seed, tier)
    chan.write(json.dumps({"ready": True, "hashseed": os.environ.get("PYTHONHASHSEED")}) + "\n")
    chan.flush()
    for line in sys.stdin:
        req = json.loads(line)
        try:
            if req["cmd"] in ("warm", "dump"):
                getattr(prop, req["cmd"])(*req["args"])
                chan.write("{}\n")
                chan.flush()
                continue
            if req["cmd"] == "raw":
                chan.write(json.dumps({"raw": prop.raw(req["spec"])}) + "\n")
                chan.flush()
                continue
            if req["cmd"] == "load":
                prop.load(req["files"])
                chan.write("{}\n")
                chan.flush()
                continue
            if req["cmd"] == "run":
                i = req["i"]
                rng = base.rng_for(seed, prop.id, i)
                spec = prop.gen(rng, i, tier)
            else:
                i, spec = req.get("i", -1), req["spec"]
            spec = json.loads(json.dumps(spec))
            universe.PATIENCE[:] = req.get("patience") or [60.0, 150.0]
            st, res = prop.execute(spec)
            vs = prop.judge(spec, st, res)
            out = summary(prop, spec, st, res, vs, bool(vs) or req.get("events"))
            if req.get("twice"):
                st2, res2 = prop.execute(spec)
                out["again"] = res2.get("digest")
            out["i"] = i
            if vs or req.get("spec_back"):
                out["spec"] = spec
        except Exception:
            import traceback

            out = {"i": req.get("i", -1), "error": traceback.format_exc()}
        chan.write(json.dumps(out) + "\n")
        chan.flush()


if __name__ == "__main__":
    main()
