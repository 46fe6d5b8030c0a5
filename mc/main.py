"""entry point: python -m mc.main PROPERTY [quick|thorough] [--replay FILE]"""
import sys, os, json, time, importlib, tempfile, shutil
from . import core


def main():
    args = sys.argv[1:]
    replay = None
    if "--replay" in args:
        i = args.index("--replay")
        replay = args[i + 1]
        del args[i:i + 2]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    top = tempfile.mkdtemp(prefix="mc-", dir=core.scratch_root())
    os.environ["MC_SCRATCH"] = top
    owner = os.getpid()
    try:
        return run(prop, tier, seed, replay)
    finally:
        if os.getpid() == owner:
            shutil.rmtree(top, ignore_errors=True)


def run(prop, tier, seed, replay):
    from . import world
    world.load()
    known = json.load(open(os.path.join(core.VERIF, "known_findings.json")))["findings"]
    mod = importlib.import_module("mc.checks." + prop.lower())
    ctx = core.Ctx(prop, tier, seed, known)
    if replay:
        world.quiet(stdout=False)
        rec = json.load(open(replay))
        return do_replay(mod, rec)
    rdir = os.path.join(core.VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(rdir, f))
    try:
        mod.run(ctx)
    finally:
        ctx.close(True)
    wall = time.time() - ctx.t0
    for k in ctx.known:
        if k["sig"] in ctx.known_seen:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    # shortest first
    viols = sorted(ctx.violations, key=lambda v: len(repr(v[1])))
    for i, (part, item, msg, sig) in enumerate(viols):
        path = os.path.join(rdir, f"{prop}-{i}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "part": part, "item": enc(item), "message": msg, "signature": sig,
                       "how": f"bash {core.VERIF}/run.sh {prop} --replay {path}"}, f, indent=1)
        print(f"-- {part}: {repr(item)[:300]}\n   {msg}\n   signature: {sig}")
        print(f"VIOLATION property={prop} replay={path}")
    level = getattr(mod, "LEVEL", "model_checking")
    cov = {"states": len(ctx.states), "transitions": ctx.transitions,
           "traces_validated_against_impl": ctx.execs,
           "evaluations": ctx.execs, "distinct_nontrivial": len(ctx.states),
           "rule": getattr(mod, "RULE", "every case in the stated bound is run on the real code; distinct = different observed outcome or state"),
           "samples": ctx.samples or [{"part": p["part"]} for p in ctx.parts],
           "parts": ctx.parts, "exhaustive": not ctx.capped,
           "bounds": getattr(mod, "BOUNDS", "")}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + ctx.assumptions,
          "wall_s": round(wall, 2), "violations": len(viols)}
    with open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for p in ctx.parts:
        print(json.dumps(p))
    print(f"{prop} {tier}: states={len(ctx.states)} transitions={ctx.transitions} executions={ctx.execs} "
          f"violations={len(viols)} capped={ctx.capped} wall={wall:.1f}s")
    return 1 if viols else 0


def enc(x):
    return {"py": repr(x)}


def do_replay(mod, rec):
    import ast
    item = ast.literal_eval(rec["item"]["py"])
    if isinstance(item, dict) and "world" in item:
        w = getattr(mod, item["world"])
        res = core.guarded(core._bfs_step, (w, item["params"], tuple(item["history"])))
    else:
        res = core.guarded(mod.PARTS[rec["part"].split("/")[0]], item)
    print(res[0], *(res[1] if isinstance(res[1], tuple) else [res[1]]), sep="\n")
    return 1 if res[0] == "viol" else 0 if res[0] == "ok" else 2


if __name__ == "__main__":
    sys.exit(main())
