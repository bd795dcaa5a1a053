#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--section S] [--replay FILE]

Builds /repo's current sources, runs every section of the property's explorer,
replays each failure once before reporting it, and writes
evidence/<PROPERTY>.json.  Exit 0: held on everything explored (listed known
findings aside).  Exit 1 with a VIOLATION line: broken.
"""
import json, os, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build
from props import PROPS


def load_known(prop):
    known = {}
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e.get("status") == "known" and e["property"] == prop:
                known[(e["section"], e["category"], e["case"])] = e
    return known


def bounds_text(prop):
    try:
        with open(os.path.join(VERIF, "properties.jsonl")) as f:
            for l in f:
                d = json.loads(l)
                if d["id"] == prop:
                    return d["quantifier"]["text"]
    except (OSError, ValueError, KeyError):
        pass
    return ""


def run_section(exe, sec, tier, outdir, env, only=None, timeout=None):
    out = os.path.join(outdir, sec + ("-replay" if only else "") + ".json")
    err = out[:-5] + ".stderr"
    if os.path.exists(out):
        os.unlink(out)
    work = os.path.join(outdir, "work-" + sec + ("-replay" if only else ""))
    os.makedirs(work, exist_ok=True)
    cmd = [exe, "--section", sec, "--tier", tier, "--out", out]
    if only is not None:
        cmd += ["--only", only, "--replay"]
    e = dict(env)
    e["VF_WORK"] = work
    t = time.time()
    with open(err, "wb") as ef:
        try:
            rc = subprocess.run(cmd, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL,
                                env=e, cwd=work, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    shutil.rmtree(work, ignore_errors=True)
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    if res is None:
        tail = open(err, "rb").read()[-3000:].decode("latin1")
        cat = "hang" if rc == "timeout" else "crash"
        res = {"section": sec, "status": cat, "cases": 0, "states": 0, "transitions": 0,
               "traces": 0, "nfail": 1, "outcomes": 0, "samples": [], "notes": [],
               "failcats": {cat: 1},
               "fails": [{"cat": cat, "case": "(section %s)" % sec,
                          "detail": "explorer ended with %r: %s" % (rc, tail)}]}
    res["wall_s"] = round(time.time() - t, 2)
    res["rc"] = rc
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only_sec = replay = None
    a = sys.argv[2:]
    while a:
        o = a.pop(0)
        if o == "--tier":
            tier = a.pop(0)
        elif o == "--section":
            only_sec = a.pop(0)
        elif o == "--replay":
            replay = a.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    repdir = os.path.join(evdir, "replay")
    os.makedirs(repdir, exist_ok=True)
    outdir = os.path.join(evdir, "raw", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    env = dict(os.environ)
    env.pop("BELL_SYMBOLS", None)
    env.pop("METHOD_LIBRARY", None)
    env.pop("METHOD_LIBRARY_PATH", None)
    env["LC_ALL"] = "C"
    env["TERM"] = "dumb"
    env["VERIF_SEED"] = str(seed)

    # (executable, section) list
    todo = []
    exes = {}
    try:
        for h in cfg["harness"]:
            for app in h.get("apps", []):
                with build.Builder(h.get("app_flavor", "fast")) as b:
                    env["VF_APP_" + app.upper()] = b.app(app)
            with build.Builder(h.get("flavor", "asan")) as b:
                exe = b.harness(h["name"], ["vf.cpp"] + h["sources"],
                                extra=h.get("extra", []), ldextra=h.get("ldextra", []),
                                utils=h.get("utils", False), repo=h.get("repo", []))
            secs = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True,
                                  env=env, check=True).stdout.split()
            only = h.get("sections")
            for s in secs:
                if only and s not in only:
                    continue
                if only_sec and s != only_sec:
                    continue
                todo.append((exe, s))
                exes[s] = exe
    except build.BuildError as e:
        # Code that does not build has no behaviour to judge: say so, loudly.
        print(str(e)[-3000:])
        print("ERROR property=%s: /repo does not build" % prop)
        return 2
    tb = time.time() - t0

    if replay:
        r = json.load(open(replay))
        res = run_section(exes[r["section"]], r["section"], r["tier"], outdir, env, only=r["case"])
        print(open(os.path.join(outdir, r["section"] + "-replay.stderr"), errors="replace").read())
        print("replayed: %d failures" % res["nfail"])
        return 1 if res["nfail"] else 0

    heavy = {s: i for i, s in enumerate(cfg.get("order", []))}
    todo.sort(key=lambda x: heavy.get(x[1], 1000))
    to = 600 if tier == "quick" else 24 * 3600
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        results = list(ex.map(lambda x: run_section(x[0], x[1], tier, outdir, env, timeout=to), todo))

    known = load_known(prop)
    seen_known = []
    unknown = []
    for res in results:
        nk = 0
        for f in res["fails"]:
            k = (res["section"], f["cat"], f["case"])
            if k in known:
                nk += 1
                seen_known.append(k)
            else:
                unknown.append((res["section"], f))
        if res["nfail"] > len(res["fails"]) and nk == len(res["fails"]):
            unknown.append((res["section"], {"cat": "unlisted", "case": "(more failures than recorded)",
                                              "detail": str(res["failcats"])}))

    for k in sorted(set(seen_known)):
        e = known[k]
        print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))

    confirmed = []
    tried = set()
    for sec, f in unknown:
        if (sec, f["cat"]) in tried:
            continue
        tried.add((sec, f["cat"]))
        left = (840 if tier == "quick" else 10 ** 6) - (time.time() - t0)
        if left < 60:
            confirmed.append((sec, f, "not replayed for lack of time"))
            break
        # Replay before report: the same case alone, in a fresh process.
        r = run_section(exes[sec], sec, tier, outdir, env, only=f["case"], timeout=min(600, left - 40))
        again = r["nfail"] > 0
        how = "case"
        if not again:
            # History-dependent across cases: replay the whole section.
            left = (840 if tier == "quick" else 10 ** 6) - (time.time() - t0)
            r = run_section(exes[sec], sec, tier, outdir, env, timeout=max(1, min(to, left - 20)))
            again = any(x["case"] == f["case"] and x["cat"] == f["cat"] for x in r["fails"])
            how = "section"
        confirmed.append((sec, f, how if again else "not reproduced"))
        if len(confirmed) >= 6:
            break

    nviol = 0
    for n, (sec, f, how) in enumerate(confirmed):
        path = os.path.join(repdir, "%s-%d.json" % (prop, n))
        json.dump({"property": prop, "section": sec, "tier": tier, "category": f["cat"],
                   "case": f["case"], "detail": f["detail"], "reproduced": how,
                   "replay": "python3 check.py %s --replay %s" % (prop, os.path.relpath(path, VERIF))},
                  open(path, "w"), indent=1)
        print("  [%s/%s] %s\n     %s" % (sec, f["cat"], f["case"], f["detail"][:1500]))
        if how == "not reproduced":
            print("NONDETERMINISTIC property=%s section=%s case=%s" % (prop, sec, f["case"]))
        nviol += 1
    tot = lambda k: sum(r[k] for r in results)
    samples = []
    for r in results:
        for s in r["samples"][:2]:
            samples.append("%s: %s" % (r["section"], s[:300]))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "model_checking"),
        "coverage": {
            "states": tot("states"), "transitions": tot("transitions"),
            "traces_validated_against_impl": tot("cases"),
            "distinct_outcomes": tot("outcomes"),
            "exhaustive": True,
            "bounds": bounds_text(prop),
            "rule": "every execution runs the implementation itself; states = distinct inputs or object states "
                    "visited, transitions = comparisons of one implementation step with the reference model",
            "samples": samples[:40],
            "sections": [{k: r[k] for k in ("section", "status", "cases", "states", "transitions",
                                            "traces", "outcomes", "nfail", "wall_s", "notes")} for r in results],
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    if os.environ.get("VF_TIMES"):
        for r in results:
            print("   ", r["section"], r["wall_s"], r["cases"], r["states"])
    print("%s %s: %d sections, %d cases, %d states, %d transitions, %d distinct outcomes, build %.1fs, total %.1fs" %
          (prop, tier, len(results), tot("cases"), tot("states"), tot("transitions"), tot("outcomes"), tb, time.time() - t0))
    if nviol:
        print("VIOLATION property=%s replay=%s" % (prop, os.path.join("evidence/replay", "%s-0.json" % prop)))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
