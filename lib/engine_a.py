"""Engine A: C++ harnesses over the choice-tape framework in pbt/."""
import concurrent.futures as cf
import json
import os
import shutil
import tempfile

from .common import *


def build(prop, chk, config, log):
    """Returns (exe dir path or None, failure dict or None)."""
    units = [(os.path.join(VERIF, "pbt", "main.cpp"), [])]
    for name in chk.get("src", [prop + ".cpp"]):
        src = os.path.join(VERIF, "h", name)
        for p in range(chk.get("parts", 1)):
            units.append((src, ["-DPART=%d" % p] + chk.get("flags", [])))
    for src, flags in chk.get("extra", []):
        units.append((os.path.join(VERIF, "h", src), flags))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda u: compile_obj(config, u[0], u[1]), units))
    for (src, flags), (ok, _, diag, _) in zip(units, res):
        if not ok:
            if src.endswith("pbt/main.cpp") or not sanity(config):
                raise Infra("compiler %s does not work here: %s" % (config, diag[:300]))
            return None, dict(engine="A-compile", config=config, src=os.path.relpath(src, VERIF),
                              flags=flags, msg="a program of valid uses is rejected by the compiler",
                              log=first_errors(diag))
    plain = [os.path.basename(u[0]) + " ".join(u[1]) for u, r in zip(units, res) if not r[3]]
    if plain:
        log.append("built without sanitizers: " + ", ".join(plain))
    exe = tempfile.mktemp(prefix=prop + "-", dir=BUILD)
    for attempt in range(2):
        r = run(CONFIGS[config] + SAN + [x[1] for x in res] + ["-o", exe, "-pthread"], 280)
        if r.returncode == 0:
            return exe, None
    if not sanity(config):
        raise Infra("linker does not work here")
    return None, dict(engine="A-compile", config=config, src="link", flags=[],
                      msg="a program of valid uses does not link", log=first_errors(r.stderr))


def check(prop, chk, tier, seed, log):
    cov = dict(evaluations=0, nontrivial=0, distinct_nontrivial=0, discards=0,
               rule=chk["rule"], samples=[], labels={}, configurations=[])
    total = chk[tier]
    for config in chk.get("configs", ["gcc", "clang"]):
        share = total if len(chk.get("configs", [1, 2])) == 1 else int(total * (0.7 if config == "gcc" else 0.3))
        exe, bad = build(prop, chk, config, log)
        if bad:
            if config != "gcc":
                log.append("configuration %s skipped: the harness does not build with it" % config)
                continue
            return cov, bad
        d = tempfile.mkdtemp(prefix=prop + "-run-", dir=BUILD)
        try:
            env = dict(os.environ, ASAN_OPTIONS="", UBSAN_OPTIONS="")
            r = run([exe, "--seed", str(seed + (0 if config == "gcc" else 1000003)), "--cases", str(share),
                     "--jobs", str(JOBS), "--dir", d, "--out", d + "/out.json",
                     "--maxwall", str(100 if tier == "quick" else 400)],
                    200 if tier == "quick" else 700, env=env)
            if r.returncode != 0:
                raise Infra("runner exited %d: %s" % (r.returncode, r.stderr[-500:]))
            res = json.load(open(d + "/out.json"))
        finally:
            shutil.rmtree(d, ignore_errors=True)
            os.unlink(exe)
        for k in ("evaluations", "nontrivial", "distinct_nontrivial", "discards"):
            cov[k] += res[k]
        for k, v in res["labels"].items():
            cov["labels"][k] = cov["labels"].get(k, 0) + v
        cov["samples"] += [s for s in res["samples"] if len(cov["samples"]) < 8][:4]
        cov["configurations"].append(dict(name=config, cases=res["evaluations"], variants=res["variants"],
                                          time_capped=res["capped"], unreproduced=res["unreproduced"]))
        if "failure" in res:
            f = res["failure"]
            return cov, dict(engine="A", config=config, seed=f["seed"], case=f["case"],
                             tape=f["tape"], msg=f["msg"], log=f["log"])
    return cov, None


def replay(prop, chk, data):
    log = []
    if data["engine"] == "A-compile":
        exe, bad = build(prop, chk, data["config"], log)
        if exe:
            os.unlink(exe)
        return bad
    exe, bad = build(prop, chk, data["config"], log)
    if bad:
        return bad
    d = tempfile.mkdtemp(prefix=prop + "-run-", dir=BUILD)
    try:
        with open(d + "/tape", "w") as f:
            f.write(" ".join(map(str, data["tape"])))
        run([exe, "--replay", d + "/tape", "--dir", d, "--out", d + "/out.json"], 120,
            env=dict(os.environ, ASAN_OPTIONS="", UBSAN_OPTIONS=""))
        res = json.load(open(d + "/out.json"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
        os.unlink(exe)
    return dict(data, msg=res["msg"], log=res["log"]) if res["failed"] else None
