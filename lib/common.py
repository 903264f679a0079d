"""Shared pieces of the driver: paths, compilers, object cache, evidence."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
OBJ = os.path.join(BUILD, "obj")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
JOBS = min(8, os.cpu_count() or 1)
CACHE_LIMIT = 400 << 20

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
CONFIGS = {
    "gcc": ["g++-13", "-std=c++23"],
    "gccpoly": ["g++-13", "-std=c++23", "-DVB_POLY"],
    "clang": ["clang++-18", "-std=c++20"],
    "clang26": ["clang++-18", "-std=c++26"],
}


class Infra(Exception):
    """The environment, not the code under test, is at fault."""


# A compiler that loses its way must not take the machine's memory with it.
LIMIT = ["bash", "-c", "ulimit -v 8000000; exec \"$@\"", "compile"]


def compiler_failed(text):
    """The compiler gave up; this says nothing about the program."""
    return re.search(r"internal compiler error|out of memory|frontend command failed|unable to execute command|bad_alloc|"
                     r"[Cc]annot allocate|[Kk]illed|virtual memory exhausted", text) is not None


def run(cmd, timeout=300, **kw):
    if cmd[0] in [c[0] for c in CONFIGS.values()]:
        cmd = LIMIT + cmd
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                              text=True, errors="replace", timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "", "timed out after %ss" % timeout)


def includes():
    return ["-I" + os.path.join(VERIF, "pbt"), "-I" + os.path.join(VERIF, "h"),
            "-I" + os.path.join(REPO, "include")]


def ensure_dirs():
    for d in (OBJ, REPLAYS, EVIDENCE):
        os.makedirs(d, exist_ok=True)


def prune_cache():
    ents = []
    for n in os.listdir(OBJ):
        p = os.path.join(OBJ, n)
        try:
            s = os.stat(p)
            ents.append((s.st_mtime, s.st_size, p))
        except OSError:
            pass
    total = sum(e[1] for e in ents)
    for _, size, p in sorted(ents):
        if total <= CACHE_LIMIT:
            break
        try:
            os.unlink(p)
            total -= size
        except OSError:
            pass


def sanity(config):
    """Can this compiler build a program that does not involve the library?"""
    with tempfile.TemporaryDirectory(dir=BUILD) as d:
        src = os.path.join(d, "t.cpp")
        with open(src, "w") as f:
            f.write("#include <tuple>\n#include <vector>\nint main(){std::vector<int> v{1};return v.size()-1;}\n")
        r = run(CONFIGS[config] + SAN + ["-O1", src, "-o", os.path.join(d, "t")], 120)
        return r.returncode == 0 and run([os.path.join(d, "t")], 20).returncode == 0


def compile_obj(config, src, flags, san=True):
    """Returns (ok, object path, diagnostics, sanitized). Keyed on the
    preprocessed text, so edits that do not change the code reuse the object."""
    base = CONFIGS[config] + flags + ["-O1", "-w"] + includes()
    pre = run(base + ["-E", "-P", src], 120)
    if pre.returncode != 0:
        pre = run(base + ["-E", "-P", src], 120)
        if pre.returncode != 0:
            return False, None, pre.stderr, san
    for sanflags in ([SAN, []] if san else [[]]):
        h = hashlib.sha256()
        h.update("\0".join(CONFIGS[config] + flags + sanflags).encode())
        h.update(pre.stdout.encode())
        obj = os.path.join(OBJ, h.hexdigest()[:32] + ".o")
        if os.path.exists(obj):
            os.utime(obj)
            return True, obj, "", bool(sanflags)
        tmp = "%s.%d.tmp" % (obj, os.getpid())
        for attempt in range(2):
            r = run(base + sanflags + ["-c", src, "-o", tmp], 280)
            if r.returncode == 0:
                os.replace(tmp, obj)
                return True, obj, "", bool(sanflags)
            if "error:" in r.stderr and not compiler_failed(r.stderr):
                break
        # gcc rejects some valid constant expressions only under a sanitizer,
        # so a rejection counts only when the plain build is rejected too
    return False, None, r.stderr, False


def first_errors(text, n=12):
    lines = [l for l in text.splitlines() if "error" in l or "required from" in l]
    lines = lines or text.splitlines()
    return "\n".join(lines[:n])


def save_replay(prop, data):
    data = dict(property=prop, **data)
    body = json.dumps(data, indent=1)
    name = "%s-%s.json" % (prop, hashlib.sha256(body.encode()).hexdigest()[:10])
    path = os.path.join(REPLAYS, name)
    with open(path, "w") as f:
        f.write(body + "\n")
    return path


def write_evidence(prop, tier, seed, level, coverage, wall, violations=None, assumptions=None):
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage,
              wall_s=round(wall, 2))
    if assumptions:
        ev["assumptions"] = assumptions
    if violations:
        ev["violations"] = violations
    tmp = os.path.join(EVIDENCE, "." + prop + ".tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(EVIDENCE, prop + ".json"))
