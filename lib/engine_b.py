"""Engine B: generated programs. A generator in gen/ decodes a choice tape into
a small C++ program together with the results it must give; programs are
compiled in batches against the library and run."""
import concurrent.futures as cf
import hashlib
import importlib
import os
import random
import re
import shutil
import tempfile
import threading
import time

from .common import *

PRELUDE = os.path.join(VERIF, "h", "b_prelude.hpp")


# a diagnostic must not quote the source of the program itself
NOSOURCE = {"g": "-fno-diagnostics-show-caret", "c": "-fno-caret-diagnostics"}


class Tape:
    """Choices come from a list (then zeros) or from a random source."""

    def __init__(self, vals=None, rng=None):
        self.vals, self.rng, self.out = vals, rng, []

    def choose(self, n):
        if self.rng is not None:
            v = self.rng.randrange(n)
        else:
            k = len(self.out)
            v = self.vals[k] % n if self.vals is not None and k < len(self.vals) else 0
        self.out.append(v)
        return v

    def range(self, lo, hi):
        return lo + self.choose(hi - lo + 1)

    def flip(self):
        return self.choose(2) == 1

    def chance(self, num, den):
        return self.choose(den) >= den - num

    def pick(self, xs):
        return xs[self.choose(len(xs))]

    def weighted(self, pairs):
        k = self.choose(sum(w for w, _ in pairs))
        for w, x in pairs:
            if k < w:
                return x
            k -= w

    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1):
            j = i + self.choose(len(xs) - i)
            xs[i], xs[j] = xs[j], xs[i]
        return xs


class Case:
    def __init__(self):
        self.decl, self.body, self.notes = [], [], []
        self.nontrivial = False
        self.labels = set()
        self.n = 0
        self.wrong, self.says = None, None

    def d(self, s):
        self.decl.append(s)

    def s(self, s):
        self.body.append("    " + s)

    def note(self, s):
        self.notes.append(s)

    def name(self, p="x"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def chk(self, cond, msg):
        self.s('CHK((%s), "%s");' % (cond, msg.replace("\\", "\\\\").replace('"', '\\"')))

    def eq(self, expr, want, msg):
        self.s('CHK_EQ((%s), (%s), "%s");' % (expr, want, msg.replace("\\", "\\\\").replace('"', '\\"')))

    def same(self, a, b, msg):
        self.s('CHK_SAME(VB_T(%s), VB_T(%s), "%s");' % (a, b, msg.replace("\\", "\\\\").replace('"', '\\"')))

    def twin(self, right, wrong, says=None):
        """`right` must compile; with `wrong` in its place (once per case) the
        program must be refused, with a diagnostic containing `says`."""
        assert self.wrong is None
        self.s(right)
        self.wrong, self.says = (len(self.body) - 1, "    " + wrong), says

    def text(self, wrong=False):
        body = list(self.body)
        if wrong:
            body[self.wrong[0]] = self.wrong[1]
        return "\n".join(self.decl) + "\nstatic void run() {\n" + "\n".join(body) + "\n}\n"

    def key(self):
        return self.text() + (self.text(True) + str(self.says) if self.wrong else "")


def make(prop, tape):
    c = Case()
    importlib.import_module("gen." + prop).gen(tape, c)
    return c


def program(chk, cases, wrong=False):
    out = ["#define %s" % d for d in chk.get("defines", [])]
    out += ['#include "b_prelude.hpp"']
    if chk.get("first"):
        out.append('#include "%s"' % chk["first"])
    out += ["#include <%s>" % h for h in chk["includes"]]
    if chk.get("helper"):
        out.append('#include "%s"' % chk["helper"])
    for k, c in enumerate(cases):
        out.append('#undef VB_NS\n#define VB_NS "c%d"' % k)
        out.append("namespace c%d {\n%s}" % (k, c.text(wrong)))
    out.append("void (*const vb_cases[])() = {%s};" % ", ".join("c%d::run" % k for k in range(len(cases))))
    out.append("int main(int argc, char **argv) { return vb::main(argc, argv, vb_cases, %d); }" % len(cases))
    return "\n".join(out) + "\n"


class Builder:
    """Compiles programs of one check with one compiler, sharing a
    precompiled header where that works."""

    def __init__(self, prop, chk, config, d):
        self.chk, self.config, self.dir = chk, config, d
        self.base = CONFIGS[config] + chk.get("flags", []) + [chk.get("opt", "-O0"), "-w"]
        if config.startswith("clang"):
            self.base.append("-fbracket-depth=2048")
        self.pch = {}
        self.n = 0
        self.lock = threading.Lock()

    def sanflags(self, san):
        return SAN if san and self.chk.get("san", True) else []

    def prepare(self):
        if self.config.startswith("clang"):
            return
        for san in ([True, False] if self.chk.get("san", True) else [False]):
            sub = os.path.join(self.dir, "pch%d" % san)
            os.makedirs(sub)
            src = os.path.join(sub, "all.hpp")
            with open(src, "w") as f:
                f.write(program(self.chk, []).split("void (*const")[0])
            self.pch[san] = (sub, src)
        with cf.ThreadPoolExecutor(2) as ex:
            def one(item):
                san, (sub, src) = item
                r = run(self.base + self.sanflags(san) + includes() +
                        ["-x", "c++-header", src, "-o", src + ".gch"], 250)
                return san, r.returncode == 0
            for san, ok in list(ex.map(one, self.pch.items())):
                if not ok:
                    del self.pch[san]

    def compile(self, cases, san=True, wrong=False):
        """(exe or None, diagnostics)"""
        with self.lock:
            self.n += 1
            k = self.n
        stem = os.path.join(self.dir, "p%d" % k)
        with open(stem + ".cpp", "w") as f:
            f.write(program(self.chk, cases, wrong))
        key = bool(san and self.chk.get("san", True))
        extra = ["-include", self.pch[key][1]] if key in self.pch else []
        r = None
        for attempt in range(3):
            r = run(self.base + self.sanflags(san) + extra + includes() + [stem + ".cpp", "-o", stem] + (["-c", NOSOURCE[self.base[0][:1]]] if wrong else []), 250)
            if r.returncode == 0:
                os.unlink(stem + ".cpp")
                return stem, ""
            if re.search(r"\berror:", r.stderr) and not compiler_failed(r.stderr):
                if extra and not wrong:  # never trust a rejection that involves the shared header
                    extra = []
                    continue
                break
            if r.returncode == 124:
                break
        if r.returncode == 124 or compiler_failed(r.stderr) or not re.search(r"\berror:", r.stderr):
            return None, None
        return None, r.stderr


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=1", UBSAN_OPTIONS="print_stacktrace=0")


def execute(exe, ncases):
    """Runs all cases; returns (checks made, {case: message})."""
    bad, checks, start = {}, 0, 0
    while start < ncases:
        r = run([exe, str(start)], 60, env=ENV)
        cur, done = None, set()
        for line in r.stdout.splitlines():
            w = line.split(" ", 2)
            if w[0] == "BEGIN":
                cur = int(w[1])
            elif w[0] == "END":
                done.add(int(w[1]))
                checks += int(w[2])
                cur = None
            elif w[0] == "FAIL":
                bad.setdefault(int(w[1]), w[2])
        if r.returncode in (0, 1) and cur is None:
            break
        if cur is None:  # something at exit (leaks): attribute by running one by one
            if ncases - start == 1:
                bad.setdefault(start, "process ended with status %d: %s" % (r.returncode, brief(r.stderr)))
                break
            for k in range(start, ncases):
                q = run([exe, str(k), str(k + 1)], 60, env=ENV)
                if q.returncode not in (0, 1):
                    bad.setdefault(k, "process ended with status %d: %s" % (q.returncode, brief(q.stderr)))
            break
        what = "timed out" if r.returncode == 124 else "process ended with status %d: %s" % (
            r.returncode, brief(r.stderr))
        bad.setdefault(cur, what)
        start = cur + 1
    return checks, bad


def brief(text):
    for l in text.splitlines():
        if "runtime error" in l or "ERROR: " in l or "terminate called" in l or "what():" in l:
            return l.strip()[:300]
    return text.strip()[-300:]


def judge(b, case):
    """None if the case passes, else (kind, message, log); 'skip' if no answer."""
    exe, diag = b.compile([case])
    if exe is None:
        exe, diag = b.compile([case], san=False)
        if exe is None:
            if diag is None:
                return "skip"
            return "compile", "a valid program is rejected by the compiler", first_errors(diag)
    try:
        _, bad = execute(exe, 1)
    finally:
        os.unlink(exe)
    return ("run", bad[0], "") if 0 in bad else refused(b, case)


def refused(b, case):
    """Is the wrong twin of this case refused as it must be?"""
    if case.wrong is None:
        return None
    exe, diag = b.compile([case], san=False, wrong=True)
    if exe is not None:
        os.unlink(exe)
        return "accept", "an invalid program is accepted by the compiler: " + case.wrong[1].strip()[:300], ""
    if diag is None:
        return "skip"
    if case.says is not None and case.says not in diag:
        return "message", "the diagnostic does not contain \"%s\"" % case.says, first_errors(diag)
    return None


def shrink(prop, b, tape, kind, best, deadline):
    """Greedy, batch-parallel reduction of the tape."""
    seen = set()

    def candidates(t):
        n = len(t)
        size = max(1, n // 2)
        while size >= 1:
            for i in range(0, n, size):
                yield t[:i] + t[i + size:]
            size //= 2
        for i in range(n):
            if t[i]:
                yield t[:i] + [0] + t[i + 1:]
        for i in range(n):
            if t[i] > 1:
                yield t[:i] + [t[i] // 2] + t[i + 1:]
                yield t[:i] + [t[i] - 1] + t[i + 1:]

    def attempt(t):
        tp = Tape(t)
        try:
            c = make(prop, tp)
        except Exception:
            return None
        out = tp.out
        while out and out[-1] == 0:
            out = out[:-1]
        key = c.key()
        with lock:
            if key in seen:
                return None
            seen.add(key)
        if (len(out), out) >= (len(tape), tape):
            return None
        r = judge(b, c)
        return (out, c, r) if r and r != "skip" and r[0] == kind else None

    lock = threading.Lock()
    seen.add(best[0].key())
    progress = True
    with cf.ThreadPoolExecutor(JOBS) as ex:
        while progress and time.time() < deadline:
            progress = False
            it = candidates(tape)
            while time.time() < deadline:
                chunk = [x for _, x in zip(range(JOBS), it)]
                if not chunk:
                    break
                hits = [h for h in ex.map(attempt, chunk) if h]
                if hits:
                    out, c, r = min(hits, key=lambda h: (len(h[0]), h[0]))
                    tape, best, progress = out, (c, r), True
                    break
    return tape, best


def check(prop, chk, tier, seed, log):
    cov = dict(evaluations=0, nontrivial=0, distinct_nontrivial=0, comparisons=0, rejected_by_infrastructure=0,
               rule=chk["rule"], samples=[], labels={}, configurations=[])
    total = chk[tier]
    t0 = time.time()
    wall = chk.get("wall", {}).get(tier, 220 if tier == "quick" else 420)
    d = tempfile.mkdtemp(prefix=prop + "-b-", dir=BUILD)
    texts = set()
    try:
        for config in chk.get("configs", ["gcc"]):
            if tier != "thorough" and config in chk.get("thorough_only", []):
                continue
            share = int(total * chk.get("share", {}).get(config, 1))
            sub = os.path.join(d, config)
            os.makedirs(sub)
            b = Builder(prop, chk, config, sub)
            b.prepare()
            found = one_config(prop, chk, b, config, share, seed, cov, texts, log,
                               t0 + wall * (1 if config == "gcc" else 1.6))
            if found:
                return cov, found
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return cov, None


def one_config(prop, chk, b, config, share, seed, cov, texts, log, deadline):
    size = chk.get("batch", 16)
    batches = [(i, min(size, share - i)) for i in range(0, share, size)]
    stop = threading.Event()
    lock = threading.Lock()
    failures = []
    cap = [False]

    def work(item):
        first, n = item
        if stop.is_set():
            return
        if time.time() > deadline:
            cap[0] = True
            return
        tapes, cases = [], []
        for k in range(first, first + n):
            tp = Tape(rng=random.Random("%s/%s/%d/%d" % (prop, config, seed, k)))
            cases.append(make(prop, tp))
            tapes.append(tp.out)
        exe, diag = b.compile(cases)
        groups = []
        if exe is not None:
            groups.append((exe, list(range(n))))
        else:
            for k in range(n):
                if stop.is_set():
                    return
                e, dg = b.compile([cases[k]])
                if e is None:
                    e, dg = b.compile([cases[k]], san=False)
                if e is not None:
                    groups.append((e, [k]))
                elif dg is None:
                    with lock:
                        cov["rejected_by_infrastructure"] += 1
                else:
                    with lock:
                        failures.append((first + k, tapes[k], cases[k],
                                         ("compile", "a valid program is rejected by the compiler", first_errors(dg))))
                    stop.set()
                    return
        for exe, ks in groups:
            checks, bad = execute(exe, len(ks))
            os.unlink(exe)
            with lock:
                cov["comparisons"] += checks
                for k in ks:
                    c = cases[k]
                    cov["evaluations"] += 1
                    for l in c.labels:
                        cov["labels"][l] = cov["labels"].get(l, 0) + 1
                    if c.nontrivial:
                        cov["nontrivial"] += 1
                        h = hashlib.sha256(c.key().encode()).digest()[:12]
                        if h not in texts:
                            texts.add(h)
                            cov["distinct_nontrivial"] += 1
                            if len(cov["samples"]) < 8:
                                cov["samples"].append("; ".join(c.notes)[:600])
                for i, msg in bad.items():
                    k = ks[i]
                    failures.append((first + k, tapes[k], cases[k], ("run", msg, "")))
            if bad:
                stop.set()
                return
            for k in ks:
                if cases[k].wrong is None or stop.is_set():
                    continue
                res = refused(b, cases[k])
                with lock:
                    cov["comparisons"] += 1
                    if res == "skip":
                        cov["rejected_by_infrastructure"] += 1
                    elif res:
                        failures.append((first + k, tapes[k], cases[k], res))
                        stop.set()
                        return

    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(work, batches))
    cov["configurations"].append(dict(name=config, cases=sum(n for _, n in batches), time_capped=cap[0]))
    for index, tape, case, res in sorted(failures, key=lambda f: f[0]):
        again = [judge(b, case) for _ in range(2)]
        if any(not r or r == "skip" or r[0] != res[0] for r in again):
            log.append("case %d failed once and did not fail again: %s" % (index, res[1][:200]))
            continue
        if res[0] == "compile" and not sanity(config):
            raise Infra("compiler %s does not work here" % config)
        if config != "gcc" and res[0] == "compile" and not chk.get("clang_must_compile"):
            log.append("a case is rejected by %s only: %s" % (config, res[2][:300]))
            continue
        tape, (case, res) = shrink(prop, b, tape, res[0], (case, res),
                                   time.time() + (60 if share < 5000 else 120))
        return dict(engine="B", config=config, seed=seed, case=index, tape=tape,
                    msg="%s: %s" % ("; ".join(case.notes)[:800], res[1]), log=res[2], program=case.text() + ("// wrong twin\n" + case.text(True) if case.wrong else ""))
    return None


def replay(prop, chk, data):
    d = tempfile.mkdtemp(prefix=prop + "-b-", dir=BUILD)
    try:
        b = Builder(prop, chk, data["config"], d)
        c = make(prop, Tape(data["tape"]))
        r = judge(b, c)
        if r == "skip":
            raise Infra("the compiler gave no answer")
        if r:
            return dict(data, msg="%s: %s" % ("; ".join(c.notes)[:800], r[1]), log=r[2])
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)
