"""Common driver: build, run Hypothesis shards, shrink, replay, evidence."""
import collections, fcntl, glob, hashlib, importlib, json, multiprocessing as mp, os, subprocess, sys, time, traceback, shutil, tempfile
from rr import Runner, ROOT

NSHARD = 8
SHRINK_S = 45.0


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = "nightly-2023-12-28"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["RUSTFLAGS"] = "-Awarnings"
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("CARGO_INCREMENTAL", "CARGO_TARGET_DIR"):
            del e[k]
    return e


def build(variant):
    """Builds the fork server against /repo's working tree."""
    e = env()
    tgt = os.path.join(ROOT, "target", variant)
    os.makedirs(tgt, exist_ok=True)
    e["CARGO_TARGET_DIR"] = tgt
    cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(ROOT, "runner", "Cargo.toml")]
    feats = {"std": [], "stress": ["gc-stress"]}[variant]
    if feats:
        cmd += ["--features", ",".join(feats)]
    with open(os.path.join(tgt, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print("ERROR: building the runner (%s) failed" % variant)
        sys.exit(2)


class Case:
    """One generated program with its expected output.

    units: list of (distinctness key, non-trivial?) -- the evaluations in it
    """
    __slots__ = ("src", "expected", "units", "labels", "variant", "cpu", "extra")

    def __init__(self, src, expected, units=None, labels=(), variant="std", cpu=10, extra=None):
        self.src = src
        self.expected = expected
        self.units = units if units is not None else [(src, True)]
        self.labels = list(labels)
        self.variant = variant
        self.cpu = cpu
        self.extra = extra


def compare(res, expected, norm=None):
    """None = agrees; 'inconclusive'; or a description of the disagreement."""
    exp = expected if isinstance(expected, list) else expected.split("\n")
    out = res.out
    lines = out.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
        complete = True
    else:
        complete = False
    if norm:
        lines = [norm(l) for l in lines]
        exp = [norm(l) for l in exp]
    if res.status == "o" and lines == exp:
        return None
    # first difference
    for i, l in enumerate(lines):
        if i >= len(exp):
            return "line %d: extra output %r" % (i + 1, l[:300])
        if l != exp[i]:
            if i == len(lines) - 1 and not complete and res.status == "t" and exp[i].startswith(l):
                break
            return "line %d: expected %r, got %r (status %s %s)" % (i + 1, exp[i][:300], l[:300], res.status, res.detail[:300])
    if res.status == "t":
        return "inconclusive"
    if res.status == "s" and "memory allocation" in res.detail:
        return "inconclusive"
    if res.status != "o":
        nm = {"e": "unexpected Ruby error", "p": "interpreter panic", "s": "interpreter crash", "x": "unexpected exit"}[res.status]
        nxt = exp[len(lines)][:300] if len(lines) < len(exp) else "<end>"
        return "%s: %s (after %d of %d lines, next expected %r)" % (nm, res.detail[:500], len(lines), len(exp), nxt)
    return "output ends after line %d, expected %r next" % (len(lines), exp[len(lines)][:300])


class Stop(BaseException):
    pass


class Ctx:
    """Runners of one worker."""

    def __init__(self):
        self.r = {}
        self.scratch = tempfile.mkdtemp(prefix="rrscratch")
        os.chmod(self.scratch, 0o777)

    def runner(self, v):
        if v not in self.r:
            self.r[v] = Runner(v, cwd=self.scratch)
        return self.r[v]

    def close(self):
        for r in self.r.values():
            r.close()
        shutil.rmtree(self.scratch, ignore_errors=True)


def default_check(mod, case, ctx):
    return compare(ctx.runner(case.variant).run(case.src, case.cpu), case.expected, getattr(mod, "norm", None))


def worker(modname, shard, seed, examples, part, q):
    try:
        import warnings
        warnings.simplefilter("ignore")
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase
        mod = importlib.import_module(modname)
        check = getattr(mod, "check", None) or (lambda c, ctx: default_check(mod, c, ctx))
        ctx = Ctx()
        st = dict(evals=0, cases=0, inconclusive=0, unrepro=0)
        keys = set()
        labels = collections.Counter()
        samples = []
        best = [None]
        t_first = [None]

        def body(case):
            if t_first[0] is not None and time.time() - t_first[0] > SHRINK_S:
                raise Stop()
            msg = check(case, ctx)
            if t_first[0] is None:
                st["cases"] += 1
                st["evals"] += len(case.units)
                for k, nt in case.units:
                    if nt:
                        keys.add(hashlib.blake2b(str(k).encode("utf-8", "surrogatepass"), digest_size=8).digest())
                labels.update(case.labels)
                if len(samples) < 2 and case.units and any(n for _, n in case.units):
                    samples.append(case.src[:1500])
            if msg == "inconclusive":
                st["inconclusive"] += 1
                if os.environ.get("RR_INC"):
                    open("/tmp/inc.txt", "a").write(case.src + "\n=====\n")
                return
            if msg is not None:
                again = sum(1 for _ in range(2) if check(case, ctx) not in (None, "inconclusive"))
                if again == 0:
                    st["unrepro"] += 1
                    return
                if t_first[0] is None:
                    t_first[0] = time.time()
                size = len(case.src)
                if best[0] is None or size <= best[0][0]:
                    best[0] = (size, case, msg)
                raise AssertionError(msg)

        strat = mod.strategy(part) if part is not None else mod.strategy()
        f = given(strat)(body)
        f = settings(max_examples=examples, database=None, deadline=None, derandomize=False, print_blob=False,
                     report_multiple_bugs=False, suppress_health_check=list(HealthCheck))(f)
        f = hypothesis.seed(seed)(f)
        err = None
        try:
            import io, contextlib
            with contextlib.redirect_stdout(io.StringIO()):
                f()
        except Stop:
            pass
        except BaseException as ex:
            if best[0] is None:
                err = "".join(traceback.format_exception(ex))[-4000:]
        ctx.close()
        viol = None
        if best[0] is not None:
            _, case, msg = best[0]
            viol = dict(src=case.src, expected=case.expected, msg=msg, variant=case.variant, cpu=case.cpu, extra=case.extra)
        q.put(dict(shard=shard, st=st, keys=keys, labels=labels, samples=samples, viol=viol, err=err))
    except BaseException as ex:
        q.put(dict(shard=shard, err="".join(traceback.format_exception(ex))[-4000:], viol=None, st={}, keys=set(), labels={}, samples=[]))


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def run_check(pid, tier, seed):
    t0 = time.time()
    modname = "checks." + pid.lower()
    mod = importlib.import_module(modname)
    for v in getattr(mod, "VARIANTS", ("std",)):
        build(v)
    t_build = time.time() - t0
    viol = None
    # 1. committed replays: known findings and regressions for fixed defects
    ctx = Ctx()
    nreg = 0
    known_lines = []
    checkf = getattr(mod, "check_src", None)
    for ent in load_known():
        if ent["property"] != pid:
            continue
        nreg += 1
        exp = ent["expected"]
        if getattr(mod, "KNOWN_BY_CHECK", False):
            msg = mod.check(Case(ent["src"], exp, variant=ent.get("variant", "std"), cpu=ent.get("cpu", 10)), ctx)
        else:
            res = ctx.runner(ent.get("variant", "std")).run(ent["src"], ent.get("cpu", 10))
            msg = compare(res, exp, getattr(mod, "norm", None))
        if msg is None:
            continue
        if msg == "inconclusive" and ent["status"] == "fixed":
            continue
        if ent["status"] == "finding":
            known_lines.append("KNOWN-FINDING: property=%s %s: %s" % (pid, ent["id"], ent["what"]))
        else:
            viol = dict(src=ent["src"], expected=exp, msg="regression of a repaired defect (%s): %s" % (ent["id"], msg),
                        variant=ent.get("variant", "std"), cpu=10, extra=None)
            break
    for l in known_lines:
        print(l)
    pre = getattr(mod, "regressions", None)
    if viol is None and pre:
        for case in pre():
            nreg += 1
            msg = (getattr(mod, "check", None) or (lambda c, x: default_check(mod, c, x)))(case, ctx)
            if msg not in (None, "inconclusive"):
                viol = dict(src=case.src, expected=case.expected, msg=msg, variant=case.variant, cpu=case.cpu, extra=case.extra)
                break
    ctx.close()
    tot = collections.Counter()
    keys = set()
    labels = collections.Counter()
    samples = []
    errs = []
    if viol is None:
        n = mod.EXAMPLES[tier]
        n = max(1, int(n * float(os.environ.get("RR_SCALE", "1"))))
        parts = getattr(mod, "PARTS", [None])
        mpc = mp.get_context("fork")
        q = mpc.Queue()
        procs = []
        for s in range(NSHARD):
            part = parts[s % len(parts)]
            p = mpc.Process(target=worker, args=(modname, s, seed * 1000003 + s * 7919 + 17, n, part, q))
            p.start()
            procs.append(p)
        got = 0
        while got < NSHARD:
            try:
                r = q.get(timeout=5)
            except Exception:
                if not any(p.is_alive() for p in procs) and q.empty():
                    errs.append("a worker died")
                    break
                continue
            got += 1
            for k, v in r["st"].items():
                tot[k] += v
            keys |= r["keys"]
            labels.update(r["labels"])
            samples += r["samples"]
            if r["err"]:
                errs.append(r["err"])
            if r["viol"] and viol is None:
                viol = r["viol"]
                break
        for p in procs:
            if p.is_alive() and got < NSHARD:
                p.terminate()
        for p in procs:
            p.join(10)
            if p.is_alive():
                p.kill()
    wall = time.time() - t0
    cov = dict(evaluations=tot["evals"], distinct_nontrivial=len(keys), rule=mod.RULE, samples=samples[:4] or ["(replays only)"],
               programs_run=tot["cases"], regression_replays=nreg, inconclusive=tot["inconclusive"],
               unreproducible=tot["unrepro"], labels=dict(labels.most_common(80)), build_s=round(t_build, 1),
               known_findings=known_lines)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=1 if viol else 0)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    print("%s: %d evaluations in %d programs, %d distinct non-trivial, %d inconclusive, %.1fs (build %.1fs)" %
          (pid, tot["evals"], tot["cases"], len(keys), tot["inconclusive"], wall, t_build))
    if viol:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        h = hashlib.sha1(viol["src"].encode("utf-8", "surrogatepass")).hexdigest()[:10]
        path = os.path.join(ROOT, "replays", "%s-%s.json" % (pid, h))
        viol["property"] = pid
        with open(path, "w") as f:
            json.dump(viol, f, indent=1)
        print(viol["msg"])
        print("--- program\n" + viol["src"])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errs:
        print("ERROR:", errs[0])
        return 2
    if tot["inconclusive"] > max(3, tot["cases"] * 0.02):
        print("ERROR: too many inconclusive programs")
        return 2
    return 0


def replay(path):
    v = json.load(open(path))
    mod = importlib.import_module("checks." + v["property"].lower())
    for x in getattr(mod, "VARIANTS", ("std",)):
        build(x)
    case = Case(v["src"], v["expected"], variant=v["variant"], cpu=v["cpu"], extra=v.get("extra"))
    ctx = Ctx()
    msg = (getattr(mod, "check", None) or (lambda c, x: default_check(mod, c, x)))(case, ctx)
    ctx.close()
    if msg in (None, "inconclusive"):
        print("replay: agrees" if msg is None else msg)
        return 0
    print(msg)
    print("VIOLATION property=%s replay=%s" % (v["property"], path))
    return 1
