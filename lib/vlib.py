"""Plumbing shared by all checks: building /repo's working tree, running the
driver, running TLC, confirming rejections, and writing evidence.  Nothing in
here (or in any other Python file) decides whether an observation is right:
that is TLC's verdict on the TLA+ modules in /verif/spec."""
import atexit, concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("TG_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
NCPU = os.cpu_count() or 4
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Infra(Exception):
    "The check itself could not run (exit 2)."


class Death(Exception):
    def __init__(self, what, index, err):
        self.what, self.index, self.err = what, index, err


def _pg(a):
    fn, seed, n, args = a
    rng = random.Random(seed)
    return [fn(rng, *args) for _ in range(n)]


def pgen(rng, fn, n, *args):
    """n samples of fn(rng, *args), generated in parallel, reproducibly.  fn must
    be a module-level function that returns plain data."""
    import multiprocessing
    chunks = max(1, min(64, n // 25))
    jobs = [(fn, rng.getrandbits(64), n // chunks + (1 if i < n % chunks else 0), args) for i in range(chunks)]
    with multiprocessing.get_context("fork").Pool(NCPU) as p:
        return [x for r in p.map(_pg, jobs, 1) for x in r]


class Scen:
    """One self-contained scenario: driver commands, and a function that turns
    the observations (one per command) into events for the specification."""
    __slots__ = ("cmds", "events", "label")

    def __init__(self, cmds, events, label=""):
        self.cmds, self.events, self.label = cmds, events, label


COMMON = ["-std=gnu11", "-w", "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,float-cast-overflow",
       "-fno-sanitize-recover=all", "-g"]
VARIANTS = {
    # name: (compiler, flags, separate deps, static)
    "main": ("gcc", ["-O2"], False, False),
    "noamalga": ("gcc", ["-O2", "-DTG_NOAMALGA"], True, False),
    "noatomics": ("gcc", ["-O2", "-DTG_NOATOMICS"], False, False),
    "ixfloat64": ("gcc", ["-O2", "-DTG_IXFLOAT64"], False, False),
    "static": ("gcc", ["-O2", "-DTG_STATIC"], False, True),
    "clang": ("clang", ["-O3"], False, False),
    "nouint128": ("gcc", ["-O2", "-U__SIZEOF_INT128__"], False, False),
    "uchar": ("gcc", ["-O2", "-funsigned-char", "-fwrapv"], False, False),
    "O0": ("clang", ["-O0"], False, False),
    "san": ("gcc", ["-O1"] + SAN, False, False),
    "sandeps": ("clang", ["-O1", "-DTG_NOAMALGA"] + SAN, True, False),
    "sannoatomics": ("gcc", ["-O1", "-DTG_NOATOMICS"] + SAN, False, False),
}


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="tgv_")
        atexit.register(lambda: shutil.rmtree(self.dir, ignore_errors=True))
        self.rng = random.Random(f"{prop}/{self.seed}/{tier}")
        self.bins = {}
        self.violations = []
        self.stats = dict(events=0, scenarios=0, states=0, transitions=0, traces=0, canaries=0)
        self.samples = []
        self.notes = []
        self.missing = []
        self.distinct = set()
        self.assumptions = []

    def path(self, name):
        return os.path.join(self.dir, name)

    # ------------------------------------------------------------ building
    def build_conc(self, key, src):
        "the library with calls at every access to memory, and the scheduler (conc.c)"
        out = self.path("conc")
        for i, (f, fl) in enumerate([(f"{REPO}/tg.c", ["-fsanitize=thread"]), (os.path.join(VERIF, "harness", src), [])]):
            r = subprocess.run(["clang", "-O1", "-g", "-w"] + fl + ["-I", REPO, "-c", f, "-o", f"{out}.{i}.o"], capture_output=True, text=True)
            if r.returncode:
                raise Infra("compile failed: " + r.stderr[-2000:])
        r = subprocess.run(["clang", f"{out}.0.o", f"{out}.1.o", "-lm", "-o", out], capture_output=True, text=True)
        if r.returncode:
            raise Infra("link failed: " + r.stderr[-2000:])
        self.bins[key] = out
        return out

    def build(self, variant="main", src="drv.c"):
        key = (variant, src)
        if key in self.bins:
            return self.bins[key]
        if variant == "conc":
            return self.build_conc(key, src)
        cc, flags, deps, static = VARIANTS[variant]
        out = self.path(f"{src[:-2]}_{variant}")
        base = [cc] + COMMON + flags + ["-I", REPO]
        drv = os.path.join(VERIF, "harness", src)
        if static:
            tu = self.path("static_tu.c")
            with open(tu, "w") as f:
                f.write('#include "%s/tg.c"\n#include "%s"\n' % (REPO, drv))
            jobs = [base + ["-c", tu, "-o", out + ".o"]]
            objs = [out + ".o"]
        else:
            files = [drv, f"{REPO}/tg.c"] + ([f"{REPO}/deps/json.c", f"{REPO}/deps/fp.c"] if deps else [])
            jobs, objs = [], []
            for i, f in enumerate(files):
                objs.append(f"{out}.{i}.o")
                jobs.append(base + ["-c", f, "-o", objs[-1]])
        procs = [subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for j in jobs]
        for pr in procs:
            o, _ = pr.communicate()
            if pr.returncode:
                raise Infra("compile failed: " + o.decode(errors="replace")[-2000:])
        r = subprocess.run([cc] + flags + objs + ["-o", out, "-lm"], capture_output=True, text=True)
        if r.returncode:
            raise Infra("link failed: " + r.stderr[-2000:])
        self.bins[key] = out
        return out

    # ------------------------------------------------------------ driving
    def drive_raw(self, bin_, lines, timeout=120, flush=False):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
                   UBSAN_OPTIONS="print_stacktrace=1")
        inp = "\n".join(lines) + "\n"
        f = tempfile.TemporaryFile(dir=self.dir)
        e = tempfile.TemporaryFile(dir=self.dir)
        to = False
        try:
            r = subprocess.run([bin_] + (["-l"] if flush else []), input=inp.encode(), stdout=f, stderr=e,
                               timeout=timeout, env=env)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc, to = None, True
        f.seek(0)
        e.seek(0)
        out = f.read().split(b"\n")
        err = e.read().decode(errors="replace")
        complete = out[:-1]
        if rc == 0 and len(complete) == len(lines):
            return [json.loads(x) for x in complete]
        if rc == 90:
            raise Infra("driver rejected a command: " + err[-500:] + " line: " + (lines[len(complete)] if len(complete) < len(lines) else "?")[:300])
        what = "does not end" if to else "crashes" if rc and rc < 0 or rc else "stops early"
        raise Death(what, len(complete), err)

    def drive(self, bin_, scens, per_batch=400, timeout=60):
        """Run scenarios; returns list of (scenario, outputs) for those that ran
        to the end.  A scenario that kills or hangs the process is reported as a
        violation after it has been confirmed on its own."""
        batches = [scens[i:i+per_batch] for i in range(0, len(scens), per_batch)]

        def one(batch):
            if len(self.violations) >= 6:
                return []       # enough; a hang costs its whole time limit
            lines = [c for s in batch for c in s.cmds]
            try:
                outs = self.drive_raw(bin_, lines, timeout)
            except Death:
                return self._isolate(bin_, batch, timeout)
            res, k = [], 0
            for s in batch:
                res.append((s, outs[k:k+len(s.cmds)]))
                k += len(s.cmds)
            return res
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            parts = list(ex.map(one, batches))
        res = [x for p in parts for x in p]
        self.stats["scenarios"] += len(res)
        return res

    def _isolate(self, bin_, batch, timeout):
        res, rest, tries = [], list(batch), 0
        while rest and len(self.violations) < 6:
            lines = [c for s in rest for c in s.cmds]
            try:
                outs = self.drive_raw(bin_, lines, min(timeout, 30), flush=True)
                k = 0
                for s in rest:
                    res.append((s, outs[k:k+len(s.cmds)]))
                    k += len(s.cmds)
                return res
            except Death as d:
                k, j = 0, 0
                while j < len(rest) and k + len(rest[j].cmds) <= d.index:
                    k += len(rest[j].cmds)
                    j += 1
                if j >= len(rest):
                    self.dead(bin_, rest[-1:], Death(d.what, 0, d.err), confirm=rest)
                    return res
                self.dead(bin_, [rest[j]], d, confirm=rest[:j+1])
                rest = rest[j+1:]
                tries += 1
                if tries >= 3:
                    return res
        return res

    def dead(self, bin_, scen, d, confirm):
        for cand in (scen, confirm):
            try:
                self.drive_raw(bin_, [c for s in cand for c in s.cmds], 20, flush=True)
            except Death as d2:
                self.violation(f"the library {d2.what} in: {scen[0].label or ' ; '.join(scen[0].cmds)[:300]}",
                               dict(kind="death", what=d2.what, stderr=d2.err[-3000:], cmds=[c for s in cand for c in s.cmds],
                                    bin=os.path.basename(bin_)))
                return
        self.notes.append("unrepeatable death ignored: " + d.what)

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=1, timeout=800, extra=(), xmx="3g", xss="64m", partial=False):
        wd = tempfile.mkdtemp(prefix="tlc_", dir=self.dir)
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), wd)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{xmx}", f"-Xss{xss}",
               "-cp", TLAJAR, "tlc2.TLC", "-workers", str(workers), "-metadir", wd + "/m", "-noGenerateSpecTE",
               "-config", cfg or module + ".cfg"] + list(extra) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=wd, capture_output=True, text=True, timeout=timeout, errors="replace",
                               env=dict(os.environ, **(env or {})))
        except subprocess.TimeoutExpired as e:
            if partial:
                return None, (e.stdout or b"").decode(errors="replace")
            raise Infra(f"TLC timed out on {module}")
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    @staticmethod
    def tlc_counts(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def validate(self, module, events, canaries=(), shards=None, cfg=None, timeout=800, env=None, group=None):
        """Check events against a trace specification.  events: dicts.  Returns
        {index: detail} of the rejected ones.  canaries: corrupted events which
        the specification must reject (they show that it can).  group: function
        giving a key; events of one key stay together, in order."""
        if not events and not canaries:
            return {}
        shards = shards or min(NCPU, max(1, len(events) // 20))
        if self.quick:
            timeout = min(timeout, 300)
        # deal events (or groups of them) out over the shards
        parts = [[] for _ in range(shards)]
        if group is None:
            for i, e in enumerate(events):
                parts[i % shards].append((str(i), e))
        else:
            order = {}
            for i, e in enumerate(events):
                k = group(e)
                if k not in order:
                    order[k] = len(order) % shards
                parts[order[k]].append((str(i), e))
        jobs = []
        for n, part in enumerate(parts):
            can = [(f"canary{k}", c) for k, c in enumerate(canaries)]
            full = part + can
            if not full:
                continue
            fn = self.path(f"tr_{module}_{n}_{time.monotonic_ns()}.ndjson")
            with open(fn, "w") as f:
                for i, e in full:
                    f.write(json.dumps(dict(e, id=i), separators=(",", ":")) + "\n")
            jobs.append((fn, [i for i, _ in full]))

        def one(job):
            fn, ids = job
            bad = {}
            while True:
                rc, out = self.tlc(module, cfg, env=dict(env or {}, TRACE=fn), timeout=timeout, partial=True)
                if f'<<"CHECKED", {len(ids)}>>' in out and rc == 0:
                    break
                # An observation that the specification cannot even be
                # evaluated on is not one that it allows.
                at = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
                if not at or len(bad) >= 5 or group is not None:
                    break
                k = int(at[-1]) - 1
                if not 0 <= k < len(ids) or ids[k].startswith("canary"):
                    break
                m = re.search(r"(The exception was.*|Error: .*|Attempted to.*)", out)
                bad[ids[k]] = "not in the specification's domain: " + (m.group(1)[:200] if m else "")
                with open(fn) as f:
                    lines = f.readlines()
                del lines[k], ids[k]
                with open(fn, "w") as f:
                    f.writelines(lines)
            return fn, ids, rc, out, bad
        rej, missing = {}, set()
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for fn, ids, rc, out, bad in ex.map(one, jobs):
                rej.update({int(i): d for i, d in bad.items()})
                whole = f'<<"CHECKED", {len(ids)}>>' in out and rc == 0
                if not whole:
                    # an error, unless what it did find is confirmed
                    self.missing.append(f"TLC did not check the whole trace ({module}, rc={rc}): " + out[-1500:])
                g, d = self.tlc_counts(out)
                self.stats["states"] += d
                self.stats["transitions"] += max(0, g - 1)
                self.stats["traces"] += 1
                got = {}
                for m in re.finditer(r'^"REJECT\|([^|]*)\|(.*)', out, re.M):
                    got[m.group(1)] = m.group(2)[:600]
                if len(got) != out.count('"REJECT|') and whole:
                    raise Infra("cannot read TLC's rejections")
                for i in ids:
                    if i.startswith("canary"):
                        self.stats["canaries"] += 1
                        if i not in got and whole:
                            missing.add(i)
                    elif i in got:
                        rej[int(i)] = got[i]
                os.unlink(fn)
        if missing:
            # (an error unless violations are found: a corrupted recording of wrong behaviour may be right)
            self.missing.append(f"{module} accepted corrupted events {sorted(missing)}: the specification is not binding")
        self.stats["events"] += len(events)
        return rej

    # ------------------------------------------------------------ the usual check
    def check(self, module, scens, variants=("main",), canaries=(), cfg=None, per_batch=400, timeout=60, src="drv.c",
              env=None, group=None, tlc_timeout=800, known=None, maxrep=5, shards=None, key=None):
        """Drive the scenarios through each variant, validate all events, and
        report confirmed rejections."""
        events, origin = [], []
        if self.violations and self.quick and time.time() - self.t0 > 400:
            return {}           # enough is known
        for v in variants:
            b = self.build(v, src)
            for s, outs in self.drive(b, scens, per_batch, timeout):
                for e in s.events(outs):
                    events.append(e)
                    origin.append((s, v, b))
        for e in events:
            self.distinct.add(hash(key(e) if key else json.dumps(e, sort_keys=True, default=str)))
        for e in (events[:1] + events[len(events)//2:len(events)//2+1]):
            t = json.dumps(e)
            if len(self.samples) < 6:
                self.samples.append(t if len(t) < 1500 else t[:1500] + "...")
        rej = self.validate(module, events, canaries, cfg=cfg, env=env, group=group, timeout=tlc_timeout, shards=shards)
        # confirm on a fresh process and a fresh TLC
        seen = 0
        for i in sorted(rej):
            s, v, b = origin[i]
            if known:
                k = known(events[i], rej[i])
                if k:
                    self.known(k)
                    continue
            if seen >= maxrep or self.violations and self.quick and time.time() - self.t0 > 400:
                seen += 1
                continue
            try:
                outs = self.drive_raw(b, s.cmds, 30)
                again = s.events(outs)
            except Death as d:
                self.violation(f"the library {d.what}", dict(cmds=s.cmds, stderr=d.err[-2000:]))
                seen += 1
                continue
            r2 = self.validate(module, again, (), cfg=cfg, env=env, shards=1)
            if r2:
                j = sorted(r2)[0]
                self.violation(f"[{v}] {s.label or module}: {r2[j]}",
                               dict(kind="reject", module=module, variant=v, cmds=s.cmds, event=again[j], detail=r2[j]))
                seen += 1
            else:
                # depends on what ran before in the process: repeat all of it
                self.retry_batch(module, scens, v, b, i, origin, cfg, env, per_batch, timeout, rej[i])
                seen += 1
        return rej

    def retry_batch(self, module, scens, v, b, i, origin, cfg, env, per_batch, timeout, detail):
        s = origin[i][0]
        k = next(j for j, x in enumerate(scens) if x is s)
        lo = k - k % per_batch
        batch = scens[lo:k+1]
        outs = self.drive_raw(b, [c for x in batch for c in x.cmds], timeout)
        n = sum(len(x.cmds) for x in batch[:-1])
        r2 = self.validate(module, s.events(outs[n:]), (), cfg=cfg, env=env, shards=1)
        if r2:
            self.violation(f"[{v}] {s.label or module} (after other calls): {detail}",
                           dict(kind="reject", module=module, variant=v, cmds=[c for x in batch for c in x.cmds], detail=detail))
        else:
            self.notes.append("unrepeatable rejection ignored: " + detail)

    # ------------------------------------------------------------ results
    def violation(self, text, replay):
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, f"{self.prop}_{len(self.violations)}.json")
        with open(fn, "w") as f:
            json.dump(dict(property=self.prop, text=text, **replay), f, indent=1, default=str)
        self.violations.append((text, fn))

    def listed(self, key):
        "what KNOWN_FINDINGS.txt says about this property's finding, or None"
        with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
            for x in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", x)
                if m and m.group(1) == self.prop and m.group(2) == key:
                    return m.group(3)
        return None

    def known(self, k):
        if k not in getattr(self, "_known", set()):
            self._known = getattr(self, "_known", set()) | {k}

    def finish(self, level, rule, extra=None):
        if self.missing and not self.violations:
            raise Infra(self.missing[0])
        cov = dict(evaluations=self.stats["events"], distinct_nontrivial=len(self.distinct), rule=rule,
                   states=self.stats["states"], transitions=self.stats["transitions"],
                   traces_validated_against_impl=self.stats["traces"], scenarios_driven=self.stats["scenarios"],
                   corrupted_events_rejected=self.stats["canaries"], samples=self.samples)
        cov.update(extra or {})
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time()-self.t0, 2),
                  violations=[dict(what=t, replay=f) for t, f in self.violations])
        if self.notes:
            ev["coverage"]["notes"] = self.notes[:20]
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(getattr(self, "_known", set())):
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        for t, f in self.violations[:20]:
            print("  " + t[:400])
        if self.violations:
            print(f"VIOLATION property={self.prop} replay={self.violations[0][1]}")
        print(f"{self.prop} {self.tier}: {self.stats['scenarios']} scenarios, {self.stats['events']} events, "
              f"{self.stats['states']} states, {len(self.violations)} violations, {time.time()-self.t0:.1f}s")
        return 1 if self.violations else 0


def main(argv):
    import importlib
    prop, tier = argv[1], argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.path.insert(0, HERE)
    mod = importlib.import_module("checks." + prop)
    ctx = Ctx(prop, tier)
    try:
        return mod.run(ctx)
    except Infra as e:
        if ctx.violations:  # something was confirmed before the machinery gave up
            ctx.notes.append(str(e)[:500])
            return ctx.finish("other", "incomplete run", dict(explanation="violation found before the run ended"))
        print("CHECK ERROR:", e, file=sys.stderr)
        return 2
    except Exception as e:
        traceback.print_exc()
        if ctx.violations:
            return ctx.finish("other", "incomplete run", dict(explanation="violation found before the run ended"))
        print("CHECK ERROR:", repr(e)[:500], file=sys.stderr)
        return 2
