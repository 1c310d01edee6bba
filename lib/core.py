"""Building the library under test and running harness jobs.

Everything is built from /repo's current working tree in a scratch directory that is removed at exit.
"""
import atexit, concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = min(8, os.cpu_count() or 1)
H = os.path.join(VERIF, "harness")

ALLSETS = ("-DTUNE_H_ -DTS_SUPPORT_L5=1 -DTS_SUPPORT_L3=1 -DTS_SUPPORT_SHAKE=1 -DTS_SUPPORT_SHA2=1 "
           "-DTS_SUPPORT_S=1 -DTS_SHA2_OPTIMIZATION=1 -DTS_SHAKE256_OPT=0")
HFLAGS = "-std=gnu11 -g -Wall -Wextra -Wno-unused-parameter -Wno-unused-function -fno-pie"


class BuildError(Exception):
    pass


class HarnessError(BuildError):
    pass


def sh(cmd, cwd=None, timeout=300, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", timeout=timeout, env=env, stdin=subprocess.DEVNULL)
    return p.returncode, p.stdout


class Work:
    """scratch directory + library builds"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vpmc_", dir="/tmp")
        atexit.register(lambda: shutil.rmtree(self.dir, ignore_errors=True))
        self.src = os.path.join(self.dir, "src")
        os.mkdir(self.src)
        for f in sorted(os.listdir(REPO)):
            p = os.path.join(REPO, f)
            if f.startswith(".") or f == "_build" or f.endswith(".o") or f in ("test_sphincs", "ramspace", "ramspace_build"):
                continue
            if os.path.isfile(p):
                shutil.copy2(p, os.path.join(self.src, f))
            elif os.path.isdir(p):
                shutil.copytree(p, os.path.join(self.src, f), symlinks=True, ignore=shutil.ignore_patterns("*.o"))
        self.libs, self.plain = {}, False
        self.cc, self.cflags, self.objects, self.noopt = self.makevars()

    def makevars(self):
        mk = os.path.join(self.dir, "vars.mk")
        with open(mk, "w") as f:
            f.write("include Makefile\n.PHONY: vp_print_vars\nvp_print_vars:\n\t@echo 'CC=$(CC)'\n\t@echo 'CFLAGS=$(CFLAGS)'\n"
                    "\t@echo 'OBJECTS=$(OBJECTS)'\n\t@echo 'NOOPT=$(NO_OPT_CFLAGS)'\n")
        env = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "MFLAGS", "CFLAGS", "DFLAGS", "CC")}
        rc, out = sh(["make", "-s", "--no-print-directory", "-f", mk, "vp_print_vars"], cwd=self.src, env=env)
        d = dict(re.findall(r"^(CC|CFLAGS|OBJECTS|NOOPT)=(.*)$", out, re.M))
        if rc or not d.get("OBJECTS"):
            raise BuildError("cannot read the Makefile:\n" + out)
        return d["CC"], d["CFLAGS"], d["OBJECTS"].split(), d["NOOPT"]

    def lib(self, name, dflags=ALLSETS, cflags=None, extra="", jobs=None, post=None, cc=None):
        """compile the library's objects; returns (dir, [objects])"""
        if name in self.libs:
            return self.libs[name]
        d = os.path.join(self.dir, "lib_" + name)
        os.mkdir(d)
        fl = f"{self.cflags if cflags is None else cflags} -fno-pie {extra}".split()
        cmds = []
        for o in self.objects:
            c = os.path.join(self.src, o[:-2] + ".c")
            cmds.append([cc or self.cc.split()[-1], "-c", *fl, *dflags.split(), c, "-o", os.path.join(d, o.replace("/", "_"))])
        errs = []

        def one(c):
            rc, out = sh(c)
            return (rc, out, c)
        with cf.ThreadPoolExecutor(jobs or NPROC) as ex:
            for rc, out, c in ex.map(one, cmds):
                if rc:
                    errs.append(out)
        if errs:
            raise BuildError(f"library build {name} failed:\n" + "\n".join(errs)[:4000])
        if post:
            for c in cmds:
                rc, out = sh([*post, c[-1]])
                if rc:
                    raise BuildError("objcopy: " + out)
        self.libs[name] = (d, [os.path.join(d, o.replace("/", "_")) for o in self.objects], dflags)
        return self.libs[name]

    def harness(self, lib, src, *a, defs="", **kw):
        """link one harness with a library build; a tree whose internal structures are not the ones the derived sets are
        built from is explored through the public interface and the published sets alone (VP_PLAIN)"""
        if not self.plain:
            try:
                return self.harness1(lib, src, *a, defs=defs, **kw)
            except HarnessError as e:
                print("note: harness falls back to the public interface: " + str(e)[:500], flush=True)
                self.plain = True
        return self.harness1(lib, src, *a, defs=defs + " -DVP_PLAIN", **kw)

    def harness1(self, lib, src, out=None, hflags="-O2", dflags=None, extra_src=(), ldflags="", common="common.c", defs="", cc="gcc", refflags="-O3 -march=x86-64-v2"):
        d, objs, df = self.libs[lib]
        out = out or os.path.join(d, os.path.basename(src).replace(".c", ""))
        # the harness's own code has to see the same configuration as the library
        cmds, ho = [], []
        for s in [src, common, *extra_src]:
            s = s if os.path.isabs(s) else os.path.join(H, s)
            o = out + "_" + os.path.basename(s).replace(".c", ".o")
            ho.append(o)
            cmds.append([cc, *HFLAGS.split(), *hflags.split(), *(dflags or df).split(), *defs.split(), "-I" + self.src, "-I" + os.path.join(VERIF, "ref"), "-I" + H, "-c", s, "-o", o])
        mb, me, ref = (os.path.join(d, x) for x in ("vp_mb.o", "vp_me.o", "vp_ref.o"))
        if not os.path.exists(ref):
            cmds += [["gcc", "-O0", "-fno-pie", "-c", os.path.join(H, "mark_begin.c"), "-o", mb],
                     ["gcc", "-O0", "-fno-pie", "-c", os.path.join(H, "mark_end.c"), "-o", me],
                     [cc, *refflags.split(), "-fno-pie", "-g", "-I" + os.path.join(VERIF, "ref"), "-c", os.path.join(VERIF, "ref", "ref.c"), "-o", ref]]
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for rc, o, c in ex.map(lambda c: (*sh(c), c), cmds):
                if rc:
                    raise HarnessError("harness build failed: " + " ".join(c) + "\n" + o[:4000])
        rc, o = sh([cc, "-no-pie", *[f for f in (hflags + " " + ldflags).split() if f.startswith("-fsanitize")], *ho, mb, *objs, me, ref, "-o", out, *ldflags.split(), "-lpthread"])
        if rc:
            raise HarnessError("link failed:\n" + o[:4000])
        return out


GUEST = os.path.join(H, "guest")


def guest(work, name, target, opt, dflags):
    """the library compiled for an interpreted 32-bit machine; returns (elf or None, harness or None, why not)"""
    d = os.path.join(work.dir, "guest_" + name)
    os.mkdir(d)
    own = [f for f in work.cflags.split() if re.match(r"-(D|U|I|std=)", f)]
    fl = [f"--target={target}-unknown-none-elf", *"-mcpu=mips32r2 -msoft-float -mno-abicalls -fno-pic -ffreestanding -mno-gpopt -w".split(),
          "-isystem", os.path.join(GUEST, "inc"), "-I" + work.src, *own, *dflags.split()]
    objs = [os.path.join(d, o.replace("/", "_")) for o in work.objects]
    cmds = [["clang", *fl, *opt.split(), "-c", os.path.join(work.src, o[:-2] + ".c"), "-o", x] for o, x in zip(work.objects, objs)]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for rc, o in ex.map(sh, cmds):
            if rc:
                return None, None, o[:1500]
    g = os.path.join(d, "vp_g.o")
    for plain in ([], ["-DVP_PLAIN"]):
        rc, o = sh(["clang", *fl, "-O2", "-fno-builtin", *plain, "-I" + os.path.join(VERIF, "ref"), "-c", os.path.join(GUEST, "g.c"), "-o", g])
        if rc == 0:
            break
    else:
        return None, None, o[:1500]
    elf = os.path.join(d, "guest.elf")
    ld = shutil.which("ld.lld-18") or shutil.which("ld.lld") or "/usr/lib/llvm-18/bin/ld.lld"
    rc, o = sh([ld, "-static", "-e", "0", "-Ttext=0x20000", g, *objs, "-o", elf])
    if rc:
        return None, None, o[:1500]
    exe = os.path.join(d, "c23emu")
    rc, o = sh(["gcc", *HFLAGS.split(), "-w", "-O3", "-march=x86-64-v2", "-no-pie", *dflags.split(), "-DVP_PLAIN", "-DEMU", "-I" + work.src, "-I" + H, "-I" + os.path.join(VERIF, "ref"),
                *[os.path.join(H, x) for x in ("c23.c", "emu.c", "emu_stub.c", "common.c", "mark_begin.c", "mark_end.c")], os.path.join(VERIF, "ref", "ref.c"), "-o", exe])
    if rc:
        raise BuildError("harness build failed: " + o[:3000])
    return elf, exe, ""


class ObjCache:
    """many configurations of the library: each source is preprocessed per configuration and every distinct
    result is compiled once"""

    def __init__(self, work, sub="objcache", cflags=None, post=None):
        self.w, self.cfg, self.linkbad, self.compiled = work, {}, {}, 0
        self.cflags, self.post = work.cflags if cflags is None else cflags, post
        self.dir = os.path.join(work.dir, sub)
        os.mkdir(self.dir)
        self.done = {}

    def want(self, name, dflags):
        self.cfg[name] = dict(dflags=dflags, objs=[])

    def _compile(self, srcs, fl, cc, post=None):
        """returns {cfg: ([objects], error)}"""
        jobs = [(n, s) for n in self.cfg for s in srcs]
        def pre(x):
            n, s = x
            p = subprocess.run([cc, *fl, *self.cfg[n]["dflags"].split(), "-E", s], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
            h = hashlib.sha256((s + "\0" + " ".join(fl) + "\0").encode() + re.sub(rb'^# .*$', b'', p.stdout, flags=re.M)).hexdigest()[:24]
            return n, s, p.returncode, p.stderr.decode(errors="replace"), h
        res = {n: ([], None) for n in self.cfg}
        todo = {}
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for n, s, rc, err, h in ex.map(pre, jobs):
                if rc:
                    res[n] = (res[n][0], res[n][1] or err)
                    continue
                o = os.path.join(self.dir, h + ".o")
                res[n][0].append(o)
                if o not in self.done:
                    todo.setdefault(o, (s, n))
            def comp(x):
                o, (s, n) = x
                rc, out = sh([cc, "-c", *fl, *self.cfg[n]["dflags"].split(), s, "-o", o])
                if rc == 0 and post:
                    rc, out = sh([*post, o])
                return o, rc, out
            for o, rc, out in ex.map(comp, todo.items()):
                self.compiled += 1
                self.done[o] = None if rc == 0 else out
        for n in res:
            for o in res[n][0]:
                if self.done.get(o):
                    res[n] = (res[n][0], res[n][1] or self.done[o])
        return res

    def build(self):
        fl = f"{self.cflags} -fno-pie".split()
        r = self._compile([os.path.join(self.w.src, o[:-2] + ".c") for o in self.w.objects], fl, self.w.cc.split()[-1], self.post)
        for n in r:
            self.cfg[n]["objs"] = r[n][0]
        return {n: e for n, (_, e) in r.items() if e}

    def link(self, src, extra_src=(), hflags="-O2", defs="", ldflags=""):
        fl = [*HFLAGS.split(), *hflags.split(), *defs.split(), "-I" + self.w.src, "-I" + os.path.join(VERIF, "ref"), "-I" + H]
        fixed = []
        for s, f in ((os.path.join(H, "mark_begin.c"), ["-O0"]), (os.path.join(H, "mark_end.c"), ["-O0"]), (os.path.join(VERIF, "ref", "ref.c"), ["-O3", "-march=x86-64-v2"])):
            o = os.path.join(self.dir, os.path.basename(s) + ".o")
            if not os.path.exists(o):
                rc, out = sh(["gcc", *f, "-fno-pie", "-w", "-I" + os.path.join(VERIF, "ref"), "-c", s, "-o", o])
                if rc:
                    raise BuildError(out)
            fixed.append(o)
        for plain in ([], ["-DVP_PLAIN"]):
            r = self._compile([os.path.join(H, x) for x in (src, "common.c", *extra_src)], fl + plain, "gcc")
            bad = {n: e for n, (_, e) in r.items() if e}
            if not bad:
                break
            print("note: harness falls back to the public interface", flush=True)
        if bad:
            raise BuildError("harness build failed: " + str(list(bad.items())[0])[:4000])
        bins = {}
        def ln(n):
            out = os.path.join(self.dir, f"{n}_{src[:-2]}")
            return n, out, sh(["gcc", "-no-pie", *[f for f in (hflags + " " + ldflags).split() if f.startswith("-fsanitize")], *r[n][0], fixed[0], *self.cfg[n]["objs"], fixed[1], fixed[2], "-o", out, *ldflags.split(), "-lpthread"])
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for n, out, (rc, txt) in ex.map(ln, list(self.cfg)):
                if rc:
                    self.linkbad[n] = txt
                else:
                    bins[n] = out
        return bins


class Job:
    def __init__(self, binary, name, weight=1, args=(), build="", timeout=None, env=None):
        self.binary, self.name, self.weight, self.args, self.build, self.timeout, self.env = binary, name, weight, tuple(args), build, timeout, env


class JobResult:
    def __init__(self):
        self.stats, self.samples, self.viol, self.capped, self.crash, self.err, self.out, self.wall = {}, [], None, [], None, None, "", 0.0


RUNNING = set()


def run_job(job, timeout):
    r = JobResult()
    cmd = [job.binary, *job.args, *(["--thorough"] if TIER == "thorough" else []), job.name]
    t = time.time()
    env = dict(os.environ)
    if job.env:
        env.update(job.env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         stdin=subprocess.DEVNULL, start_new_session=True, env=env, cwd=os.path.dirname(job.binary))
    RUNNING.add(p)
    timed = False
    try:
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            timed = True
            p.send_signal(signal.SIGALRM)
            try:
                out, _ = p.communicate(timeout=5)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                out, _ = p.communicate()
    finally:
        RUNNING.discard(p)
    r.wall = time.time() - t
    r.out = out
    for l in out.splitlines():
        if l.startswith("S "):
            _, k, v = l.split()
            r.stats[k] = r.stats.get(k, 0) + int(v)
        elif l.startswith("X "):
            r.samples.append(l[2:])
        elif l.startswith("V "):
            r.viol = l[2:]
        elif l.startswith("C "):
            r.capped.append(l[2:])
        elif l.startswith("H "):
            r.crash = l[2:]
    if timed:
        r.crash = "no termination within %ds %s" % (timeout, r.crash or "")
        r.viol = None
        r.timed = True
    else:
        r.timed = False
        if p.returncode == 0 and out.rstrip().endswith("OK"):
            pass
        elif r.viol:
            pass
        elif p.returncode == 3:
            r.err = "harness error: " + out[-600:]
        else:
            tail = [x for x in out.splitlines() if x.startswith(("==", "SUMMARY")) or "runtime error" in x][:4]
            r.crash = f"exit {p.returncode} {r.crash or ''} {' | '.join(tail)}".strip()
    return r


def list_jobs(binary, build="", args=(), env=None):
    rc, out = sh([binary, *args, *(["--thorough"] if TIER == "thorough" else []), "--list"], env={**os.environ, **(env or {})})
    if rc:
        raise BuildError("--list failed: " + out[-500:])
    jobs = []
    for l in out.splitlines():
        if l.startswith("J "):
            f = l.split()
            jobs.append(Job(binary, f[1], float(f[2]) if len(f) > 2 else 1.0, args=args, build=build, env=env))
    return jobs


class Check:
    """collects the results of one property's check"""

    def __init__(self, pid):
        self.pid, self.t0 = pid, time.time()
        self.work = Work()
        self.stats, self.samples, self.capped, self.notes = {}, [], [], []
        self.jobs_done = 0
        self.job_names = []
        self.only = None      # replay: run this job only

    def remaining(self):
        return (840 if TIER == "quick" else 6 * 3600) - (time.time() - self.t0)

    def run(self, jobs, timeout=None):
        if self.only:
            jobs = [j for j in jobs if j.name == self.only[1] and j.build == self.only[0]]
        jobs = sorted(jobs, key=lambda j: -j.weight)
        base_to = timeout or (200 if TIER == "quick" else 5400)
        stop = False
        suspects = []
        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = {}
            it = iter(jobs)
            def submit():
                try:
                    j = next(it)
                except StopIteration:
                    return
                futs[ex.submit(run_job, j, min(j.timeout or base_to, max(5, self.remaining() - 60)))] = j
            for _ in range(NPROC):
                submit()
            while futs:
                done, _ = cf.wait(futs, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    j = futs.pop(f)
                    r = f.result()
                    if r.err:
                        stop = True
                        self.kill()
                        raise BuildError(f"job {j.name}: {r.err}")
                    if r.viol or r.crash:
                        suspects.append((j, r))
                        if not r.timed:
                            stop = True
                    else:
                        self.merge(j, r)
                    if not stop and not suspects:
                        submit()
                if stop:
                    for f in futs:
                        f.cancel()
                    self.kill()
                    for f in list(futs):
                        try:
                            f.result()
                        except Exception:
                            pass
                    break
        for j, r in sorted(suspects, key=lambda x: x[1].timed):
            # replay before reporting
            r2 = run_job(j, min(2 * base_to, max(30, self.remaining() - 20)))
            if r2.viol or r2.crash:
                self.violation(j, r2)
            print(f"note: job {j.name} did not reproduce: {r.viol or r.crash}", flush=True)
            self.notes.append(f"job {j.name}: first run reported '{(r.viol or r.crash)[:200]}', not reproduced on replay")
            self.merge(j, r2)

    def kill(self):
        for p in list(RUNNING):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass

    def merge(self, j, r):
        self.jobs_done += 1
        self.job_names.append((j.build + ":" if j.build else "") + j.name)
        if os.environ.get("VP_TIMES"):
            print(f"  {r.wall:7.2f}s {j.build}:{j.name} {r.stats}", flush=True)
        for k, v in r.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        for s in r.samples:
            if len(self.samples) < 12:
                self.samples.append(f"{j.build}:{j.name}: {s}")
        self.capped += [x for c in r.capped for x in [c if "do not fit" in c else f"{j.name}: {c}"] if x not in self.capped]

    def violation(self, j, r, extra=None):
        msg = r.viol or r.crash
        self.report(f"{j.build}:{j.name}", msg, dict(build=j.build, job=j.name, output=r.out[-3000:]))

    def report(self, where, msg, data):
        known = known_findings()
        for k in known:
            if k["property"] == self.pid and k["match"] in f"{where} {msg}":
                print(f"KNOWN-FINDING: property={self.pid} {k['text']}")
                return
        rd = os.path.join(VERIF, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f"{self.pid}.json")
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, where=where, violation=msg, tier=TIER, how="python3 run.py --replay " + path, **data), f, indent=1)
        print(f"{self.pid}: {where}: {msg}")
        self.evidence(violations=1)
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)
        sys.stdout.flush()
        self.kill()
        shutil.rmtree(self.work.dir, ignore_errors=True)
        os._exit(1)

    def evidence(self, violations=0, level="model_checking", extra=None, assumptions=None):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        st = dict(self.stats)
        cov = dict(states=st.pop("states", 0), transitions=st.pop("transitions", 0),
                   traces_validated_against_impl=st.pop("execs", 0), samples=self.samples or ["(none: stopped at the violation)"],
                   jobs=self.jobs_done, capped=self.capped, notes=self.notes)
        cov.update(st)
        cov.update(extra or {})
        d = dict(property=self.pid, tier=TIER, seed=SEED, level=level, coverage=cov,
                 assumptions=assumptions or [], wall_s=round(time.time() - self.t0, 2), violations=violations)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(d, f, indent=1)

    def finish(self, **kw):
        self.evidence(**kw)
        print(f"{self.pid}: held on everything explored ({self.jobs_done} jobs, {json.dumps(self.stats)}, {time.time()-self.t0:.1f}s)")
        if self.capped:
            print("capped:", self.capped)


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=<<(.*?)>> (.*)", l.strip())
            if m:
                out.append(dict(property=m[1], match=m[2], text=m[3]))
    return out
