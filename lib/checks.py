"""One function per property: what is built, which jobs run."""
import core
from core import *

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


EXPL = ["explore.c"]


ALT = "-DTUNE_H_ -DTS_SUPPORT_L5=1 -DTS_SUPPORT_L3=1 -DTS_SUPPORT_SHAKE=1 -DTS_SUPPORT_SHA2=1 -DTS_SUPPORT_S=1 "
LIBS = {
    "all": dict(),                                                                       # every set, the Makefile's own flags
    "O0": dict(cflags="-O0 -w"),
    "O2": dict(cflags="-O2 -w"),
    "alt1": dict(dflags=ALT + "-DTS_SHA2_OPTIMIZATION=0 -DTS_SHAKE256_OPT=1"),
    "alt2": dict(dflags=ALT + "-DTS_SHA2_OPTIMIZATION=0 -DTS_SHAKE256_OPT=2"),
}


def simple(pid, src, extra=(), libs=("all",), alt=(), altre=r"toy|abs\d+_\d+_", timeout=None, defs="", **kw):
    """all jobs of the harness on each of libs; on the builds in alt only the jobs whose name matches altre"""
    def f(c):
        jobs = []
        for l in list(libs) + list(alt):
            c.work.lib(l, **LIBS[l])
            b = c.work.harness(l, src, extra_src=list(extra), defs=defs)
            jobs += [j for j in list_jobs(b, l) if l in libs or re.search(altre, j.name)]
        c.run(jobs, timeout=timeout)
        c.finish(**kw)
    CHECKS[pid] = f


simple("C01", "c01.c", alt=("alt1", "alt2"), altre="toy.*:0$|real.*128f|parts:...._128f")
simple("C02", "c02.c", alt=("alt1", "alt2"), altre="toy")
simple("C03", "c03.c", EXPL, alt=("alt1",), altre="toy")
simple("C04", "c04.c", EXPL, alt=("alt1",), altre="toy")
simple("C06", "c06.c", EXPL, alt=("alt1",), altre="toy.*:0$")
simple("C05", "c05.c", alt=("alt1",), altre="splice:toy|keymsg:toy")
simple("C07", "c07.c", alt=("alt1", "alt2", "O0"), altre="stack:toy|fill:toy")
simple("C08", "c08.c", EXPL, alt=("O0",), altre="zero|toy.*16")
simple("C11", "c11.c", alt=("alt1",), altre="toy|128f")
simple("C14", "c14.c", alt=("alt1",), altre="grid|128f")
simple("C19", "c19.c", alt=("alt1",), altre="toy|128f")

MEMFN = ["memcpy", "memmove", "memset", "memcmp"]
MON = dict(cflags="-O1 -w -fsanitize=thread -fno-builtin -fno-omit-frame-pointer", post=["objcopy"] + [x for f in MEMFN for x in ("--redefine-sym", f"{f}=vpmon_{f}")])
LIBS["mon"] = MON
LIBS["asan"] = dict(cflags="-O1 -w -g -fsanitize=address,bounds -fno-sanitize-recover=all -fno-omit-frame-pointer")


@check("C10")
def c10(c):
    jobs = []
    for l, al in (("mon", ""), ("mon1", "alt1"), ("mon2", "alt2"), ("asan", ""), ("asan1", "alt1"), ("asan2", "alt2")):
        base = LIBS[l.rstrip("12")]
        c.work.lib(l, **{**base, **(LIBS[al] if al else {})})
        mon = l.startswith("mon")
        b = c.work.harness(l, "c10.c", extra_src=["explore.c"] + (["tsanrt.c"] if mon else []), defs="-DMON" if mon else "", hflags="-O2" if mon else "-O1 -fsanitize=address", ldflags="" if mon else "-fsanitize=bounds -lubsan")
        jobs += [j for j in list_jobs(b, l) if not j.name.startswith("pre:") and (not al or re.search("lin:toy|msg:toy|gen:.*128f", j.name))]
    # every choice of what the build supports: array sizes and context layout differ
    for l, hflags, ldflags, extra, defs in (("mon", "-O2", "", ["explore.c", "tsanrt.c"], "-DMON"), ("asan", "-O1 -fsanitize=address", "-fsanitize=bounds -lubsan", ["explore.c"], "")):
        cache = ObjCache(c.work, "oc_" + l, LIBS[l]["cflags"], LIBS[l].get("post"))
        for name, dfl in supports(core.TIER == "thorough"):
            if not c.only or c.only[0] == f"{l}_{name}":
                cache.want(f"{l}_{name}", dfl)
        if not cache.cfg:
            continue
        bad = cache.build()
        if bad:
            raise BuildError(str(list(bad.items())[0])[:3000])
        bins = cache.link("c10.c", extra, hflags, defs, ldflags)
        if cache.linkbad:
            raise BuildError(str(list(cache.linkbad.items())[0])[:3000])
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for js in ex.map(lambda nb: list_jobs(nb[1], nb[0]), bins.items()):
                jobs += [j for j in js if re.search("^pre:|^lin:toy", j.name)]
    c.run(jobs)
    c.finish()


def supports(thorough):
    """every choice of hash families, security levels and small/fast sets (quick: with one setting of the options that
    do not change the layout)"""
    out = []
    for shake, sha2 in ((1, 1), (1, 0), (0, 1)):
        for l5, l3 in ((1, 1), (0, 1), (0, 0)):
            for s in (1, 0):
                for so in ((0, 1) if sha2 and thorough else (int(shake and l5 or not s),)):
                    v = dict(TS_SUPPORT_SHAKE=shake, TS_SUPPORT_SHA2=sha2, TS_SUPPORT_L5=l5, TS_SUPPORT_L3=l3, TS_SUPPORT_S=s, TS_SHA2_OPTIMIZATION=so, TS_SHAKE256_OPT=0)
                    out.append((f"b{shake}{sha2}{l5}{l3}{s}{so}", "-DTUNE_H_ " + " ".join(f"-D{a}={b}" for a, b in v.items())))
    return out


@check("C09")
def c09(c):
    c.work.lib("all")
    b = c.work.harness("all", "c09.c")
    jobs = list_jobs(b, "all")
    c.work.lib("mon", **LIBS["mon"])
    b = c.work.harness("mon", "c09.c", extra_src=["tsanrt.c"], defs="-DMON")
    jobs += list_jobs(b, "mon")
    for l, al in (("mon1", "alt1"), ("mon2", "alt2")):      # the hash code differs, the rest is the same
        c.work.lib(l, **{**LIBS[al], **LIBS["mon"]})
        b = c.work.harness(l, "c09.c", extra_src=["tsanrt.c"], defs="-DMON")
        jobs += [j for j in list_jobs(b, l) if TIER == "thorough" or re.search(r"^por:\d:\d:[07]", j.name)]
    c.run(jobs)
    c.finish()


@check("C21")
def c21(c):
    c.work.lib("all")
    jobs = list_jobs(c.work.harness("all", "c21.c", extra_src=EXPL), "all")
    for l, al in (("mon", "all"), ("mon1", "alt1"), ("mon2", "alt2")):
        c.work.lib(l, **{**LIBS[al], **LIBS["mon"]})
        jobs += list_jobs(c.work.harness(l, "c21.c", extra_src=EXPL + ["tsanrt.c"], defs="-DMON"), l)
    c.run(jobs)
    c.finish()


@check("C22")
def c22(c):
    jobs = []
    for l, al in (("ct", "all"), ("ct1", "alt1"), ("ct2", "alt2")):
        base = {**LIBS["mon"], "cflags": LIBS["mon"]["cflags"] + " -fsanitize-coverage=trace-pc"}
        c.work.lib(l, **{**LIBS[al], **base})
        js = list_jobs(c.work.harness(l, "c22.c", extra_src=["tsanrt.c"]), l)
        if l != "ct":      # the hash code differs, the rest is the same
            js = [j for j in js if re.search("^(gen:one|start:toy).*%s" % ("(shake|sha2)" if l == "ct1" else "shake"), j.name)]
            for j in js:
                j.env = {"VP_FEW": "1"}
        jobs += js
    c.run(jobs)
    c.finish()


@check("C23")
def c23(c):
    """the same explorations on the host (sanitizers for undefined behaviour and for uninitialised memory) and on
    interpreted 32-bit machines of either byte order that stop at misaligned accesses"""
    jobs, thorough = [], core.TIER == "thorough"
    for l, al in (("ub", "all"), ("ub1", "alt1"), ("ub2", "alt2"), ("ms", "all"), ("ms1", "alt1"), ("ms2", "alt2")):
        few = "" if l == "ub" or thorough else "(?!walk:.*s$)" if l == "ms" else "(full|gen|cut):toy_" if l[2] == "1" else "(full|gen|cut):toy_shake"
        if l.startswith("ub"):
            c.work.lib(l, **{**LIBS[al], "cflags": "-O1 -w -g -fsanitize=undefined -fno-sanitize=shift-base,nonnull-attribute -fno-sanitize-recover=all"})
            b = c.work.harness(l, "c23.c", extra_src=["native.c"], ldflags="-fsanitize=undefined")
        else:
            ms = "-fsanitize=memory -fno-omit-frame-pointer"
            c.work.lib(l, **{**LIBS[al], "cflags": "-O1 -w -g " + ms, "cc": "clang"})
            b = c.work.harness(l, "c23.c", extra_src=["native.c"], hflags="-O2 -w " + ms, defs="-DMSAN", cc="clang", refflags="-O2 -w " + ms)
        jobs += [j for j in list_jobs(b, l) if re.search("^" + few, j.name)]
    for l, target, opt, al, few in (("be", "mips", "-O2", "all", "^(?!full:shake_(192|256)f)"), ("le", "mipsel", "-O1 -funsigned-char", "alt1", "full:toy|gen:toy_.*_16|cut:toy_.*_16|full:.*_128f|walk:abs32_192s|full:sha2_256s"),
                                    ("be2", "mips", "-Os", "alt2", "full:toy_shake_16|gen:toy_shake_24|full:shake_128f")):
        elf, exe, why = guest(c.work, l, target, opt, {**dict(dflags=core.ALLSETS), **LIBS[al]}["dflags"])
        if not elf:
            c.capped.append(f"the tree cannot be compiled for the interpreted machine {l}: {why[:300]}")
            print(c.capped[-1])
            continue
        env = {"VP_GUEST": elf}
        jobs += [j for j in list_jobs(exe, l, env=env) if thorough or re.search(few, j.name)]
    c.run(jobs)
    c.finish()


simple("C16", "c16.c", alt=("alt1",), altre="toy.*:0$")
simple("C17", "c16.c", alt=("alt1",), altre="toy.*:1$", defs="-DC17")


def matrix():
    """(name, dflags, description) of every combination of the tuning settings"""
    out = [("cfg_tune_h", "", "tune.h as it is"), ("cfg_allsets", "-DTUNE_H_ -DTS_SUPPORT_L5=1 -DTS_SUPPORT_SHAKE=1 -DTS_SUPPORT_SHA2=1 -DTS_SUPPORT_S=1 -DTS_SHA2_OPTIMIZATION=1", "make ALL_PARM_SETS=1")]
    for shake, sha2 in ((1, 1), (1, 0), (0, 1)):
        for l5, l3 in ((1, 1), (1, 0), (0, 1), (0, 0)):
            for s in (1, 0):
                for so in (0, 1):
                    for ko in (0, 1, 2):
                        v = dict(TS_SUPPORT_SHAKE=shake, TS_SUPPORT_SHA2=sha2, TS_SUPPORT_L5=l5, TS_SUPPORT_L3=l3, TS_SUPPORT_S=s, TS_SHA2_OPTIMIZATION=so, TS_SHAKE256_OPT=ko)
                        out.append((f"cfg{shake}{sha2}{l5}{l3}{s}{so}{ko}", "-DTUNE_H_ " + " ".join(f"-D{a}={b}" for a, b in v.items()), " ".join(f"{a}={b}" for a, b in v.items())))
    return out


@check("C12")
def c12(c):
    exp = os.path.join(c.work.dir, "exp")
    os.mkdir(exp)
    os.environ["VP_EXP"] = exp
    c.work.lib("all", **LIBS["all"])
    b = c.work.harness("all", "c12.c")
    os.environ["VP_EXPECT"] = "1"
    ej = list_jobs(b, "all")
    del os.environ["VP_EXPECT"]
    only, c.only = c.only, None
    c.run(ej)
    c.only = only
    jobs, cfgs = [], matrix()
    cache = ObjCache(c.work)
    for name, dfl, desc in cfgs:
        if only and only[0] != name:
            continue
        cache.want(name, dfl)
    bad = cache.build()
    for name, err in sorted(bad.items()):
        desc = [x[2] for x in cfgs if x[0] == name][0]
        c.report(f"{name}:build", f"the package does not build with {desc}: {err[:600]}", dict(build=name, job="build"))
    bins = cache.link("c12.c")
    for name, err in sorted(cache.linkbad.items()):
        desc = [x[2] for x in cfgs if x[0] == name][0]
        c.report(f"{name}:build", f"the package does not link with {desc}: {err[-600:]}", dict(build=name, job="build"))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for js in ex.map(lambda nb: list_jobs(nb[1], nb[0]), bins.items()):
            jobs += js
    c.run(jobs)
    c.stats["configurations"] = len(bins)
    c.stats["distinct_objects_compiled"] = cache.compiled
    c.finish()


LIBS["alt1O2"] = dict(dflags=ALT + "-DTS_SHA2_OPTIMIZATION=0 -DTS_SHAKE256_OPT=1", cflags="-O2 -w")


@check("C13")
def c13(c):
    jobs = []
    for l, pat in (("all", r"."), ("alt1", r":2:(?!32|290[02])"), ("alt2", r":2:(?!32|290[02])"), ("O2", r"^(?!huge)")):
        c.work.lib(l, **LIBS[l])
        jobs += [j for j in list_jobs(c.work.harness(l, "c13.c"), l) if re.search(pat, j.name) or TIER == "thorough"]
    c.run(jobs)
    c.finish()


@check("C15")
def c15(c):
    jobs = []
    for l, pat in (("all", r"^(?!huge)"), ("O2", "huge"), ("alt1", "head:.*f:|toy:.*:0"), ("alt2", "head:.*128f:|toy:.*:1")):
        c.work.lib(l, **LIBS[l])
        jobs += [j for j in list_jobs(c.work.harness(l, "c15.c"), l) if re.search(pat, j.name)]
    c.run(jobs, timeout=400 if TIER == 'quick' else None)
    c.finish()


def minimal():
    """ramspace.py's configuration of each parameter set: (set, dflags)"""
    out = []
    for fam in ("sha2", "shake"):
        for size in (128, 192, 256):
            for sp in "fs":
                v = dict(TS_SHA2_OPTIMIZATION=0, TS_SHAKE256_OPT=2, TS_SUPPORT_L5=int(size == 256), TS_SUPPORT_L3=int(size > 128), TS_SUPPORT_SHA2=int(fam == "sha2"), TS_SUPPORT_SHAKE=int(fam == "shake"), TS_SUPPORT_S=int(sp == "s"))
                out.append((f"{fam}_{size}{sp}", "-DTUNE_H_ " + " ".join(f"-D{a}={b}" for a, b in v.items())))
    return out


WRAP = ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "aligned_alloc", "posix_memalign", "mmap", "sbrk", "strdup"))


@check("C18")
def c18(c):
    jobs = []
    for name, dfl in minimal():
        for l, d in ((name, ""), (name + "_mon", "-DMON")):
            if c.only and c.only[0] != l:
                continue
            mon = LIBS["mon"] if d else {}
            c.work.lib(l, **{**mon, "dflags": dfl})
            b = c.work.harness(l, "c18.c", extra_src=["tsanrt.c"] if d else [], defs=f'{d} -DVPSET="{name}"', ldflags=f"-Wl,{WRAP} -Wl,-z,now")
            jobs += list_jobs(b, l)
    c.run(jobs)
    c.finish()


FAKE_MAKE = """#!/usr/bin/env python3
# stands in for make while ramspace.py runs: records what it was asked for, appends the line the tool would
import json, sys, os
a = sys.argv[1:]
v = dict(x.split("=", 1) for x in a if "=" in x and not x.startswith("-"))
t = [x for x in a if "=" not in x and not x.startswith("-")]
with open(os.environ["VP_MAKELOG"], "a") as f:
    f.write(json.dumps(dict(targets=t, vars=v, args=a)) + "\\n")
if "ramspace" in t and "OUTPUT_FILE" in v:
    with open(v["OUTPUT_FILE"], "a") as f:
        f.write("LINE " + v.get("PARM_SET", "?") + "\\n")
"""


@check("C20")
def c20(c):
    figs, problems = {}, []
    LINE = re.compile(r"^(\S+)\s+(\d+)\s+(\d+)\s+(\d+)\s+(\d+)\s*$")

    def bad(where, msg):
        problems.append((where, msg))
        return False

    sets = [x for x in minimal() if not c.only or c.only[1] in ("ramspace:" + x[0], "ramspace.py")]
    if c.only and c.only[1] == "ramspace.py":
        sets = []
    for name, dfl in sets:
        c.work.lib(name, dflags=dfl)
        b = c.work.harness(name, "c18.c", defs=f'-DC20 -DVPSET="{name}"', ldflags=f"-Wl,{WRAP} -Wl,-z,now")
        j = list_jobs(b, name)[0]
        r = run_job(j, 100)
        if not r.samples:
            raise BuildError("no independent figures for " + name + ": " + r.out[-500:])
        figs[name] = [int(x) for x in r.samples[0].split()[1:]]

    def line_ok(where, name, l):
        m = LINE.match(l)
        if not m:
            return bad(where, f"the report line is '{l}'")
        if m[1] != f"ts_ps_{name}_simple":
            return bad(where, f"the report line names {m[1]}")
        got = [int(x) for x in m.groups()[1:]]
        if got[0] != figs[name][0]:
            return bad(where, f"the reported context size is {got[0]}, it is {figs[name][0]}")
        for what, g, w in zip(("key generation", "signing", "verification"), got[1:], figs[name][1:]):
            if abs(g - w) > 72:
                return bad(where, f"the reported RAM of {what} is {g} bytes, measured independently: {w}")
        c.samples.append(f"{where}: {l} (independent: {figs[name]})") if len(c.samples) < 12 else None
        return True

    def one(x):
        name, dfl = x
        where = "ramspace:" + name
        d = os.path.join(c.work.dir, "rs_" + name)
        shutil.copytree(c.work.src, d, symlinks=True)
        env = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "MFLAGS", "CFLAGS", "DFLAGS", "CC")}
        out = os.path.join(d, "report.txt")
        fast = name.endswith("f")
        n = 0
        # first run: no such file
        rc, txt = sh(["make", "ramspace", "DFLAGS=" + dfl, f"PARM_SET=ts_ps_{name}_simple", "OUTPUT_FILE=report.txt"], cwd=d, timeout=700, env=env)
        if rc or not os.path.exists(out):
            return bad(where, "the tool does not build or run: " + txt[-500:])
        body = open(out, errors="replace").read()
        if not body.endswith("\n") or body.count("\n") != 1:
            return bad(where, f"the first run left {body!r} in the report instead of one line")
        if not line_ok(where, name, body[:-1]):
            return False
        n += 1
        # histories of the report file: what it may contain before a run
        pre = ["", "This file lists\n\nParameter Set\n", "x" * 5000 + "\n"] + (["old line\n" * 300, "no newline at the end"] if TIER == "thorough" else [])
        if not fast:
            pre = [] if TIER == "quick" else pre[1:2]
        for i, p in enumerate(pre):
            f2 = os.path.join(d, f"r{i}.txt")
            with open(f2, "w") as f:
                f.write(p)
            want = p
            for run in range(3 if fast else 1):
                rc, txt = sh([os.path.join(d, "ramspace"), f2], cwd=d, timeout=300)
                if rc:
                    return bad(where, f"run {run + 1} on a file with {len(p)} bytes fails with status {rc}")
                got = open(f2, errors="replace").read()
                if not got.startswith(want):
                    return bad(where, f"run {run + 1} did not keep the {len(want)} bytes the report already contained")
                l = got[len(want):]
                if not l.endswith("\n") or l.count("\n") != 1:
                    return bad(where, f"run {run + 1} appended {l!r} instead of one line")
                if not line_ok(where, name, l[:-1]):
                    return False
                want = got
                n += 1
        c.stats["states"] = c.stats.get("states", 0) + 1 + len(pre)
        c.stats["transitions"] = c.stats.get("transitions", 0) + n
        c.stats["execs"] = c.stats.get("execs", 0) + n * 4
        shutil.rmtree(d, ignore_errors=True)
        return True

    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(one, sorted(sets, key=lambda x: (not x[0].endswith("s"), "shake" not in x[0]))))
    if not problems and (not c.only or c.only[1] == "ramspace.py"):
        # the script: which configuration it builds for which set, with make replaced by a recorder
        d = os.path.join(c.work.dir, "rs_py")
        shutil.copytree(c.work.src, d, symlinks=True)
        fb = os.path.join(c.work.dir, "fakebin")
        os.mkdir(fb)
        for f in ("make", "gmake"):
            with open(os.path.join(fb, f), "w") as h:
                h.write(FAKE_MAKE)
            os.chmod(os.path.join(fb, f), 0o755)
        log = os.path.join(c.work.dir, "make.log")
        rc, txt = sh(["python3", "ramspace.py"], cwd=d, timeout=120, env={**os.environ, "PATH": fb + ":" + os.environ["PATH"], "VP_MAKELOG": log})
        calls = [json.loads(l) for l in open(log)] if os.path.exists(log) else []
        rs = [x for x in calls if "ramspace" in x["targets"]]
        want = {f"ts_ps_{n}_simple": dict(re.findall(r"-D(\w+)=(\d+)", dl)) for n, dl in minimal()}
        seen = [x["vars"].get("PARM_SET") for x in rs]
        if rc:
            bad("ramspace.py", "the script fails: " + txt[-400:])
        elif rs:
            if sorted(seen) != sorted(want):
                bad("ramspace.py", f"the script reports {sorted(seen)} instead of the 12 parameter sets")
            for x in rs:
                ps, df = x["vars"].get("PARM_SET"), x["vars"].get("DFLAGS", "")
                got = dict(re.findall(r"-D\s*(\w+)=(\d+)", df))
                if problems:
                    break
                if {k: got.get(k) for k in want[ps]} != want[ps] or "TUNE_H_" not in df:
                    bad("ramspace.py", f"{ps} is not built in its minimal configuration but with {df}")
            rep = os.path.join(d, "ramspace.out")
            lines = open(rep).read().splitlines() if os.path.exists(rep) else []
            if not problems and [l[5:] for l in lines if l.startswith("LINE ")] != seen:
                bad("ramspace.py", "the report file does not keep the lines of all runs")
            # every make ramspace has to start from a clean slate: objects of another configuration must not survive
            clean = False
            for x in calls:
                if "clean" in x["targets"]:
                    clean = True
                if "ramspace" in x["targets"]:
                    if not clean and not {"-B", "--always-make"} & set(x["args"]):
                        bad("ramspace.py", f"{x['vars'].get('PARM_SET')} is measured without cleaning first")
                        break
                    clean = False
            c.stats["transitions"] = c.stats.get("transitions", 0) + len(calls)
            c.stats["states"] = c.stats.get("states", 0) + len(rs)
    for where, msg in problems:
        c.report(where, msg, dict(build="ramspace", job=where))
    c.jobs_done += len(sets) + 1
    c.finish()
