"""setup: builds the reference model and validates it: the 12 published known-answer signatures and the
plain hashes against Python's hashlib (an independent implementation)"""
import hashlib, os, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with tempfile.TemporaryDirectory(prefix="vpmc_", dir="/tmp") as d:
    b = os.path.join(d, "selftest")
    subprocess.check_call(["gcc", "-O2", "-w", "-I" + V + "/ref", V + "/ref/selftest.c", V + "/ref/ref.c", "-o", b])
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda i: subprocess.run([b, str(i)], capture_output=True, text=True), range(12)))
    bad = [i for i, r in enumerate(rs) if r.returncode]
    print("".join(r.stdout for r in rs), end="")
    nh = nbad = 0
    for l in subprocess.run([b, "hashes"], capture_output=True, text=True).stdout.splitlines():
        n, a, c, s = l.split()
        n = int(n)
        m = bytes((i * 7 + 3) & 255 for i in range(n))
        nh += 1
        if (a, c, s) != (hashlib.sha256(m).hexdigest(), hashlib.sha512(m).hexdigest(), hashlib.shake_256(m).hexdigest(len(s) // 2)):
            nbad += 1
    print(f"known answers failing: {bad}; hash lengths compared with hashlib: {nh}, wrong: {nbad}")
    sys.exit(1 if bad or nbad or nh != 700 else 0)
