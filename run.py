#!/usr/bin/env python3
"""Builds the monitors of one property against /repo's working tree, runs them, judges the records.

usage: run.py PROP [--tier quick|thorough] [--unit NAME] [--cases A:B] [--keep]
       run.py --replay FILE
exit 0: held on everything explored (known findings are printed), 1: violation, 2/3: machinery failure
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, mmap, os, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
BUILD = os.environ.get("VH_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # property -> configuration

BASE = ("-fno-rtti -std=gnu++14 -fno-exceptions -DNO_SAFE_CAST -DUSING_SFW -DDEBUG_ENABLED -DNDEBUG "
        "-DMLPP_VP_HOOKS -DX11_ENABLED -DUNIX_ENABLED -D_FILE_OFFSET_BITS=64 -w").split()
INC = ["-I", REPO + "/platform/x11", "-I", REPO + "/platform", "-I", REPO]
FLAV = {
    "asan": "-O1 -g1 -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all -fno-omit-frame-pointer".split(),
    "tsan": "-O1 -g1 -fsanitize=thread -fno-omit-frame-pointer".split(),
    "plain": "-O1 -g1".split(),
}
WRAPS = ["_ZN7RLogger9log_errorEPKcS1_iS1_", "_ZN7RLogger9log_errorEPKcS1_iRK6String",
         "_ZN7RLogger13log_msg_errorEPKcS1_iS1_S1_", "_ZN7RLogger15log_index_errorEPKcS1_iiiS1_",
         "_ZN7RLogger15log_index_errorEPKcS1_iiiRK6String", "_ZN7RLogger11log_messageEPKcS1_iS1_",
         "_ZN7RLogger11log_messageEPKcS1_iRK6String", "_ZN7RLogger11log_messageEPKc",
         "_ZN7RLogger11log_messageERK6String", "_ZN7RLogger11log_ret_ptrEP6String"]
NPROC = max(2, min(8, os.cpu_count() or 2))
CXX = "g++"


def tree_hash():
    h = hashlib.sha256()
    for top in ("core", "modules", "platform"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".inl", ".hpp")):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


HEADERS = None


def obj_for(src, flags):
    global HEADERS
    if HEADERS is None:
        HEADERS = tree_hash()
    h = hashlib.sha256()
    h.update(HEADERS.encode()); h.update(open(src, "rb").read()); h.update(" ".join(flags).encode())
    h.update(CXX.encode())
    if src.startswith(VERIF):
        for f in sorted(glob.glob(VERIF + "/harness/*.h")):
            h.update(open(f, "rb").read())
    return os.path.join(BUILD, "obj", os.path.basename(src)[:-4] + "-" + h.hexdigest()[:20] + ".o")


def compile_one(job):
    src, flags, out = job
    if os.path.exists(out):
        return None
    tmp = out + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX, "-c", src, "-o", tmp] + flags, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return "compile failed: %s\n%s" % (src, r.stdout[-4000:])
    os.rename(tmp, out)
    return None


def build(prop):
    cfg = CHECKS[prop]
    fl = cfg.get("flavour", "asan")
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    san = FLAV[fl]
    sfwfl = BASE + (FLAV[cfg.get("sfw", "plain")]) + INC
    sfw = [(REPO + "/platform/sfw.cpp", sfwfl)]
    if os.path.exists(REPO + "/platform/image.cpp"):
        sfw.append((REPO + "/platform/image.cpp", sfwfl))
    hfl = BASE + san + INC + ["-I", VERIF + "/harness"]
    srcs = [(VERIF + "/harness/" + s, hfl) for s in cfg["src"]] + [(VERIF + "/harness/vh.cpp", hfl)]
    lib = BASE + san + INC
    allcore = sorted(glob.glob(REPO + "/core/*.cpp"))
    allmods = [s for s in sorted(glob.glob(REPO + "/modules/*/*.cpp")) if "register_types" not in s]
    want = ["mlpp_vector", "mlpp_matrix", "mlpp_tensor3"] + cfg.get("lib", [])
    chosen = [s for s in allcore + allmods if os.path.basename(s)[:-4] in want]
    link_err = ""
    for attempt, libs in ((0, chosen), (1, allcore + allmods)):
        parts = [[(s, f, obj_for(s, f)) for s, f in g] for g in (srcs, [(s, lib) for s in libs], sfw)]
        jobs = sorted(sum(parts, []), key=lambda j: (0 if "sfw.cpp" in j[0] else 1, -os.path.getsize(j[0])))
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for err in ex.map(compile_one, jobs):
                if err:
                    print(err); sys.exit(3)
        h = hashlib.sha256("".join(j[2] for j in jobs).encode()).hexdigest()[:16]
        exe = os.path.join(BUILD, "bin", "%s-%s" % (prop, h))
        if os.path.exists(exe):
            break
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        ar = exe + ".a"
        if os.path.exists(ar): os.unlink(ar)
        subprocess.run(["ar", "rcsT", ar] + [j[2] for j in parts[1]], check=True)
        cmd = [CXX, "-o", tmp] + [j[2] for j in parts[0]] + ["-Wl,--start-group", ar, "-Wl,--end-group"] + [j[2] for j in parts[2]]
        cmd += [f for f in san if f.startswith("-f")] + ["-Wl,--wrap=" + w for w in cfg.get("wraps", WRAPS)] + ["-lpthread", "-ldl"]
        cmd += cfg.get("ldflags", [])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        os.unlink(ar)
        if r.returncode == 0:
            os.rename(tmp, exe)
            break
        link_err = r.stdout
    else:
        print("link failed\n" + link_err[-4000:]); sys.exit(3)
    for f in os.listdir(os.path.dirname(exe)):
        if f.startswith(prop + "-") and f != os.path.basename(exe):
            try: os.unlink(os.path.join(os.path.dirname(exe), f))
            except OSError: pass
    return exe


ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("detect_leaks=0:handle_sigill=1:handle_abort=1:handle_segv=1:allocator_may_return_null=1:"
                       "max_malloc_fill_size=1000000000:malloc_fill_byte=255:detect_stack_use_after_return=0:"
                       "max_allocation_size_mb=3000:symbolize=1:abort_on_error=0:exitcode=99:alloc_dealloc_mismatch=0")
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:second_deadlock_stack=1:history_size=5"
ENV["LC_ALL"] = "C"


STOPPED = 1 << 20


class Runner:
    def __init__(self, prop, exe, seed, tier, work):
        self.prop, self.exe, self.seed, self.tier, self.work = prop, exe, seed, tier, work
        self.n, self.t0, self.hangs, self.bad, self.known = 0, time.time(), 0, 0, known_findings()

    def over(self):
        """No further exploration is worth its time: a violation is certain already, or the time is used up."""
        t = time.time() - self.t0
        if self.tier == "quick": return t > 660 or (self.bad and (self.hangs >= 3 or t > 150))
        return self.bad and (self.hangs >= 12 or t > 1200)

    def note(self, fails):
        if any((self.prop, k) not in self.known for k in fails): self.bad += 1

    def proc(self, unit, a, b, idle):
        self.n += 1
        base = os.path.join(self.work, "%s.%d.%d.%d" % (re.sub(r"[^A-Za-z0-9_.]", "_", unit), a, b, self.n))
        out, prog, err = base + ".out", base + ".prog", base + ".err"
        scratch = base + ".d"
        os.makedirs(scratch)
        with open(err, "wb") as ef:
            p = subprocess.Popen([self.exe, "run", unit, str(a), str(b), str(self.seed), self.tier, out, prog],
                                 stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef, env=ENV, cwd=scratch)
            last, tlast, hang, stopped = None, time.time(), False, False
            while True:
                try:
                    p.wait(0.25); break
                except subprocess.TimeoutExpired:
                    pass
                cur = self.progress(prog)
                if cur != last:
                    last, tlast = cur, time.time()
                if self.over():
                    p.kill(); p.wait(); stopped = True; break
                if cur == last and time.time() - tlast > idle or os.path.getsize(err) > 200 << 20:
                    hang = True
                    p.kill(); p.wait(); break
        case, label = self.progress(prog) or (a, "")
        recs = []
        if os.path.exists(out):
            for line in open(out, errors="replace"):
                try: recs.append(json.loads(line))
                except ValueError: pass
        sig = set()
        if os.path.exists(out + ".sig"):
            d = open(out + ".sig", "rb").read()
            sig = set(struct.unpack("<%dQ" % (len(d) // 8), d[:len(d) // 8 * 8]))
        tail = ""
        if p.returncode or hang:
            txt = open(err, errors="replace").read()
            m = re.search(r"(runtime error:.*|ERROR: AddressSanitizer.*|WARNING: ThreadSanitizer.*)", txt)
            i = m.start() if m else 0
            i = txt.rfind("\n", 0, i) + 1
            tail = txt[i:i + 3500]
        shutil.rmtree(scratch, ignore_errors=True)
        if stopped: return STOPPED, False, case, label, recs, sig, ""
        return p.returncode, hang, case, label, recs, sig, tail

    @staticmethod
    def progress(prog):
        try:
            d = open(prog, "rb").read()
            if len(d) < 168: return None
            return struct.unpack("<q", d[:8])[0], d[8:168].split(b"\0")[0].decode("latin1")
        except OSError:
            return None

    def chunk(self, job):
        unit, a, b = job
        idle = 40 if self.tier == "quick" else 120
        res = {"unit": unit, "fails": {}, "cases": 0, "obs": 0, "counts": {}, "samples": [], "sig": set(), "aborted": 0}
        crashes = 0
        while a < b:
            if self.over():
                res["aborted"] += b - a
                break
            rc, hang, case, label, recs, sig, tail = self.proc(unit, a, b, idle)
            self.absorb(res, recs, sig)
            self.note(res["fails"])
            if rc == STOPPED:
                res["aborted"] += b - case
                break
            if rc == 0 and not hang:
                break
            if rc in (64, 65, 66):
                raise RuntimeError("harness failure rc=%d unit=%s" % (rc, unit))
            kind = "crash"
            if hang:
                rc2, hang2, case2, label2, recs2, sig2, tail2 = self.proc(unit, case, case + 1, idle)
                self.absorb(res, recs2, sig2)
                if rc2 == STOPPED: break
                if rc2 == 0 and not hang2:
                    a = case + 1
                    continue
                kind = "hang" if hang2 else "crash"
                label, tail = label2, tail2
            key = "%s|%s|%s" % (unit, label, kind)
            f = res["fails"].setdefault(key, {"n": 0, "case": case, "msg": "exit %s: %s" % (rc, tail[:3000])})
            f["n"] += 1
            self.note(res["fails"])
            self.hangs += kind == "hang"
            crashes += 1
            a = case + 1
            if crashes >= (int(os.environ.get("VH_CRASHES", "12")) if kind == "crash" else 2):
                res["aborted"] += b - a
                break
        return res

    @staticmethod
    def absorb(res, recs, sig):
        for r in recs:
            if r["t"] == "fail":
                f = res["fails"].setdefault(r["key"], {"n": 0, "case": r["case"], "msg": r["msg"]})
                f["n"] += 1
            elif r["t"] == "end":
                res["cases"] += r["cases"]; res["obs"] += r["obs"]
                for k, v in r["counts"].items(): res["counts"][k] = res["counts"].get(k, 0) + v
                res["samples"] += r["samples"]
        res["sig"] |= sig


def known_findings():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+)\s*(.*)", line)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--unit")
    ap.add_argument("--cases")
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        # a check builds what it needs itself, so a failure here must not hide which one is affected
        for p in CHECKS:
            r = subprocess.run([sys.executable, os.path.abspath(__file__), p, "--build-only"], stdout=subprocess.PIPE, text=True)
            print(p, "built" if r.returncode == 0 else "build failed")
        return 0
    seed = os.environ.get("VERIF_SEED", "1")
    try: seed = int(seed)
    except ValueError: seed = int(hashlib.sha256(seed.encode()).hexdigest()[:8], 16)
    seed &= (1 << 62) - 1
    if a.replay:
        r = json.load(open(a.replay))
        a.prop, a.unit, a.cases, seed, a.tier = r["property"], r["unit"], "%d:%d" % (r["case"], r["case"] + 1), r["seed"], r["tier"]
    prop = a.prop
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time()
    exe = build(prop)
    tb = time.time() - t0
    if a.build_only:
        print("built", exe); return 0
    units = []
    for line in subprocess.run([exe, "list", prop], stdout=subprocess.PIPE, text=True, env=ENV).stdout.splitlines():
        n, q, t = line.split()
        units.append((n, int(q) if tier == "quick" else int(t)))
    if not units:
        print("no units for", prop); return 3
    if a.unit: units = [u for u in units if u[0] == a.unit]
    jobs = []
    par = CHECKS[prop].get("parallel", NPROC)
    for n, cases in units:
        lo, hi = 0, cases
        if a.cases: lo, hi = map(int, a.cases.split(":"))
        k = max(1, min(NPROC if tier == "quick" else NPROC * 4, (hi - lo) // 4 or 1))
        cuts = [lo + (hi - lo) * i // k for i in range(k + 1)]
        jobs += [(n, cuts[i], cuts[i + 1]) for i in range(k) if cuts[i] < cuts[i + 1]]
    work = tempfile.mkdtemp(prefix="vh-%s-" % prop)
    try:
        R = Runner(prop, exe, seed, tier, work)
        with cf.ThreadPoolExecutor(par) as ex:
            results = list(ex.map(R.chunk, jobs))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    known = known_findings()
    fails, per_unit, counts, samples, sig = {}, {}, {}, [], set()
    obs = cases = aborted = 0
    for r in results:
        for k, f in r["fails"].items():
            g = fails.setdefault(k, {"n": 0, "case": f["case"], "msg": f["msg"], "unit": r["unit"]})
            g["n"] += f["n"]
            if f["case"] < g["case"]: g["case"], g["msg"] = f["case"], f["msg"]
        pu = per_unit.setdefault(r["unit"], {"cases": 0, "observations": 0})
        pu["cases"] += r["cases"]; pu["observations"] += r["obs"]
        obs += r["obs"]; cases += r["cases"]; aborted += r["aborted"]
        for k, v in r["counts"].items(): counts[k] = counts.get(k, 0) + v
        sig |= r["sig"]
        if len([s for s in samples if s.startswith(r["unit"] + "#")]) < 1: samples += r["samples"][:1]
    vio = sorted(k for k in fails if (prop, k) not in known)
    kf = sorted(k for k in fails if (prop, k) in known)
    silent = [u for u, v in per_unit.items() if v["observations"] == 0 and not any(f["unit"] == u for f in fails.values())]
    if not (a.unit or a.cases):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        cov = {"evaluations": obs, "distinct_nontrivial": len(sig),
               "rule": "one evaluation = one judged observation of the running library (operation result or state compared against the independent oracle); distinct = different hash of (unit, shapes/inputs/operation), trivial (empty or all-zero) inputs not counted",
               "samples": samples[:12] or ["none"], "cases": cases, "cases_skipped_after_crashes": aborted,
               "monitor_counts": counts, "units": per_unit, "sanitizers": CHECKS[prop].get("flavour", "asan"),
               "build_s": round(tb, 1)}
        e = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - t0, 2),
             "assumptions": CHECKS[prop].get("assumptions", []) + ["real_t is float (the default build); tolerances follow float accuracy"],
             "violations": [{"key": k, "count": fails[k]["n"], "message": fails[k]["msg"][:400]} for k in vio[:50]]}
        e["coverage"]["known_findings_seen"] = kf
        json.dump(e, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s -- %s" % (prop, k, known[(prop, k)]))
    if vio:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for k in vio[:25]:
            f = fails[k]
            p = os.path.join(rd, "%s-%s.json" % (prop, hashlib.sha256(k.encode()).hexdigest()[:10]))
            json.dump({"property": prop, "key": k, "unit": f["unit"], "case": f["case"], "seed": seed, "tier": tier, "msg": f["msg"],
                       "how": "python3 /verif/run.py --replay " + p}, open(p, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("   %s (x%d, case %d): %s" % (k, f["n"], f["case"], f["msg"][:700 if len(vio) < 30 else 200]))
    print("%s %s: %d cases, %d observations, %d distinct, %d unlisted violations, %d known, build %.0fs total %.0fs" %
          (prop, tier, cases, obs, len(sig), len(vio), len(kf), tb, time.time() - t0))
    if vio: return 1
    if silent or obs == 0:
        print("machinery failure: no observation in", silent); return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
