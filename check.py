#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--only HARNESS] [--dev]
Decides one property: compiles the functions it depends on from /repo's current source to LLVM IR, generates the
proof obligations of every contract in props/ID*.cc with engine/vcx, and discharges them with the SMT portfolio."""
import threading, sys, os, re, json, subprocess, hashlib, time, glob, shutil, signal
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = V + "/build"
VCX = B + "/vcx"
CLANG = "clang++-18"
INC = ["-I" + REPO + "/src", "-I" + REPO + "/_build/src", "-I" + V + "/lib"]
SAN = "signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return,float-cast-overflow"
IRFLAGS = ["-std=gnu++17", "-S", "-emit-llvm", "-O1", "-g", "-Xclang", "-disable-llvm-passes", "-fno-vectorize",
           "-fno-slp-vectorize", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-w", "-fsanitize=" + SAN, "-fsanitize-trap=all"] + INC
NATFLAGS = ["-std=gnu++17", "-c", "-O1", "-g", "-w", "-fPIC", "-DVC_NATIVE", "-fsanitize=address," + SAN,
            "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"] + INC
JOBS = os.cpu_count() or 8


def sh(cmd, timeout=None, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return -9, o.decode(errors="replace"), e.decode(errors="replace")
    return p.returncode, o.decode(errors="replace"), e.decode(errors="replace")


def compile_cached(src, flags, suffix):
    """content-addressed: keyed by the preprocessed text and the flags"""
    pf = [f for f in flags if f not in ("-S", "-emit-llvm", "-c")]
    rc, o, e = sh([CLANG] + pf + ["-E", src])
    if rc:
        return None, e
    h = hashlib.sha256((" ".join(flags) + "\0" + o).encode()).hexdigest()
    os.makedirs(B + "/cache", exist_ok=True)
    out = f"{B}/cache/{h}{suffix}"
    if not os.path.exists(out):
        tmp = f"{out}.{os.getpid()}.{time.monotonic_ns()}"
        rc, o, e = sh([CLANG] + flags + ["-o", tmp, src])
        if rc:
            return None, e
        os.replace(tmp, out)
    else:
        os.utime(out)
    return out, ""


def trim_cache(limit=3 << 30):
    fs = [(os.stat(f).st_mtime, os.stat(f).st_size, f) for f in glob.glob(B + "/cache/*")]
    tot = sum(x[1] for x in fs)
    for m, s, f in sorted(fs):
        if tot < limit:
            break
        try:
            os.unlink(f)
            tot -= s
        except OSError:
            pass


class Harness:
    def __init__(self, name, file):
        self.name, self.file = name, file
        self.time, self.ext, self.paths, self.unroll = 240, 60, 200000, 0
        self.btime, self.bunroll = 60, 6
        self.bounded = False
        self.tier = "quick"
        self.native_only = False
        self.search = 25
        self.note = ""


class PropFile:
    def __init__(self, path):
        self.path = path
        t = open(path).read()
        self.text = t
        self.tus = [x for m in re.findall(r"^//@ tus:(.*)$", t, re.M) for x in m.split()]
        self.nattus = [x for m in re.findall(r"^//@ native-tus:(.*)$", t, re.M) for x in m.split()]
        self.libs = [x for m in re.findall(r"^//@ libs:(.*)$", t, re.M) for x in m.split()] or ["eckit"]
        self.flags = [x for m in re.findall(r"^//@ flags:(.*)$", t, re.M) for x in m.split()]
        self.assume = [m.strip() for m in re.findall(r"^//@ assume:(.*)$", t, re.M)]
        self.harnesses = [Harness(n, self) for n in re.findall(r"^VC_HARNESS\((\w+)\)", t, re.M)]
        hs = {h.name: h for h in self.harnesses}
        for n, opts in re.findall(r"^//@ harness (\w+):(.*)$", t, re.M):
            if n not in hs:
                raise SystemExit(f"{path}: directive for unknown harness {n}")
            for o in opts.split():
                k, _, v = o.partition("=")
                if k in ("time", "ext", "paths", "unroll", "btime", "bunroll", "search"):
                    setattr(hs[n], k, int(v))
                elif k == "bounded":
                    hs[n].bounded = True
                elif k == "native":
                    hs[n].native_only = True
                elif k == "tier":
                    hs[n].tier = v
                else:
                    raise SystemExit(f"{path}: bad option {o}")


class Check:
    def __init__(self, pid, tier, only, dev, seed):
        self.pid, self.tier, self.only, self.dev, self.seed = pid, tier, only, dev, seed
        self.files = [PropFile(f) for f in sorted(glob.glob(f"{V}/props/{pid}*.cc"))]
        if not self.files:
            raise SystemExit("no property " + pid)
        self.work = f"{B}/work/{pid}-{os.getpid()}"
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = f"{B}/replay/{pid}"
        shutil.rmtree(self.replays, ignore_errors=True)
        os.makedirs(self.replays)
        self.results = {}
        self.hlock, self.hdone = threading.Lock(), {}
        self.extract = []

    # ---- extraction: real source -> IR
    def build_ir(self):
        jobs = []
        with ThreadPoolExecutor(JOBS) as ex:
            for pf in self.files:
                js = [("H", pf.path, ex.submit(compile_cached, pf.path, IRFLAGS + pf.flags + ["-fno-access-control"], ".ll"))]
                js.append(("M", V + "/lib/libmodel.cc", ex.submit(compile_cached, V + "/lib/libmodel.cc", IRFLAGS, ".ll")))
                js.append(("M", V + "/lib/eckitmodel.cc", ex.submit(compile_cached, V + "/lib/eckitmodel.cc", IRFLAGS, ".ll")))
                for t in pf.tus:
                    s = t if t.startswith("/") else f"{REPO}/src/eckit/{t}"
                    js.append(("T", s, ex.submit(compile_cached, s, IRFLAGS + pf.flags, ".ll")))
                jobs.append((pf, js))
            errs = []
            for pf, js in jobs:
                outs = []
                bad = False
                for kind, s, f in js:
                    o, e = f.result()
                    if o is None:
                        bad = True
                        errs.append((kind, s, e))
                    else:
                        outs.append(o)
                        if kind == "T":
                            self.extract.append(os.path.relpath(s, REPO))
                pf.bc = None
                if bad:
                    continue
                pf.bc = f"{self.work}/{os.path.basename(pf.path)}.bc"
                rc, o, e = sh(["/usr/lib/llvm-18/bin/llvm-link", "-o", pf.bc] + outs)
                if rc:
                    errs.append(("L", pf.path, e))
                    pf.bc = None
        return errs

    def build_native(self, pf):
        if getattr(pf, "nat", None) or getattr(pf, "nat_err", None):
            return pf.nat if getattr(pf, "nat", None) else None
        with ThreadPoolExecutor(JOBS) as ex:
            fs = [ex.submit(compile_cached, pf.path, NATFLAGS + pf.flags + ["-fno-access-control"], ".o"),
                  ex.submit(compile_cached, V + "/lib/vc_native.cc", NATFLAGS, ".o")]
            for t in pf.tus + pf.nattus:
                s = t if t.startswith("/") else f"{REPO}/src/eckit/{t}"
                fs.append(ex.submit(compile_cached, s, NATFLAGS + pf.flags, ".o"))
            outs = []
            for f in fs:
                o, e = f.result()
                if o is None:
                    pf.nat_err = e
                    return None
                outs.append(o)
        # the sources under proof are in the executable and in the library: first let the executable's copies serve
        # both; where the library's start-up then trips over objects not yet constructed, keep the two apart
        exe = f"{self.work}/{os.path.basename(pf.path)}.nat"
        L = REPO + "/_build/lib"
        vs = self.work + "/local.map"
        open(vs, "w").write("{ local: _Z*5eckit*; };\n")
        for apart in ([], ["-Wl,--version-script=" + vs]):
            rc, o, e = sh([CLANG, "-fsanitize=address,undefined", "-o", exe] + outs + ["-L" + L, "-Wl,-rpath," + L, "-Wl,--unresolved-symbols=ignore-in-shared-libs"]
                          + apart + ["-l" + x for x in pf.libs] + ["-lpthread", "-ldl"])
            if rc:
                pf.nat_err = e
                return None
            rc, o, e = sh([exe, "list"], timeout=60, env=self.nat_env())
            if rc == 0:
                break
        if rc:
            pf.nat_err = "the native program does not start: " + o + e
            return None
        pf.nat = exe
        return exe

    def nat_env(self):
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0:handle_abort=1"
        env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:print_stacktrace=1"
        return env

    def run_vcx(self, h, bounded=False, extra=None):
        out = f"{self.work}/{h.name}{'.b' if bounded else ''}.json"
        t = h.btime if bounded else h.time
        if h.bounded:
            t = h.time
        if self.tier == "thorough":
            t *= 3
        cmd = [VCX, "--bc", h.file.bc, "--harness", h.name, "--time", str(t), "--ext", str(h.ext), "--paths", str(h.paths),
               "--tmp", self.work, "--out", out]
        if h.unroll or bounded:
            cmd += ["--unroll", str(h.unroll if (h.unroll and not bounded) else h.bunroll)]
        if bounded or h.bounded:
            cmd += ["--bounded"]
        t0 = time.time()
        rc, o, e = sh(cmd, timeout=t + h.ext + 60)
        try:
            r = json.load(open(out))
        except Exception:
            r = {"error": f"vcx exit {rc}: {e[-1500:]}", "obligations": [], "paths_done": 0, "timed_out": rc == -9, "unsupported": {"verifier did not finish: " + e[-300:]: 1}}
        r["rc"] = rc
        r["elapsed"] = time.time() - t0
        return r

    @staticmethod
    def verdict(r):
        """ok | refuted | open"""
        obs = r["obligations"]
        if any(o["failed"] for o in obs):
            return "refuted"
        if r.get("error") or r["timed_out"] or r["unsupported"] or any(o["unknown"] for o in obs):
            return "open"
        if r["paths_done"] < 1 or not any(o["instances"] for o in obs if o["kind"] == "spec"):
            return "open"
        return "ok"

    def replay(self, pf, h, text, tag):
        exe = self.build_native(pf)
        f = f"{self.replays}/{h.name}-{tag}.replay"
        open(f, "w").write(text)
        if not exe:
            return None, f, "native build failed: " + getattr(pf, "nat_err", "")[-1500:]
        rc, o, e = sh([exe, "replay", h.name, f], timeout=120, env=self.nat_env())
        confirmed = rc not in (0, 3, 4, 5)
        return confirmed, f, (o + e)[-3000:]

    def search(self, pf, h, secs):
        exe = self.build_native(pf)
        f = f"{self.replays}/{h.name}-search.replay"
        if not exe:
            return False, f, "native build failed: " + getattr(pf, "nat_err", "")[-1500:]
        rc, o, e = sh([exe, "search", h.name, str(self.seed), "100000000", str(secs), f], timeout=secs + 60, env=self.nat_env())
        return "FOUND" in o, f, (o + e)[-3000:]

    def run(self):
        t0 = time.time()
        errs = self.build_ir()
        self.t_extract = time.time() - t0
        hs = [h for pf in self.files for h in pf.harnesses
              if not h.native_only and (h.tier == "quick" or self.tier == "thorough") and (not self.only or h.name in self.only)]
        self.violations, self.notes, self.boundedruns = [], [], []
        for k, s, e in errs:
            f = f"{self.replays}/extract-{os.path.basename(s)}.txt"
            open(f, "w").write(f"the contract file or a source file no longer compiles together: {s}\n{e}")
            self.notes.append(f"extraction failed for {s}: {e[:400]}")
            if self.dev:
                print(e[:3000])
        runnable = [h for h in hs if h.file.bc]
        with ThreadPoolExecutor(max(1, JOBS - 2)) as ex:
            order = sorted(runnable, key=lambda h: -h.time)
            for h, r in zip(order, ex.map(lambda h: self.run_vcx(h), order)):
                self.results[h.name] = (h, r)
        bad = []
        for h in runnable:
            v = self.verdict(self.results[h.name][1])
            if self.dev:
                self.report(h, v)
            if v != "ok":
                bad.append((h, v))
        for h in hs:
            if not h.file.bc:
                bad.append((h, "extract"))
        if bad and not self.dev:
            self.triage(bad)
        elif bad and self.dev and "--triage" in sys.argv:
            self.triage(bad)
        # vacuity
        for h in runnable:
            r = self.results[h.name][1]
            want = set(re.findall(r'vc_cover\("([^"]+)"\)', self.body(h)))
            miss = want - set(r.get("covers", {}))
            if miss:
                self.notes.append(f"{h.name}: not reached: {sorted(miss)}")
                if self.dev:
                    print("NOT COVERED", h.name, miss)
        self.wall = time.time() - t0

    @staticmethod
    def body(h):
        t = h.file.text
        i = t.index(f"VC_HARNESS({h.name})")
        j = t.find("\nVC_HARNESS(", i + 5)
        return t[i:j if j > 0 else len(t)]

    def triage(self, bad):
        budget = time.time() + 420
        def one(hv):
            h, v = hv
            desc, ob = "", None
            if v != "extract":
                r = self.results[h.name][1]
                for i, o in enumerate(x for x in r["obligations"] if x["failed"]):
                    ob = ob or o
                    if "replay" in o:
                        c, f, log = self.replay(h.file, h, o["replay"], f"proof{i}")
                        if c:
                            return (h, o, f, log, True)
                        if i > 6:
                            break
            # the verifier gave no input that reproduces: bounded symbolic run, then search on the real code
            br = None
            if v != "extract" and not h.bounded and time.time() < budget:
                br = self.run_vcx(h, bounded=True)
                for i, o in enumerate(x for x in br["obligations"] if x["failed"]):
                    if o.get("replay"):
                        c, f, log = self.replay(h.file, h, o["replay"], f"bounded{i}")
                        if c:
                            return (h, o, f, log, True)
            if h.search and v != "extract" or v == "extract":
                found, f, log = self.search(h.file, h, max(5, min(h.search, budget - time.time())))
                if found:
                    first = open(f).readline().strip("# \n") if os.path.exists(f) else ""
                    return (h, {"name": first, "loc": "", "kind": "spec"}, f, log, True)
            hit = self.history_search(h.file)   # whole histories on the real code, against the specification run alongside
            if hit:
                return hit
            if v == "open" and br and self.verdict(br) == "ok":
                self.boundedruns.append((h, br))
                return None
            f = f"{self.replays}/{h.name}-undischarged.txt"
            with open(f, "w") as w:
                w.write(f"harness {h.name} of {h.file.path}: no failing input found\n")
                if v == "extract":
                    w.write("\n".join(self.notes))
                else:
                    r = self.results[h.name][1]
                    for o in r["obligations"]:
                        if o["failed"] or o["unknown"]:
                            w.write(f"obligation [{o['kind']}] {o['name']} {o['loc']}: failed {o['failed']} undecided {o['unknown']} of {o['instances']}\n{o.get('replay','')}\n")
                            ob = ob or o
                    w.write(log[-1500:] + "\n")
                    w.write(json.dumps({k: r.get(k) for k in ("unsupported", "timed_out", "notes", "error")}, indent=1))
            return (h, ob or {"name": "the contract can be attached and decided", "loc": "", "kind": "extract"}, f, "", False)
        if bad:
            for pf in {id(h.file): h.file for h, _ in bad}.values():
                self.build_native(pf)
        with ThreadPoolExecutor(4) as ex:
            for res in ex.map(one, bad):
                if res:
                    self.violations.append(res)

    def history_search(self, pf):
        with self.hlock:
            if pf.path not in self.hdone:
                self.hdone[pf.path] = None
                for h in pf.harnesses:
                    if h.native_only and not self.hdone[pf.path]:
                        found, f, log = self.search(pf, h, h.search)
                        if found:
                            first = open(f).readline().strip("# \n") if os.path.exists(f) else ""
                            self.hdone[pf.path] = (h, {"name": first, "loc": "", "kind": "spec"}, f, log, True)
            return self.hdone[pf.path]

    def report(self, h, v):
        r = self.results[h.name][1]
        print(f"=== {h.name}: {v}  paths {r['paths_done']} wall {r['elapsed']:.1f}s cuts {r.get('loop_cuts')} timed_out {r['timed_out']}")
        if r.get("error"):
            print("   ERROR", r["error"])
        for k, n in r["unsupported"].items():
            print("   UNSUPPORTED", k, n)
        for k, n in r.get("notes", {}).items():
            print("   note", k, n)
        if r.get("bounded"):
            print("   bounded", r["bounded"])
        print("   analysed", len(r.get("analysed", {})), "contracts", r.get("contracts"), "trusted", list(r.get("trusted", {}).items())[:40])
        spec = [o for o in r["obligations"]]
        for o in spec:
            if o["failed"] or o["unknown"] or o["kind"] in ("spec", "invariant"):
                print(f"   [{o['kind']}] {o['name']} {o['loc']} n={o['instances']} ok={o['discharged']} FAILED={o['failed']} unk={o['unknown']} {o['ms']}ms")
                if o["failed"]:
                    print("      " + o.get("replay", "").replace("\n", "\n      ")[:1500])
        print("   total obligations", len(spec), "instances", sum(o["instances"] for o in spec), "solver", {k: (s["queries"], round(s["s"], 1)) for k, s in r.get("solver", {}).items()})

    # ---- known findings
    def known(self):
        try:
            return [k for k in json.load(open(V + "/known_findings.json"))["findings"] if k["property"] == self.pid and k["status"] == "known"]
        except FileNotFoundError:
            return []

    def evidence(self):
        obl = dis = inst = instd = bounded_obl = 0
        backends, fns, trusted, contracts, bnd, samples = {}, {}, {}, {}, {}, []
        und = []
        brun = {h.name for h, _ in self.boundedruns}
        hrep = []
        for name, (h, r) in self.results.items():
            nb = h.bounded or name in brun
            v = self.verdict(r)
            for o in r["obligations"]:
                if h.bounded:
                    bounded_obl += 1
                    continue
                obl += 1
                inst += o["instances"]
                instd += o["discharged"]
                if o["discharged"] == o["instances"] and o["instances"] and v == "ok":
                    dis += 1
                else:
                    und.append(f"{name}: [{o['kind']}] {o['name']} {o['loc']}"[:160])
            for k, s in r.get("solver", {}).items():
                b = backends.setdefault(k, {"queries": 0, "decided": 0, "s": 0.0})
                b["queries"] += s["queries"]; b["decided"] += s["decided"]; b["s"] = round(b["s"] + s["s"], 3)
            for k, n in r.get("analysed", {}).items():
                fns[k] = fns.get(k, 0) + n
            for k, n in r.get("trusted", {}).items():
                trusted[k] = trusted.get(k, 0) + n
            for k, n in r.get("contracts", {}).items():
                contracts[k] = contracts.get(k, 0) + n
            for k, n in r.get("bounded", {}).items():
                bnd[f"{name}: {k}"] = n
            so = [o for o in r["obligations"] if o["kind"] in ("spec", "invariant")]
            hrep.append({"contract": name, "level": "bounded" if nb else "proved" if v == "ok" else "not accepted", "paths": r["paths_done"],
                         "loop_cuts": r.get("loop_cuts", 0), "obligations": len(r["obligations"]), "instances": sum(o["instances"] for o in r["obligations"]),
                         "wall_s": round(r["elapsed"], 2), "spec": [o["name"][:90] for o in so][:12]})
        def clip(d, n):
            ks = sorted(d, key=lambda k: -d[k])
            return [k[:150] for k in ks[:n]] + ([f"... {len(ks) - n} more"] if len(ks) > n else [])
        eck = {k: n for k, n in fns.items() if "eckit" in k and not k.startswith(("std::", "void std::"))}
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.manifest_level(),
            "coverage": {
                "obligations": obl, "discharged": dis, "vc_instances": inst, "vc_instances_discharged": instd,
                "bounded_obligations_not_counted": bounded_obl,
                "checker_cmd": f"python3 check.py {self.pid} --tier {self.tier}",
                "trusted_base": ["clang 18 front end (C++ to LLVM IR, -O1 -disable-llvm-passes)", "LLVM SROA/EarlyCSE/SimplifyCFG on loop-contract-free functions",
                                 "engine/vcx (verification-condition generator)", "z3 5.3.2 / z3 4.8.12 / cvc5 1.1.2 / int-lift translation"] +
                                ["external or modelled: " + k for k in clip(trusted, 60)] + ["assumed contract: " + k for k in clip(contracts, 30)],
                "functions_under_contract": len(eck), "functions": clip(eck, 120),
                "library_functions_analysed": len(fns) - len(eck),
                "extracted_from": sorted(set(self.extract)) + ["headers included by " + ", ".join(os.path.basename(p.path) for p in self.files)],
                "back_ends": backends, "solver_s": round(sum(b["s"] for b in backends.values()), 2),
                "contracts": hrep, "undischarged": und[:40], "bounded_loops": list(bnd)[:20],
                "extract_s": round(self.t_extract, 1), "notes": self.notes[:20],
            },
            "assumptions": sorted({a for p in self.files for a in p.assume}) + ["allocation does not fail", "single thread"],
            "wall_s": round(self.wall, 2), "violations": len(self.violations),
        }
        os.makedirs(V + "/evidence", exist_ok=True)
        s = json.dumps(ev, indent=1)
        while len(s) > 60000:
            ev["coverage"]["functions"] = ev["coverage"]["functions"][:len(ev["coverage"]["functions"]) // 2]
            for h in hrep:
                h["spec"] = h["spec"][:len(h["spec"]) // 2]
            ev["coverage"]["trusted_base"] = ev["coverage"]["trusted_base"][:40]
            s = json.dumps(ev, indent=1)
        open(f"{V}/evidence/{self.pid}.json", "w").write(s + "\n")

    def manifest_level(self):
        try:
            for c in json.load(open(V + "/MANIFEST.json"))["checks"]:
                if c["property"] == self.pid:
                    return c["level"]
        except Exception:
            pass
        return "proof"


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = [a[i + 1] for i, x in enumerate(a) if x == "--only"]
    dev = "--dev" in a
    seed = int(os.environ.get("VERIF_SEED", "1"))
    idf = B + "/vcx.id"
    src = b"".join(open(f, "rb").read() for f in sorted(glob.glob(V + "/engine/*.cpp")) + sorted(glob.glob(V + "/engine/*.h")) + sorted(glob.glob(V + "/engine/*.inc")) + [V + "/engine/build.sh"])
    if not os.path.exists(VCX) or not os.path.exists(idf) or open(idf).read().strip() != hashlib.sha256(src).hexdigest():
        rc, o, e = sh([V + "/engine/build.sh"])
        if rc:
            print(e)
            sys.exit(2)
    c = Check(pid, tier, only, dev, seed)
    try:
        c.run()
        c.evidence()
        known = c.known()
        rc = 0
        for (h, o, f, log, conc) in c.violations:
            k = next((k for k in known if k["harness"] == h.name and k["obligation"] == o["name"]), None)
            if k:
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
                continue
            rc = 1
            loc = f" at {o['loc']}" if o.get("loc") else ""
            print(f"  failed obligation: {h.name}: {o['name']}{loc}")
            if log:
                open(f + ".log", "w").write(log)
            print(f"VIOLATION property={pid} replay={f}" + ("" if conc else " no-failing-input-found"))
        cov = json.load(open(f"{V}/evidence/{pid}.json"))["coverage"]
        for n in c.notes:
            print("note:", n[:300])
        for h, _ in c.boundedruns:
            print(f"note: {h.name} not accepted by the verifier within its limits; bounded stand-in found nothing")
        print(f"{pid}: {cov['discharged']}/{cov['obligations']} obligations discharged ({cov['vc_instances']} instances, "
              f"{cov['functions_under_contract']} functions, solver {cov['solver_s']} s, wall {c.wall:.1f} s)")
        sys.exit(rc)
    finally:
        if not dev:
            shutil.rmtree(c.work, ignore_errors=True)
        trim_cache()


if __name__ == "__main__":
    main()
