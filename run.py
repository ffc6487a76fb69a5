#!/usr/bin/env python3
"""Runtime-monitoring driver: run.py <property> [quick|thorough]

Builds /repo's current working tree (all of framework/core/src) in the sanitizer
flavours a property needs, runs its monitored workloads, classifies what the
monitors and sanitizers observed and writes evidence/<property>.json.

exit 0  held on everything observed (KNOWN-FINDING lines for listed findings)
exit 1  VIOLATION property=<id> replay=<path>
exit 2  error / inconclusive (build failure, harness failure, nothing observed)
"""
import concurrent.futures, fnmatch, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PLAIN_REPO", "/repo")
CORE = os.path.join(REPO, "framework/core")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
import props  # noqa: E402

COMMON = ["-std=gnu++23", "-DPLAIN_CORE", "-DPLAIN_VERIF", "-fno-omit-frame-pointer",
          "-gline-tables-only", "-w", "-pthread", "-UNDEBUG"]
FLAVOURS = {
    "asan": ["-O1", "-fsanitize=address,undefined",
             "-fno-sanitize=alignment,vptr,function", "-fsanitize-recover=undefined"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O2"],
}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=1:leak_check_at_exit=0:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=0:handle_abort=1:symbolize=1:"
                    "strip_path_prefix=/nonexistent:max_allocation_size_mb=3000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4:"
                    "second_deadlock_stack=1:suppressions=" + os.path.join(VERIF, "tsan.supp"),
    "TZ": "UTC", "LC_ALL": "C",
}
NPROC = os.cpu_count() or 4


def sh_quote(s):
    return "'" + s.replace("'", "'\\''") + "'"


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(CORE, "src")):
        for f in fs:
            if f.endswith(".cc") or f.endswith(".cpp"):
                out.append(os.path.join(d, f))
    return sorted(out)


def build(flavours, harnesses):
    """harnesses: {name: (flavour, [src...], [extra link flags], [extra cflags])} -> {name: exe}"""
    os.makedirs(BUILD, exist_ok=True)
    exes = {}
    lines = ["ninja_required_version = 1.5", "builddir = " + BUILD]
    lines += ["rule cc", "  command = clang++ $flags -MD -MF $out.d $pch -c $in -o $out",
              "  depfile = $out.d", "  deps = gcc",
              "rule pch", "  command = clang++ $flags -x c++-header -fpch-instantiate-templates -MD -MF $out.d $in -o $out",
              "  depfile = $out.d", "  deps = gcc",
              "rule ar", "  command = rm -f $out && ar crs $out @$out.rsp",
              "  rspfile = $out.rsp", "  rspfile_content = $in_newline",
              "rule link", "  command = clang++ $flags $in $objs -o $out $libs -ldl -lpthread"]
    libs = {}
    srcs = sources()
    for fl in flavours:
        flags = " ".join(COMMON + FLAVOURS[fl] + ["-I" + os.path.join(CORE, "include"),
                                                   "-I" + os.path.join(VERIF, "harness")])
        d = os.path.join(BUILD, fl)
        pch = os.path.join(d, "pch.h.pch")
        lines += [f"build {pch}: pch {VERIF}/harness/pch.h", f"  flags = {flags}"]
        objs = []
        for s in srcs:
            o = os.path.join(d, "obj", os.path.relpath(s, CORE).replace("/", "__") + ".o")
            objs.append(o)
            lines += [f"build {o}: cc {s} | {pch}", f"  flags = {flags}", f"  pch = -include-pch {pch}"]
        co = os.path.join(d, "common.o")
        lines += [f"build {co}: cc {VERIF}/harness/common.cc | {pch}", f"  flags = {flags}",
                  f"  pch = -include-pch {pch}"]
        libs[fl] = (flags, pch, objs, co)
    targets = []
    for name, (fl, hs, libsx, cfx) in harnesses.items():
        flags, pch, objs, co = libs[fl]
        d = os.path.join(BUILD, fl)
        hos = []
        for h in hs:
            o = os.path.join(d, "h_" + os.path.basename(h) + ".o")
            hos.append(o)
            if not any(l.startswith(f"build {o}:") for l in lines):
                lines += [f"build {o}: cc {VERIF}/harness/{h} | {pch}", f"  flags = {flags} {' '.join(cfx)}",
                          f"  pch = -include-pch {pch}"]
        exe = os.path.join(d, name)
        lines += [f"build {exe}: link {' '.join(hos)} {co} {' '.join(objs)}", f"  flags = {flags}",
                  f"  libs = {' '.join(libsx)}"]
        exes[name] = exe
        targets.append(exe)
    nf = os.path.join(BUILD, "build-%s.ninja" % ("_".join(sorted(harnesses)))[:80])
    text = "\n".join(lines) + "\n"
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    p = subprocess.run(["ninja", "-f", nf, "-j", str(NPROC + 2)] + targets, cwd=BUILD,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        sys.stdout.write("\n".join(l for l in p.stdout.split("\n") if "error" in l or "FAILED" in l)[-3000:] + "\n")
        print("BUILD FAILED")
        sys.exit(2)
    return exes


FRAME = re.compile(r"^\s*#(\d+) (?:0x[0-9a-f]+ in )?(.+?) (/[^\s:]+)(?::(\d+))?(?::\d+)?(?: .*)?$")


def short(fn):
    # template arguments and parameter lists vary: keep the qualified name only
    depth, out = 0, []
    fn = fn.replace("operator<<", "operator_shl").replace("operator<", "operator_lt") \
           .replace("operator>>", "operator_shr").replace("operator->", "operator_arrow") \
           .replace("(anonymous namespace)", "anon")
    for c in fn:
        if c in "<([":
            depth += 1
        elif c in ">)]":
            depth -= 1
        elif depth == 0:
            out.append(c)
    r = "".join(out).strip()
    r = re.sub(r"\s+const$", "", r)
    r = re.sub(r"\s*&+$", "", r)
    return r.split(" ")[-1] or fn[:60]


def frame_key(stack):
    """first /repo frame, else first /verif frame, else top frame"""
    fr = []
    for l in stack:
        m = FRAME.match(l)
        if m:
            fr.append((short(m.group(2)), m.group(3)))
    for f, p in fr:
        if p.startswith(REPO + "/"):
            return f
    for f, p in fr:
        if p.startswith(VERIF + "/"):
            return "harness:" + f
    return fr[0][0] if fr else "?"


def parse_sanitizers(text):
    """-> list of (key, excerpt)"""
    res = []
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        m = re.search(r"ERROR: AddressSanitizer:? (\S+)", l)
        if m and m.group(1) == "failed":
            m = None  # resource exhaustion of the tool itself, not a report
        if m:
            kind = m.group(1).rstrip(":")
            j = i + 1
            stack = []
            while j < len(lines) and len(stack) < 40:
                if FRAME.match(lines[j]):
                    stack.append(lines[j])
                elif stack and not lines[j].strip():
                    break
                j += 1
            if kind == "ABRT":
                am = re.findall(r"^(.*Assertion `.*' failed\.?)$", text, re.M)
                tm = re.findall(r"terminate called after throwing an instance of '([^']+)'", text)
                res.append(("assert:" + frame_key(stack) if am else
                            ("terminate:" + (tm[-1] if tm else "?") + ":" + frame_key(stack)),
                            (am[-1] + "\n" if am else "") + "\n".join(lines[i:i + 30])))
            else:
                res.append((f"asan:{kind}:{frame_key(stack)}", "\n".join(lines[i:i + 45])))
            i = j
            continue
        m = re.match(r"^Direct leak of \d+ byte\(s\) in (\d+) object", l)
        if m:
            stack = []
            j = i + 1
            while j < len(lines) and lines[j].lstrip().startswith("#"):
                if FRAME.match(lines[j]):
                    stack.append(lines[j])
                j += 1
            # One or two may belong to a thread that just ends; a leak repeats with the cases.
            if int(m.group(1)) >= 3:
                res.append((f"leak:{frame_key(stack)}", "\n".join(lines[i:min(j, i + 25)])))
            i = j
            continue
        m = re.match(r"^(\S+):(\d+):\d+: runtime error: (.*)$", l)
        if m:
            stack = []
            j = i + 1
            while j < len(lines) and FRAME.match(lines[j]):
                stack.append(lines[j])
                j += 1
            msg = re.sub(r"-?\d[\d.e+-]*|0x[0-9a-f]+|'[^']*'", "N", m.group(3))
            res.append((f"ubsan:{frame_key(stack) if stack else os.path.basename(m.group(1))}:{msg[:60]}",
                        "\n".join(lines[i:i + 12])))
            i = j
            continue
        m = re.match(r"^WARNING: ThreadSanitizer: (.+?) \(pid=\d+\)", l)
        if not m:
            m = re.search(r"ERROR: ThreadSanitizer: (\S+)", l)
        if m:
            kind = m.group(1).replace(" ", "-")
            j = i + 1
            stacks, cur, heads = [], None, []
            while j < len(lines) and not lines[j].startswith("SUMMARY:"):
                if FRAME.match(lines[j]):
                    if cur is None:
                        cur = []
                        stacks.append(cur)
                    cur.append(lines[j])
                else:
                    if lines[j].strip().endswith(":"):
                        heads.append(lines[j].strip())
                    cur = None
                j += 1
            ks = [frame_key(s) for s in stacks]
            if kind.startswith("data-race") or kind.startswith("heap-use") or kind.startswith("race"):
                ks = sorted(ks[:2])
            else:
                ks = sorted(set(ks[:2]))
            res.append((f"tsan:{kind}:{'|'.join(ks)}", "\n".join(lines[i:min(j + 1, i + 60)])))
            i = j
            continue
        i += 1
    return res


class Job:
    def __init__(self, exe, spec, idx, seed, prop, tier):
        self.spec, self.idx, self.seed = spec, idx, seed
        self.dir = os.path.join(BUILD, "run", prop, str(idx))
        self.cmd = [exe, "--seed", str(seed), "--out", os.path.join(self.dir, "events.jsonl"),
                    "--scale", str(spec.get("scale", 1)), "--perturb", str(spec.get("perturb", 0)),
                    "--watchdog", str(spec.get("watchdog", 60))]
        if spec.get("scenario"):
            self.cmd += ["--scenario", spec["scenario"]]
        if tier == "thorough":
            self.cmd += ["--thorough"]
        self.timeout = spec.get("timeout", 240 if tier == "quick" else 900)

    def run(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        env = dict(os.environ)
        env.update(ENV)
        env.update(self.spec.get("env", {}))
        t0 = time.time()
        logp = os.path.join(self.dir, "log.txt")
        with open(logp, "wb") as lf:
            p = subprocess.Popen(self.cmd, cwd=self.dir, stdout=lf, stderr=lf, env=env,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                rc = p.wait(timeout=self.timeout)
            except subprocess.TimeoutExpired:
                rc = "timeout"
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        with open(logp, "rb") as f:
            data = f.read(64 << 20)
        self.log = data.decode("utf-8", "replace")
        self.wall = time.time() - t0
        ev = []
        try:
            with open(os.path.join(self.dir, "events.jsonl"), errors="replace") as f:
                for l in f:
                    try:
                        ev.append(json.loads(l))
                    except ValueError:
                        pass
        except OSError:
            pass
        self.classify(rc, ev)
        return self

    def classify(self, rc, ev):
        self.viols, self.errors, self.stuck = [], [], []
        self.cov = None
        scn = "start"
        for e in ev:
            if e["t"] == "scn":
                scn = e["scn"]
            elif e["t"] == "viol":
                self.viols.append((e["key"], f"[{e.get('scn')}] {e['detail']}"))
            elif e["t"] == "stuck":
                self.stuck.append((f"stuck:{e['scn']}", e["detail"]))
            elif e["t"] == "cov":
                self.cov = e
        self.last_scn = scn
        san = parse_sanitizers(self.log)
        keys = set()
        for k, d in san:
            if k.startswith("tsan:thread-leak") and rc != 0:
                continue  # an artefact of leaving through the watchdog
            if k not in keys:
                keys.add(k)
                self.viols.append((k, f"[{scn}] " + d))
        if "LeakSanitizer has encountered a fatal error" in self.log and self.cov is not None:
            rc = 0  # the tool can not look for leaks here
        fatal = [k for k, _ in san if k.startswith(("asan:", "assert:", "terminate:"))]
        if rc == "timeout":
            self.stuck.append((f"stuck:{scn}", "job timeout"))
        elif rc == 97:
            if not self.stuck:
                self.stuck.append((f"stuck:{scn}", "watchdog"))
        elif rc == 98:
            m = re.findall(r"HARNESS-ERROR: (.*)", self.log)
            self.errors.append("harness error: " + (m[-1] if m else "?"))
        elif rc != 0 and not fatal and re.search(r"(Address|Thread)Sanitizer failed to|Sanitizer: (CHECK failed|failed to)", self.log):
            self.errors.append("sanitizer runtime out of resources")
        elif rc != 0 and not fatal:
            am = re.findall(r"^(.*Assertion `.*' failed\.?)$", self.log, re.M)
            tm = re.findall(r"terminate called after throwing an instance of '([^']+)'", self.log)
            k = ("assert:" + scn) if am else (("terminate:" + tm[-1] + ":" + scn) if tm else
                                              f"crash:{rc}:{scn}")
            self.viols.append((k, (am[-1] if am else "") + self.log[-1500:]))
        if rc == 0 and self.cov is None:
            self.errors.append("no coverage record")


def load_known(prop):
    known = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"^known: property=(\S+) key=(\S+) (.*)$", l.strip())
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    return known


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = props.PROPS[prop]
    t0 = time.time()
    jobs_spec = spec["jobs"](tier)
    harnesses, flavours = {}, []
    for j in jobs_spec:
        h = j.get("harness", spec["harness"])
        name = os.path.splitext(h)[0] + "-" + j["flavour"]
        j["_name"] = name
        harnesses[name] = (j["flavour"], [h] + spec.get("extra", []), spec.get("link", []), spec.get("cflags", []))
        if j["flavour"] not in flavours:
            flavours.append(j["flavour"])
    exes = build(flavours, harnesses)
    tb = time.time() - t0
    jobs = []
    for i, j in enumerate(jobs_spec):
        for r in range(j.get("repeat", 1)):
            n = len(jobs)
            jobs.append(Job(exes[j["_name"]], j, n, seed * 100003 + n * 17 + 1, prop, tier))
    par = spec.get("parallel", 4)
    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        list(ex.map(lambda j: j.run(), jobs))

    known = load_known(prop)
    viols, knownhits, errors = [], {}, []
    ignored = 0
    ignore = spec.get("ignore_keys", [])

    def route(key, detail, job):
        nonlocal ignored
        for pat in ignore:
            if fnmatch.fnmatchcase(key, pat):
                ignored += 1
                return
        for k, what in known:
            if k == key:
                knownhits[k] = what
                return
        if not any(v[0] == key for v in viols):
            viols.append((key, detail, job))

    reruns = 0
    for j in jobs:
        for k, d in j.viols:
            route(k, d, j)
        errors += j.errors
    for j in jobs:
        if not j.stuck or viols:
            continue
        # a wall-clock verdict is inconclusive: the stall has to happen again, in the same
        # job run alone, or in one of three more with fresh seeds
        again = None
        for a in range(4):
            reruns += 1
            j2 = Job(j.cmd[0], j.spec, 1000 + 10 * j.idx + a, j.seed + 7919 * a, prop, tier)
            j2.timeout = min(j.timeout, 240)
            j2.run()
            for k, d in j2.viols:
                route(k, d, j2)
            if j2.stuck:
                again = j2
                break
            if viols:
                break
            if j.cov is None:
                j.cov = j2.cov
        if again:
            route(again.stuck[0][0], f"{j.stuck} then again {again.stuck}", again)
        elif not viols:
            print(f"note: unreproduced stall {j.stuck} (inconclusive, not reported)")

    evals = sum(j.cov["evals"] for j in jobs if j.cov)
    hashes, counters, samples, distinct_extra = set(), {}, [], 0
    for j in jobs:
        if not j.cov:
            continue
        hashes.update(j.cov["hashes"])
        distinct_extra += max(0, j.cov["distinct"] - len(j.cov["hashes"]))
        for k, v in j.cov["counters"].items():
            counters[k] = counters.get(k, 0) + v if k != "perturb_sites_reached" else max(counters.get(k, 0), v)
        for s in j.cov["samples"]:
            if len(samples) < 5 and s not in samples:
                samples.append(s)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(hashes), "rule": spec["rule"],
            "samples": samples, "monitor_counters": counters,
            "jobs": [{"harness": j.spec["_name"], "seed": j.seed, "scenario": j.spec.get("scenario", "all"),
                      "perturb": j.spec.get("perturb", 0), "wall_s": round(j.wall, 2),
                      "evaluations": j.cov["evals"] if j.cov else 0} for j in jobs],
            "sanitizer_flavours": flavours, "build_s": round(tb, 1), "reruns": reruns,
            "known_findings_seen": sorted(knownhits), "ignored_reports": ignored,
        },
        "assumptions": spec.get("assumptions", []) + [
            "clang 18 sanitizer runtimes and libstdc++ are trusted",
            "holds on the executions observed; not a proof"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: build {tb:.1f}s total {time.time()-t0:.1f}s evaluations={evals} "
          f"distinct={len(hashes)} counters={json.dumps(counters)}")
    for k, w in sorted(knownhits.items()):
        print(f"KNOWN-FINDING: property={prop} {k} {w}")
    if viols:
        rd = os.path.join(BUILD, "replay")
        os.makedirs(rd, exist_ok=True)
        for n, (k, d, j) in enumerate(viols[:10]):
            rp = os.path.join(rd, f"{prop}-{n}.txt")
            with open(rp, "w") as f:
                f.write(f"property: {prop}\nkey: {k}\ncommand: {' '.join(j.cmd)}\n\n{d}\n")
            print(f"  {k}\n    " + d[:700].replace("\n", "\n    "))
            print(f"VIOLATION property={prop} replay={rp}")
        sys.exit(1)
    if errors:
        print("ERROR: " + "; ".join(sorted(set(errors))))
        sys.exit(2)
    if evals == 0 or not hashes:
        print("ERROR: nothing observed")
        sys.exit(2)
    for c in spec.get("require", []):
        if counters.get(c, 0) == 0:
            print(f"ERROR: required observation '{c}' never happened")
            sys.exit(2)
    for j in jobs:
        shutil.rmtree(j.dir, ignore_errors=True)
    sys.exit(0)


if __name__ == "__main__":
    main()
