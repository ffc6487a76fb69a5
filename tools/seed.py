#!/usr/bin/env python3
"""Validate a seeded bug in place: tools/seed.py ID [--tests] [--nocheck]. Always restores /repo."""
import json, os, subprocess, sys
V = "/verif"


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace", **k)


def one(i, tests, check):
    d = f"{V}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    out = [i, meta["property"]]
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo not clean"
    try:
        r = sh(f"git -C /repo apply {d}/patch.diff")
        if r.returncode:
            return out + ["PATCH FAILS", r.stdout[:300]]
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            return out + ["BUILD FAILS", b.stdout[-1500:]]
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        out.append(f"demo(patched)={r.returncode} {'ok' if r.returncode else 'BAD'}")
        if check:
            for p in [meta["property"]]:
                r = sh(f"python3 run.py {p} quick", cwd=V, env=dict(os.environ, VERIF_SEED="1"))
                hit = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
                keys = [l.strip() for l in r.stdout.split("\n") if l.startswith("  ") and not l.startswith("    ")]
                out.append(f"check={r.returncode} {'CAUGHT' if hit else 'MISSED'} {keys[:4]}")
                if not hit:
                    out.append(r.stdout[-300:])
        if tests:
            sh("bash /opt/vp/test.sh /tmp/seed_t.json")
            base = json.load(open("/opt/vp/BASELINE.json"))
            bl = base.get("passed") or base.get("stable") or list(base.values())[0]
            res = json.load(open("/tmp/seed_t.json"))
            out.append("tests-missing=%s" % [t for t in bl if t not in res["passed"]])
    finally:
        sh("git -C /repo checkout -- .")
        b = sh("bash /opt/vp/build.sh")
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    out.append(f"demo(clean)={r.returncode} {'ok' if r.returncode == 0 else 'BAD ' + r.stdout[-300:]}")
    return out


ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    print(" | ".join(one(i, "--tests" in sys.argv, "--nocheck" not in sys.argv)), flush=True)
