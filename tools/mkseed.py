"""helper: mk(id, prop, needs, breaks, [(file, old, new)...], demo_cc, demo_sh=None) -> /verif/seeded/<id>/"""
import json, os, shutil, subprocess
V = "/verif"


def mk(i, prop, needs, breaks, edits, demo, sh=None, extra=None):
    d = f"{V}/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run("git -C /repo status --porcelain", shell=True, text=True, stdout=subprocess.PIPE).stdout.strip()
    try:
        for f, old, new in edits:
            p = "/repo/framework/core/" + f
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run("git -C /repo diff", shell=True, text=True, stdout=subprocess.PIPE).stdout
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/meta.json", "w").write(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    if demo is not None:
        open(d + "/demo.cc", "w").write(demo)
    if sh is None:
        shutil.copy(f"{V}/tools/demo_template.sh", d + "/demo.sh")
    else:
        open(d + "/demo.sh", "w").write(sh)
    os.chmod(d + "/demo.sh", 0o755)
