"""plant.py new ID PROP  < spec      make /verif/seeded/ID from a spec (python literal: edits [(file, old, new)], needs, breaks, demo)
plant.py verify ID...               apply in a scratch copy: demo passes/fails, stable tests pass
plant.py check ID...                run the property's registered check on the patched copy"""
import ast, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = H + "/seeded"
PY = "/opt/venv/bin/python"
ENV = dict(PATH="/usr/local/bin:/usr/bin:/bin", HOME="/root", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")


def copy(i):
    d = tempfile.mkdtemp(prefix="pl_" + i + "_", dir="/tmp")
    subprocess.check_call(["git", "clone", "-q", "/repo", d + "/repo"])
    return d


def new(i, prop, spec):
    d = copy(i)
    r = d + "/repo"
    for f, o, n in spec["edits"]:
        s = open(r + "/" + f).read()
        assert s.count(o) == 1, (f, s.count(o), o)
        open(r + "/" + f, "w").write(s.replace(o, n))
    p = subprocess.check_output(["git", "-C", r, "diff"]).decode()
    os.makedirs(S + "/" + i, exist_ok=True)
    open(S + "/" + i + "/patch.diff", "w").write(p)
    open(S + "/" + i + "/demo.py", "w").write(spec["demo"].lstrip("\n"))
    open(S + "/" + i + "/demo.sh", "w").write('#!/bin/bash\n# run in the repository root\nexport PYTHONPATH="$PWD" EC_BACKEND_FORCE=%s EC_BACKEND=%s PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n' % ((1, 1) if spec.get("backend", 1) else (0, 0)))
    os.chmod(S + "/" + i + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(S + "/" + i + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)
    print(i, "written", len(p.splitlines()), "lines")


def patched(i):
    d = copy(i)
    subprocess.check_call(["git", "-C", d + "/repo", "apply", S + "/" + i + "/patch.diff"])
    return d


def demo(i, r):
    return subprocess.run(["bash", S + "/" + i + "/demo.sh"], cwd=r, env=ENV, capture_output=True, text=True, timeout=300)


def tests(r, d):
    ok = {}
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    bad = []
    for name, e in (("tcry", dict(EC_BACKEND_FORCE="1", EC_BACKEND="1")), ("py", dict(EC_BACKEND="0", SKIP_TREZOR_TSX="1"))):
        x = d + "/" + name + ".xml"
        subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-W", "ignore", "-n", "8", "--timeout=700", "--continue-on-collection-errors",
                        "-o", "junit_family=xunit2", "--junit-prefix=" + name, "--junitxml=" + x, "monero_glue_test"], cwd=r, env=dict(ENV, PYTHONPATH=r, **e), capture_output=True)
        import xml.etree.ElementTree as ET
        for t in ET.parse(x).getroot().iter("testcase"):
            k = "%s::%s" % (t.get("classname"), t.get("name"))
            ok[k] = not any(c.tag in ("failure", "error", "skipped") for c in t)
    for s in stable:
        if not ok.get(s):
            bad.append(s)
    return bad


def verify(i):
    d = patched(i)
    try:
        a, b = demo(i, "/repo"), demo(i, d + "/repo")
        print(i, "demo clean", a.returncode, "patched", b.returncode, (b.stdout + b.stderr).strip()[-200:].replace("\n", " | "))
        if a.returncode:
            print((a.stdout + a.stderr)[-1500:])
        bad = tests(d + "/repo", d)
        print(i, "tests", "ok" if not bad else bad[:5])
        return a.returncode == 0 and b.returncode != 0 and not bad
    finally:
        shutil.rmtree(d)


def check(i, props=None):
    d = patched(i)
    try:
        m = json.load(open(S + "/" + i + "/meta.json"))
        out = []
        for p in props or [m["property"]]:
            r = subprocess.run([PY, H + "/check.py", p], env=dict(ENV, PYVC_REPO=d + "/repo", VERIF_SEED="1"), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "violated", "undecided"))]
            out.append((p, r.returncode, v))
            print(i, p, "rc", r.returncode, *[x[:220] for x in v[:8]], sep="\n   ")
            f = H + "/seed_results.json"
            res = json.load(open(f)) if os.path.exists(f) else {}
            real = [x for x in v if x.startswith("VIOLATION") and not x.endswith("no-failing-input-found")]
            if p == m["property"]:
                res[i] = ("%s (%s)" % (p, "failing input" if real else "failed obligation, no input")) if r.returncode == 1 else "missed"
                json.dump(res, open(f, "w"), indent=1, sort_keys=True)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    if sys.argv[1] == "new":
        for spec in ast.literal_eval(sys.stdin.read()):
            new(spec["id"], spec["property"], spec)
    elif sys.argv[1] == "verify":
        r = [(i, verify(i)) for i in sys.argv[2:]]
        print([i for i, ok in r if not ok] or "all good")
    elif sys.argv[1] == "check":
        for i in sys.argv[2:]:
            check(i)
    elif sys.argv[1] == "checkp":
        check(sys.argv[2], sys.argv[3:])
