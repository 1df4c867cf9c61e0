#!/usr/bin/env python3
"""Write the planted bugs of tools/seeds/*.py to /verif/seeded, after having
confirmed each of them: the change builds, passes the stable tests, changes
lines of the original repository, and its demonstration tells it apart.

  plant.py [--checks] ID...    (all the new ones without ID)

A spec is a dictionary: id, property, needs, breaks, edits [(file, old, new)],
demo (Python source using pica_demo)."""
import glob, json, os, runpy, shutil, subprocess, sys

REPO, SEEDED = "/repo", "/verif/seeded"
HERE = os.path.dirname(os.path.abspath(__file__))
BASE = "892505f"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def restore():
    sh(["git", "-C", REPO, "checkout", "--", "."])


def build():
    return sh(["bash", "/opt/vp/build.sh"])


def demo(d):
    try:
        return sh(["bash", d + "/demo.sh"], cwd=REPO, timeout=300)
    except subprocess.TimeoutExpired:
        return None


def specs():
    out = {}
    for f in sorted(glob.glob(HERE + "/seeds/*.py")):
        if not f.endswith("pica_demo.py"):
            for s in runpy.run_path(f).get("SPECS", []):
                assert s["id"] not in out, s["id"]
                out[s["id"]] = s
    return out


def write(s):
    d = os.path.join(SEEDED, s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    restore()
    for f, old, new in s["edits"]:
        p = os.path.join(REPO, f)
        text = open(p).read()
        if text.count(old) != 1:
            restore()
            raise SystemExit("%s: %d matches in %s of %r" % (s["id"], text.count(old), f, old))
        open(p, "w").write(text.replace(old, new))
    open(d + "/patch.diff", "w").write(sh(["git", "-C", REPO, "diff"]).stdout)
    restore()
    open(d + "/demo.py", "w").write("from pica_demo import *\n\n" + s["demo"].strip("\n") + "\n")
    shutil.copy(HERE + "/seeds/pica_demo.py", d)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
    for name, text in s.get("files", {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
        open(os.path.join(d, name), "w").write(text)
    if "demo_sh" in s:
        open(d + "/demo.sh", "w").write(s["demo_sh"])
        for f in ("demo.py", "pica_demo.py"):
            if f not in s["demo_sh"]:
                os.remove(d + "/" + f)
    json.dump(
        {"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
        open(d + "/meta.json", "w"),
        indent=1,
    )
    return d


def original_lines(d):
    """Does the patch change a line of the original repository?"""
    removed = []
    for line in open(d + "/patch.diff"):
        if line.startswith("--- a/"):
            current = line[6:].strip()
        if line.startswith("@@"):
            n = int(line.split()[1].split(",")[0][1:])
        elif line.startswith("-") and not line.startswith("---"):
            removed.append((current, n))
            n += 1
        elif line.startswith(" "):
            n += 1
    mine = set()
    for f in {f for f, _ in removed}:
        for i, l in enumerate(sh(["git", "-C", REPO, "blame", "-s", f]).stdout.splitlines(), 1):
            if not l.startswith("^" + BASE):
                mine.add((f, i))
    return any(r not in mine for r in removed), [r for r in removed if r in mine]


def main():
    checks = "--checks" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    all_specs = specs()
    todo = ids or [i for i in all_specs if not os.path.exists(os.path.join(SEEDED, i, "patch.diff"))]
    assert sh(["git", "-C", REPO, "status", "--porcelain"]).stdout == "", "repo not clean"
    dirs = {i: write(all_specs[i]) for i in todo}
    build()
    results = {}
    for i in todo:
        r = demo(dirs[i])
        if r is None or r.returncode != 0:
            results[i] = "BAD: demo fails on the unchanged tree: " + (r.stdout[-600:] if r else "timeout")
            print(i, results[i], flush=True)
    for i in todo:
        if i in results:
            continue
        d = dirs[i]
        ok, mine = original_lines(d)
        r = sh(["git", "-C", REPO, "apply", d + "/patch.diff"])
        try:
            if r.returncode:
                results[i] = "BAD: does not apply"
                continue
            r = build()
            if r.returncode:
                results[i] = "BAD: does not build\n" + r.stdout[-1500:]
                continue
            sh(["bash", "/opt/vp/test.sh", "/tmp/plant-tests.json"])
            t = json.load(open("/tmp/plant-tests.json"))
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            missing = [s for s in stable if s not in t["passed"]]
            r = demo(d)
            out = []
            if missing:
                out.append("BAD: tests fail: %s" % missing)
            if r is not None and r.returncode == 0:
                out.append("BAD: demo passes with the change")
            if not ok:
                out.append("BAD: only changes lines of fixes %s" % mine)
            if r is None:
                out.append("demo timed out with the change")
            if checks and not any(o.startswith("BAD") for o in out):
                p = all_specs[i]["property"]
                c = sh(["/verif/run.sh", p, "quick"], cwd="/verif", timeout=900)
                hit = c.returncode == 1 and ("VIOLATION property=%s" % p) in c.stdout
                out.append("%s %s (rc %d)" % ("CAUGHT by" if hit else "MISSED by", p, c.returncode))
                if not hit:
                    out.append(c.stdout[-800:])
            results[i] = "; ".join(out) or "ok: " + (r.stdout.strip()[-200:] if r else "")
            if r and not any(o.startswith("BAD") for o in out):
                results[i] += " | " + r.stdout.strip()[-160:]
        finally:
            restore()
            print(i, results.get(i), flush=True)
    build()
    return any("BAD" in r for r in results.values())


sys.exit(main())
