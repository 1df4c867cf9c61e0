#!/usr/bin/env python3
"""Changes that keep the behaviour (tools/refactors/*.diff): every check has
to stay quiet.  refactor.py [NAME...]"""
import glob, json, os, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    names = [a for a in sys.argv[1:] if not a.startswith("C")]
    props = [a for a in sys.argv[1:] if a.startswith("C")]
    names = names or sorted(os.path.basename(f)[:-5] for f in glob.glob(HERE + "/refactors/*.diff"))
    manifest = json.load(open("/verif/MANIFEST.json"))
    props = props or [c.get("property") or c.get("property_id") for c in manifest["checks"]]
    assert sh(["git", "-C", "/repo", "status", "--porcelain"]).stdout == "", "repo not clean"
    bad = False
    for n in names:
        r = sh(["git", "-C", "/repo", "apply", "%s/refactors/%s.diff" % (HERE, n)])
        try:
            if r.returncode:
                print(n, "does not apply", r.stdout)
                bad = True
                continue
            sh(["bash", "/opt/vp/build.sh"])
            sh(["bash", "/opt/vp/test.sh", "/tmp/refactor-tests.json"])
            t = json.load(open("/tmp/refactor-tests.json"))
            print(n, "tests failed:", t["failed"], flush=True)
            for p in props:
                c = sh(["/verif/run.sh", p, "quick"], cwd="/verif")
                if c.returncode:
                    bad = True
                    print(n, p, "rc", c.returncode, c.stdout[-1500:], flush=True)
            print(n, "done", flush=True)
        finally:
            sh(["git", "-C", "/repo", "checkout", "--", "."])
    return bad


sys.exit(main())
