"""Create and confirm a planted bug.  usage: python3 tools/seed.py FILE.py  where FILE.py defines
SEEDS = [dict(id=, prop=, edits=[(path below src/korin/core, old, new)...], demo=C++ text, needs=, breaks=), ...]"""
import os, sys, json, subprocess, shutil, tempfile, runpy
V = "/verif/seeded"
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; anything else: it is not
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
g++ -std=c++17 %s -g1 -mavx2 -DPLATFORM_LINUX=1 -DBUILD_DEBUG -w %s -I src/korin/core/public "$here/demo.cpp" $(find src/korin/core/private -name '*.cpp') -o "$d/demo" -lpthread || exit 2
cd "$d" && timeout 200 ./demo
'''
def sh(c, cwd, t=600):
    r = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    return r.returncode, (r.stdout + r.stderr)
def main(f, only=None):
    for s in runpy.run_path(f)["SEEDS"]:
        if only and s["id"] not in only: continue
        d = os.path.join(V, s["id"]); os.makedirs(d, exist_ok=True)
        open(d + "/demo.cpp", "w").write(s["demo"].lstrip())
        open(d + "/demo.sh", "w").write(DEMO % (s.get("opt", "-O0"), s.get("flags", "-fsanitize=address"))); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        t = tempfile.mkdtemp(prefix="seed-", dir="/tmp"); r = t + "/repo"
        try:
            subprocess.check_call(["cp", "-a", "/repo", r])
            rc0, o0 = sh("bash %s/demo.sh" % d, r)
            for p, a, b in s["edits"]:
                p = r + "/src/korin/core/" + p; x = open(p).read()
                assert x.count(a) == 1, (s["id"], x.count(a), a)
                open(p, "w").write(x.replace(a, b))
            diff = subprocess.check_output(["git", "-C", r, "diff"], text=True)
            open(d + "/patch.diff", "w").write(diff)
            # changed lines must be lines of the original repository
            base = subprocess.check_output("git -C /repo log --format=%H --invert-grep --grep='^fix:' -1", shell=True, text=True).strip()
            for p, a, b in s["edits"]:
                old = subprocess.check_output(["git", "-C", "/repo", "show", base + ":src/korin/core/" + p], text=True)
                rem = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
                if not all(l in old for l in rem): print("  ! some removed line is not in the original", [l for l in rem if l not in old][:2])
            rc1, o1 = sh("bash %s/demo.sh" % d, r)
            # the existing tests, in /repo itself, undone straight afterwards
            subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
            try:
                rb, ob = sh("bash /opt/vp/build.sh", "/repo")
                rt, ot = sh("bash /opt/vp/test.sh %s/o.json" % t, "/repo")
                tests = "build FAILS " + ob[-300:] if rb else ot.strip().split("\n")[-1]
            finally:
                subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
            print(s["id"], tests, "| demo clean", rc0, "patched", rc1, (o1.strip().split("\n") or [""])[-1][:160] if rc1 else "", "" if rc0 == 0 else o0[-300:])
        finally:
            shutil.rmtree(t)
if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2:])
