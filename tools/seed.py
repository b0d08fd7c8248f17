"""Development aid: makes and confirms the planted bugs in /verif/seeded.

seed.py make ID...    writes seeded/ID from tools/bugs/defs/*.py
seed.py verify ID...  confirms each in a private mount namespace on a copy of /repo
                      (demo passes before and fails after, stable tests pass)
                      and runs the property's quick check on it (--no-check skips)
"""
import glob, json, os, shutil, subprocess, sys, tempfile

V = "/verif"
HERE = V + "/tools/bugs"


def defs():
    bugs = {}
    for f in sorted(glob.glob(HERE + "/defs/*.py")):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        for b in ns["BUGS"]:
            bugs[b["id"]] = b
    return bugs


def make(b):
    d = f"{V}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    try:
        patch = ""
        subprocess.run(["git", "init", "-q", w], check=True)
        for f in sorted({e[0] for e in b["edits"]}):
            os.makedirs(os.path.dirname(f"{w}/{f}"), exist_ok=True)
            shutil.copy(f"/repo/{f}", f"{w}/{f}")
        subprocess.run(["git", "-C", w, "add", "-A"], check=True)
        for f, old, new in b["edits"]:
            s = open(f"{w}/{f}").read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(f"{w}/{f}", "w").write(s.replace(old, new))
        patch = subprocess.run(["git", "-C", w, "diff"], check=True, capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(w)
    open(d + "/patch.diff", "w").write(patch)
    sh = open(HERE + "/demo.sh").read()
    if "sources" in b:
        # parts of the library that this build leaves out, compiled with stand-ins for what they need
        sh = sh.replace('"$d/demo.cpp"', '"$d/demo.cpp" ' + " ".join("src/cosim/" + x for x in b["sources"]))
    open(d + "/demo.sh", "w").write(sh)
    os.chmod(d + "/demo.sh", 0o755)
    for x in b.get("files", ()):
        x = V + "/harness/" + x
        if os.path.isdir(x):
            shutil.copytree(x, d + "/" + os.path.basename(x), dirs_exist_ok=True)
        else:
            shutil.copy(x, d)
    shutil.copy(HERE + "/common.hpp", d)
    open(d + "/demo.cpp", "w").write(b["demo"].lstrip("\n"))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(d + "/meta.json", "w"), indent=1)


INNER = r"""
set -u
mount --bind "$COPY" /repo || exit 90
cd /repo
bash /opt/vp/build.sh >/tmp/seed_$ID.build 2>&1 || { echo "clean build failed"; exit 91; }
bash /verif/seeded/$ID/demo.sh >/tmp/seed_$ID.demo0 2>&1 || { echo "demo fails on clean tree"; tail -5 /tmp/seed_$ID.demo0; exit 92; }
git apply /verif/seeded/$ID/patch.diff || exit 93
bash /opt/vp/build.sh >/tmp/seed_$ID.build 2>&1 || { echo "patched build failed"; tail /tmp/seed_$ID.build; exit 94; }
python3 /verif/tools/stable.py --no-build > /tmp/seed_$ID.tests 2>&1; grep -q '^ALL STABLE PASS' /tmp/seed_$ID.tests || { echo "stable tests fail"; tail -5 /tmp/seed_$ID.tests; exit 95; }
bash /verif/seeded/$ID/demo.sh >/tmp/seed_$ID.demo1 2>&1 && { echo "demo passes with patch"; exit 96; }
grep -m1 . /tmp/seed_$ID.demo1
[ -n "$CHECK" ] || exit 0
export VERIF_SEED=1
timeout 900 python3 "$VCOPY/tools/check.py" $CHECK > /tmp/seed_$ID.check 2>&1; rc=$?
grep -m1 VIOLATION /tmp/seed_$ID.check
echo "check rc=$rc"
[ $rc = 1 ] || exit 97
"""


def verify(b, check, keep=False):
    i = b["id"]
    copy, vcopy = f"/tmp/wt_{i}", f"/tmp/vt_{i}"
    for c in (copy, vcopy):
        shutil.rmtree(c, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    if check:
        os.makedirs(vcopy)
        subprocess.run("cp -a spec harness tools known_findings.txt properties.jsonl MANIFEST.json " + vcopy, shell=True, cwd=V, check=True)
    env = dict(os.environ, COPY=copy, VCOPY=vcopy, ID=i, CHECK=b["property"] if check else "")
    try:
        p = subprocess.run(["unshare", "-m", "bash", "-c", INNER], env=env, capture_output=True, text=True)
        print(f"{i} [{b['property']}]: rc={p.returncode} " + " | ".join((p.stdout + p.stderr).split("\n")), flush=True)
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(vcopy, ignore_errors=True)


if __name__ == "__main__":
    args = [a for a in sys.argv[2:] if not a.startswith("--")]
    bugs = defs()
    for i in args or sorted(bugs):
        if sys.argv[1] in ("make", "both"):
            make(bugs[i])
        if sys.argv[1] in ("verify", "both"):
            verify(bugs[i], "--no-check" not in sys.argv)
