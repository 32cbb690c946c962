#!/usr/bin/env python3
"""mkseed.py [ID...]: (re)builds /verif/seeded/<id>/ from tools/seeds/<id>.txt and
confirms each in a scratch copy of /repo: it builds, the stable tests pass, the
demonstration exits 0 on the clean tree and non-zero on the patched one.
With -c also runs the property's check against the patched copy.

A seed file is: header lines "property:", "needs:", "breaks:", then blocks
"@@ file" / "<<<<" old "====" new ">>>>", then "demo:" and the demo's Go source."""
import os, sys, subprocess, shutil, json, tempfile, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
DEMO = '''#!/bin/bash
# exit 0: the behaviour holds; non-zero: it does not
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -r -- "$t"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go"}}' "$PWD" "$d" > "$t/o.json"
go build -overlay "$t/o.json" -o "$t/demo" ./zzdemo || exit 3
cd "$t" && ./demo
'''
def parse(f):
    s = open(f).read()
    head, demo = s.split("\ndemo:\n", 1)
    m = {k: re.search(rf"^{k}: (.*)$", head, re.M).group(1) for k in ("property", "needs", "breaks")}
    b = re.search(r"^build: (.*)$", head, re.M)
    m["build"] = b.group(1) if b else ""
    eds = []
    for blk in re.split(r"^@@ ", head, flags=re.M)[1:]:
        fn, rest = blk.split("\n", 1)
        for old, new in re.findall(r"<<<<\n(.*?)====\n(.*?)>>>>", rest, re.S):
            eds.append((fn.strip(), old, new))
    return m, eds, demo
def scratch():
    d = tempfile.mkdtemp(prefix="seed.")
    sh(f"cp -a /repo {d}/repo && git -C {d}/repo checkout -q -- .")
    return d
def tests(d):
    b = json.load(open("/opt/vp/BASELINE.json"))
    sh(f"sed 's#cd /repo#cd {d}/repo#' /opt/vp/test.sh > {d}/test.sh; bash {d}/test.sh {d}/out.json")
    o = json.load(open(f"{d}/out.json"))
    return set(map(str, b["stable"])) - set(map(str, o.get("passed", [])))
def main():
    args = sys.argv[1:]; check = "-c" in args; args = [a for a in args if a != "-c"]
    ids = args or sorted(f[:-4] for f in os.listdir(root + "/tools/seeds") if f.endswith(".txt"))
    bad = 0
    for i in ids:
        m, eds, demo = parse(f"{root}/tools/seeds/{i}.txt")
        d = scratch(); r = d + "/repo"
        try:
            out = f"{root}/seeded/{i}"; os.makedirs(out, exist_ok=True)
            open(out + "/main.go", "w").write(demo)
            open(out + "/demo.sh", "w").write(DEMO.replace("go build ", "go build " + m["build"] + " " * bool(m["build"]))); os.chmod(out + "/demo.sh", 0o755)
            c = sh(f"bash {out}/demo.sh", cwd=r, timeout=300)
            msg = []
            if c.returncode: msg.append(f"demo fails on the clean tree ({c.returncode}): {(c.stdout+c.stderr)[-600:]}")
            for fn, old, new in eds:
                p = f"{r}/{fn}"; s = open(p).read()
                if s.count(old) != 1: msg.append(f"{fn}: {s.count(old)} matches"); continue
                open(p, "w").write(s.replace(old, new))
            open(out + "/patch.diff", "w").write(sh("git diff", cwd=r).stdout)
            json.dump(dict(property=m["property"], needs=m["needs"], what_it_breaks=m["breaks"]), open(out + "/meta.json", "w"), indent=1)
            b = sh(". /opt/vp/env.sh; go build ./...", cwd=r)
            if b.returncode: msg.append("build: " + b.stderr[-400:])
            t = tests(d)
            if t: msg.append("stable tests fail: %s" % t)
            p = sh(f"bash {out}/demo.sh", cwd=r, timeout=300)
            if p.returncode in (0, 3): msg.append(f"demo exits {p.returncode} on the patched tree {p.stderr[-300:]}")
            line = ""
            if check:
                e = dict(os.environ, VERIF_REPO=r, VERIF_TIER="quick", VERIF_SEED="1")
                q = sh(f"./check.sh -noevidence {m['property']}", cwd=root, env=e)
                v = [l for l in q.stdout.splitlines() if l.startswith("VIOLATION")]
                line = f"check exit {q.returncode} {v[:1]}"
                if q.returncode not in (0,1): line += (q.stdout+q.stderr)[-500:]
            print(i, m["property"], "OK" if not msg else "BAD " + " | ".join(msg), line, flush=True)
            bad += bool(msg)
        finally:
            shutil.rmtree(d)
    sys.exit(bad > 0)
main()
