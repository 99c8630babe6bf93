#!/usr/bin/env python3
"""usage: tools/seed.py [-j N] [--no-tests] [--no-check] [--thorough] ID...
Confirms planted bugs of seeded/ in scratch copies under /tmp/sb (removed afterwards): the patch applies and builds, the
demonstration passes without it and fails with it, the stable tests pass, and which of this framework's checks report it."""
import concurrent.futures, glob, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
J = 2
opts = [a for a in args if a.startswith("--")]
if "-j" in args:
    i = args.index("-j"); J = int(args[i + 1]); del args[i:i + 2]
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(b):
    S = "/tmp/sb/" + b
    shutil.rmtree(S, ignore_errors=True)
    os.makedirs(S)
    res = {"id": b}
    try:
        src = V + "/seeded/" + b
        meta = json.load(open(src + "/meta.json"))
        R = S + "/repo"
        sh(["cp", "-a", "/repo", R])
        sh(["git", "-C", R, "checkout", "-q", "--", "."])
        os.makedirs(S + "/demo")
        for f in os.listdir(src):
            if not f.endswith(".diff") and f != "meta.json":
                shutil.copy(src + "/" + f, S + "/demo/" + f)
        sh(["cp", "-a", "/opt/vp", S + "/vp"])
        for f in ["build.sh", "test.sh", "lib/env.sh", "lib/prep.py", "lib/run.py"]:
            p = S + "/vp/" + f
            s = open(p).read().replace("/opt/vp", S + "/vp").replace('"/repo"', '"%s"' % R).replace("cd /repo", "cd " + R).replace("/repo/build", R + "/build")
            open(p, "w").write(s)
        r = sh(["bash", S + "/vp/build.sh"])
        if r.returncode:
            res["build0"] = r.stdout[-500:]; return res
        res["demo0"] = sh(["bash", S + "/demo/demo.sh"], cwd=R).returncode
        r = sh(["git", "-C", R, "apply", src + "/patch.diff"])
        if r.returncode: res["apply"] = r.stdout; return res
        r = sh(["bash", S + "/vp/build.sh"])
        if r.returncode: res["build"] = r.stdout[-1500:]; return res
        t = time.time()
        d = sh(["bash", S + "/demo/demo.sh"], cwd=R)
        res["demo1"] = d.returncode
        res["demo_out"] = d.stdout[-300:]
        res["demo_s"] = round(time.time() - t)
        if "--no-check" not in opts:
            os.makedirs(S + "/verif")
            for x in ["harness", "lib", "bin", "spec", "tools", "KNOWN_FINDINGS", "properties.jsonl", "MANIFEST.json"]:
                sh(["cp", "-a", V + "/" + x, S + "/verif/"])
            if os.path.exists(V + "/out/java"):
                os.makedirs(S + "/verif/out"); sh(["cp", "-a", V + "/out/java", S + "/verif/out/"])
            t = time.time()
            c = sh([S + "/verif/bin/check", meta["property"], "thorough" if "--thorough" in opts else "quick"], env=dict(os.environ, VP_REPO=R))
            res["check"] = c.returncode
            res["check_s"] = round(time.time() - t)
            res["viol"] = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")][:2] or c.stdout[-300:]
        if "--no-tests" not in opts:
            r = sh(["bash", S + "/vp/test.sh", S + "/tests.json"])
            got = set(json.load(open(S + "/tests.json"))["passed"])
            res["tests_missing"] = sorted(STABLE - got)
        return res
    except Exception as e:
        res["error"] = repr(e); return res
    finally:
        shutil.rmtree(S, ignore_errors=True)


with concurrent.futures.ThreadPoolExecutor(J) as ex:
    for fut in concurrent.futures.as_completed([ex.submit(one, i) for i in ids]):
        res = fut.result(); print(json.dumps(res), flush=True)
