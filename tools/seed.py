"""seed.py ID PROP NEEDS WHAT: turns the edits in /tmp/sw (a copy of /repo) plus /tmp/demo/main.rs into seeded/ID
after confirming that the tests still pass and that the demonstration tells the two trees apart."""
import json, os, shutil, subprocess, sys
ID, PROP, NEEDS, WHAT = sys.argv[1:5]
SW, DEMO = "/tmp/sw", "/tmp/demo/main.rs"
env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR="/tmp/sw/target")
def sh(c, cwd=SW):
    r = subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout
diff = subprocess.run("git diff", shell=True, cwd=SW, stdout=subprocess.PIPE).stdout
assert diff, "no change"
d = "/verif/seeded/" + ID
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "wb").write(diff)
shutil.copy(DEMO, d + "/main.rs")
open(d + "/demo.sh", "w").write(open(os.path.dirname(os.path.abspath(__file__)) + ("/demo_reject.sh" if open(DEMO).read().startswith("// rejected: ") else "/demo_template.sh")).read())
json.dump({"property": PROP, "needs": NEEDS, "what_it_breaks": WHAT}, open(d + "/meta.json", "w"), indent=1)
rc, out = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8")
import re
fails = re.findall(r"^test (.*) \.\.\. FAILED", out, re.M)
ok = len(re.findall(r"^test .* \.\.\. ok", out, re.M))
print("tests", rc, "ok", ok, "failed", fails[:5])
if rc: print(out[-1500:])
rc1, o1 = sh("bash %s/demo.sh" % d)
print("demo with patch:", rc1, o1[-400:])
sh("git checkout -- .")
rc0, o0 = sh("bash %s/demo.sh" % d)
print("demo without:", rc0, o0[-400:] if rc0 else "")
good = rc == 0 and rc1 != 0 and rc0 == 0
print("KEPT" if good else "REJECTED", ID)
if not good:
    shutil.rmtree(d)
