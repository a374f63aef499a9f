"""tools/shard.py CHECK [tier] [secs] [seed] [shard] [extra...]: one shard of the native harness, its report summarized."""
import sys, os, json, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import driver
a = sys.argv[1:] + [None] * 5
m = driver.build("mon")
w = os.path.join(driver.VERIF, "work", "shard-%d" % os.getpid())
os.makedirs(w, exist_ok=True)
r = subprocess.run([m, a[0], "--tier", a[1] or "quick", "--secs", a[2] or "30", "--seed", a[3] or "1", "--shard", a[4] or "0/8",
                    "--out", w + "/o", "--hashes", w + "/h", "--cursor", w + "/c"] + [x for x in sys.argv[6:]])
print("exit", r.returncode, driver.read_cursor(w + "/c") if r.returncode not in (0, 1) else "")
d = json.load(open(w + "/o"))
print(d["evaluations"], d["secs"])
for k in d["obs"]:
    print("   ", k, d["obs"][k])
for v in d["violations"]:
    print(v)
