"""run_seeded.py [ids...] [--seed N]: which planted bugs do the checks catch?

For every seeded/<id>: copy /repo's HEAD to a scratch folder, apply the patch, run the quick check of its
property against the copy (VERIF_REPO) and print one table row.  /repo itself is not touched."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
seed = "1"
if "--seed" in args:
    i = args.index("--seed")
    seed = args[i + 1]
    del args[i:i + 2]
ids = args or sorted(os.listdir(os.path.join(HERE, "seeded")))
missed = []
for b in ids:
    d = os.path.join(HERE, "seeded", b)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    top = tempfile.mkdtemp(prefix="vp_seed_")
    try:
        w, v = os.path.join(top, "repo"), os.path.join(top, "verif")
        os.makedirs(w)
        subprocess.check_call("git -C /repo archive HEAD | tar x -C " + w, shell=True)
        subprocess.check_call(["git", "init", "-q"], cwd=w)
        subprocess.check_call(["git", "apply", os.path.join(d, "patch.diff")], cwd=w)
        os.makedirs(v)
        shutil.copytree(os.path.join(HERE, "vp"), os.path.join(v, "vp"), ignore=shutil.ignore_patterns("__pycache__"))
        for f in ("check.py", "KNOWN_FINDINGS.txt", "properties.jsonl"):
            shutil.copy(os.path.join(HERE, f), v)
        r = subprocess.run([sys.executable, "check.py", prop, "--tier", "quick"], cwd=v, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=w, VERIF_SEED=seed, VERIF_TIER="quick"))
        line = [q for q in r.stdout.splitlines() if q.startswith("unit ")]
        unit = line[0].split()[1].rstrip(":") if line else "-"
        print("| %s | %s | %s | %s |" % (b, prop, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc %d" % r.returncode), unit), flush=True)
        if r.returncode != 1:
            missed.append(b)
    finally:
        shutil.rmtree(top)
print("missed: %s" % (", ".join(missed) or "none"))
