"""plant.py <plants.py> [id...]: writes seeded/<id>/patch.diff and meta.json from a list of replacements."""
import json, os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
for id, prop, *rest in ns["P"]:
    if sys.argv[2:] and id not in sys.argv[2:]:
        continue
    if isinstance(rest[0], list):
        edits, needs, breaks = rest
    else:
        edits, needs, breaks = [tuple(rest[:3])], rest[3], rest[4]
    t = tempfile.mkdtemp(prefix="plant")
    subprocess.check_call(["git", "clone", "-q", "--no-hardlinks", "/repo", t])
    for f, old, new in edits:
        s = open(f"{t}/{f}").read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(f"{t}/{f}", "w").write(s.replace(old, new))
    d = subprocess.check_output(["git", "-C", t, "diff"], text=True)
    o = f"/verif/seeded/{id}"
    os.makedirs(o, exist_ok=True)
    open(f"{o}/patch.diff", "w").write(d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{o}/meta.json", "w"), indent=1)
    shutil.rmtree(t)
    print(id, len(d))
