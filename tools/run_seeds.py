"""usage: run_seeds.py [ID ...]: runs the property's check against a scratch
copy of /repo with each planted bug; prints who catches what."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(i):
    d = f"{HERE}/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="rs.", dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", tmp + "/repo"],
                       check=True)
        subprocess.run(["git", "-C", tmp + "/repo", "apply",
                        d + "/patch.diff"], check=True)
        shutil.copytree(HERE, tmp + "/verif", ignore=shutil.ignore_patterns(
            "seeded", "evidence", ".git", "__pycache__"))
        r = subprocess.run(["bash", tmp + "/verif/run.sh", prop, "quick"],
                           env=dict(os.environ, PYVC_REPO=tmp + "/repo",
                                    VERIF_SEED="1"),
                           capture_output=True, text=True)
        out = r.stdout.strip().splitlines()
        w = [l for l in out if l.startswith("failed obligation")]
        return (r.returncode, out[-1][:100] if out else r.stderr[-300:],
                w[:1], [l[:200] for l in out if l.startswith("undecided")])
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(HERE + "/seeded"))
    path = HERE + "/tools/caught.json"
    table = json.load(open(path)) if os.path.exists(path) else {}
    with ThreadPoolExecutor(2) as ex:
        for i, r in zip(ids, ex.map(run, ids)):
            w = " ".join(r[2]).replace("failed obligation: ", "")
            table[i] = w.split(" (")[0] if r[0] == 1 else "missed"
            print("CAUGHT" if r[0] == 1 else f"missed({r[0]})", i, *r[1:],
                  flush=True)
    table = {i: table[i] for i in sorted(table)
             if os.path.isdir(f"{HERE}/seeded/{i}")}
    with open(path, "w") as f:
        json.dump(table, f, indent=0)
        f.write("\n")
    d = open(HERE + "/DESIGN.md").read()
    a = d.index("<!-- caught -->")
    rows = []
    for i, w in table.items():
        m = json.load(open(f"{HERE}/seeded/{i}/meta.json"))
        rows.append(f"| {i} | {m['what_it_breaks']} | {w} |")
    open(HERE + "/DESIGN.md", "w").write(
        d[:a] + "<!-- caught -->\n\n| bug | breaks | caught by |\n|-|-|-|\n"
        + "\n".join(rows) + "\n")
