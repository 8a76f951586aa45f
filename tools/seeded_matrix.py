"""Run the check of each planted bug's property against a scratch copy of /repo with the bug applied; print a table.

usage: seeded_matrix.py [--write] [ids...]     (--write replaces the table between the markers in DESIGN.md)
"""
import json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = args or sorted(os.listdir(HERE + "/seeded"))
scratch = tempfile.mkdtemp(prefix="seeded_")
rows = []
try:
    for sid in ids:
        d = f"{HERE}/seeded/{sid}"
        meta = json.load(open(d + "/meta.json"))
        tree = f"{scratch}/r"
        shutil.rmtree(tree, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
        ap = subprocess.run(["git", "-C", tree, "apply", d + "/patch.diff"])
        if ap.returncode:
            rows.append((meta["property"], sid, meta["needs"], "DOES NOT APPLY"))
            continue
        out = subprocess.run([HERE + "/check.sh", meta["property"], "--no-evidence", "--seed", "1"], capture_output=True, text=True,
                             env={**os.environ, "OTFMON_REPO": tree})
        hit = out.returncode == 1 and f"VIOLATION property={meta['property']} " in out.stdout
        rows.append((meta["property"], sid, meta["needs"], "caught" if hit else f"missed ({out.returncode})"))
        print(*rows[-1], sep=" | ", flush=True)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
rows.sort()
if "--write" in sys.argv:
    table = "| property | planted bug | needs | its check |\n|---|---|---|---|\n" + "".join(
        f"| {p} | {s} | {n.replace('|', '/')} | {r} |\n" for p, s, n, r in rows)
    text = open(HERE + "/DESIGN.md").read()
    text = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda m: m[1] + table + m[2], text, flags=re.S)
    open(HERE + "/DESIGN.md", "w").write(text)
print(sum(r[3] == "caught" for r in rows), "of", len(rows), "caught")
