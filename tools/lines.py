"""Union over evidence/*.json of the package lines the checks ran; prints the lines no check reached."""
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from otfmon.runner import body_lines, spans  # noqa: E402

seen = {}
for f in sorted((ROOT / "evidence").glob("C*.json")):
    for name, d in json.loads(f.read_text())["coverage"].get("code_lines_reached", {}).items():
        for part in d["lines"].split():
            a, _, b = part.partition("-")
            seen.setdefault(name, set()).update(range(int(a), int(b or a) + 1))
for name, lines in body_lines().items():
    left = sorted(lines - seen.get(name, set()))
    print(f"{name}: {len(lines) - len(left)} of {len(lines)} function lines run" + (f"; never: {spans(left)}" if left else ""))
