"""The table of planted bugs at the end of DESIGN.md, from seeded/*/meta.json"""
import json
from pathlib import Path

VERIF = Path(__file__).resolve().parents[1]
HEAD = "## 6. Catches\n"


def main():
    design = VERIF / "DESIGN.md"
    text = design.read_text().split(HEAD)[0].rstrip("\n") + "\n\n"
    rows = [HEAD, "Each planted bug is reported by the quick check of its property (seed 1).\n", "| bug | check | needs, to show |", "|---|---|---|"]
    for meta_path in sorted((VERIF / "seeded").glob("*/meta.json")):
        meta = json.loads(meta_path.read_text())
        rows.append(f"| {meta_path.parent.name} | {meta['property']} | {' '.join(meta['needs'].split())} |")
    design.write_text(text + "\n".join(rows) + "\n")
    print(len(rows) - 4, "planted bugs")


if __name__ == "__main__":
    main()
