"""writes MANIFEST.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVELS = json.load(open(os.path.join(HERE, "tools", "levels.json"), encoding="utf8"))
checks = []
for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf8"):
    p = json.loads(line)["id"]
    lv = LEVELS.get(p, {})
    checks.append(dict(
        property=p, quick_cmd=f"./check {p} quick", thorough_cmd=f"./check {p} thorough",
        technique=lv.get("technique", LEVELS["default"]["technique"]), level=lv.get("level", LEVELS["default"]["level"]),
        level_note=lv.get("level_note", LEVELS["default"]["level_note"])))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=LEVELS.get("not_applicable", []), notes=LEVELS["notes"])
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf8"), indent=1)
