"""Writes MANIFEST.json (dev helper; the result is committed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import meta, props
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{d}/properties.jsonl")]
NA = []
m = dict(
    version=1,
    setup_cmd="python3 check.py --setup",
    hooks=dict(guard="verif_small, verif_fallback (rustc cfg)", enable="RUSTFLAGS='--cfg verif_small' and/or '--cfg verif_fallback', set by check.py per build unit",
               source_commits=["1837530"]),
    checks=[dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}", evidence_file=f"evidence/{i}.json",
                 technique=meta.TECH, level="model_checking", level_note=meta.PROPS[i].get("note", meta.NOTE)) for i in ids if i in props.CHECKS],
    not_applicable=NA,
)
json.dump(m, open(f"{d}/MANIFEST.json", "w"), indent=1)
open(f"{d}/MANIFEST.json", "a").write("\n")
