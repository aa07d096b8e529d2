#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
from pathlib import Path
import plan

ROOT = Path(__file__).resolve().parent.parent
TECH = {
    "C22": "TLA+ specification of the loggers; every recorded logger execution validated by TLC",
    "C23": "TLA+ specification of the generated client code; what the real generator emits is interpreted, and validated by TLC",
    "C24": "TLA+ specification of clients; behaviours of the model and random histories driven through the real client, "
           "interpreted, and validated by TLC",
    "C28": "TLA+ specification of clients and of what their listeners are told; histories and crafted entries driven through the "
           "real client, interpreted, and validated by TLC",
    "C29": "TLA+ specification of clients; bytes and entries of other versions of schemas given to the real client, interpreted, "
           "and validated by TLC",
    "C25": "TLA+ specification of which schemas are valid, every case classified by TLC; the compiler's verdicts validated against it",
    "C27": "TLA+ specification; twin executions recorded from the code validated by TLC",
    "C08": "TLA+ model of threads sharing a logger, all interleavings checked by TLC and forced on the code; recorded traces validated",
}
LEVEL_NOTE = ("TLC explores the design exhaustively within small bounds, and validates every execution recorded from the code, line by "
              "line, against the same specification; executions are generated from the model's state graph and by random drivers. "
              "The code is covered as far as those executions go.")
NOT = {
}


def main():
    ids = [json.loads(l)["id"] for l in (ROOT / "properties.jsonl").read_text().splitlines()]
    checks, rest = [], []
    for p in ids:
        if p in plan.PLAN:
            checks.append(dict(
                property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                technique=TECH.get(p, "TLA+ specification checked with TLC; recorded traces of the code validated against it, and "
                                      "behaviours generated from it replayed into the code"),
                level="model_checking", level_note=LEVEL_NOTE))
        else:
            rest.append(dict(property=p, reason=NOT.get(p, "its check is not built yet")))
    data = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=rest)
    (ROOT / "MANIFEST.json").write_text(json.dumps(data, indent=1) + "\n")


if __name__ == "__main__":
    main()
