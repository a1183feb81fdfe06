"""Repeat the failing case of a replay file on the real code:
`python3 -m vp.replay evidence/replay-C01.json`."""

import json
import os
import shutil
import subprocess
import sys

from . import check as K


def main():
    with open(sys.argv[1]) as f:
        doc = json.load(f)
    for o in doc["failed_obligations"]:
        print("failed obligation: %s: %s\n%s" % (o["function"], o["obligation"], o["verifier_output"]))
    case = doc.get("failing_case")
    if not case:
        print("no failing input was found for the failed obligations")
        return 0
    s = K.Search(doc["property"], 0)
    s.prepare()
    if s.error:
        print(s.error)
        return 2
    os.makedirs(s.dir, exist_ok=True)
    rc = subprocess.call(s.cmd("case", doc["property"], str(case["case"])))
    shutil.rmtree(s.dir, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
