#!/usr/bin/env python3
"""Rewrites the table of seeded bugs at the end of DESIGN.md."""
import glob, json
NOTE = {
    "C04-write-timeout-retry": "added short writes and net error kinds to the transport's faults",
    "C10-lock-while-reading": "added the idle check that no write is stuck",
    "C03-noise-limit": "added long runs",
    "C05-getcloseerr-lock": "added the idle query of GetCloseErr",
    "C11-imu-alias": "a violation of another property no longer hides one of the own",
    "C11-extension-flag": "a violation of another property no longer hides one of the own",
    "C22-scratch-global": "texts are set again and again in reused objects",
    "C18-crc-pool": "runs are compared with their parts alone, process state is kept between runs",
}
s = open("/verif/DESIGN.md").read()
i = s.index("<!-- seeds -->") if "<!-- seeds -->" in s else s.index("SEEDTABLE")
out = ["<!-- seeds -->", "| bug (detected by the check of its property) | needs |", "|---|---|"]
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    k = f.split("/")[-2]
    n = m["needs"]
    if k in NOTE:
        n += " - *strengthening: " + NOTE[k] + "*"
    out.append("| %s | %s |" % (k, n))
open("/verif/DESIGN.md", "w").write(s[:i] + "\n".join(out) + "\n")
