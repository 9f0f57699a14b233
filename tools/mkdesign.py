#!/usr/bin/env python3
"""Assembles DESIGN.md."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "lib"))
from checks import CHECKS
rd = lambda p: open(os.path.join(H, p)).read()
out = [rd("doc/head.md"), "\n## Properties\n"]
props = [json.loads(l) for l in rd("properties.jsonl").splitlines() if l.strip()]
try:
    from checks import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
for p in props:
    c = CHECKS.get(p["id"])
    out.append("### %s %s\n" % (p["id"], p["title"]))
    if not c:
        out.append("Not applicable: %s\n" % NOT_APPLICABLE.get(p["id"], ""))
        continue
    out.append(c["note"] + "\n")
    ok = [m for m in c.get("models", []) if m.get("expect") != "error"]
    bad = [m for m in c.get("models", []) if m.get("expect") == "error"]
    if ok:
        out.append("* models (exhaustive): " + ", ".join("`%s/%s`%s" % (m["module"], m["cfg"], " (thorough)" if m.get("tier") == "thorough" else "") for m in ok)
                   + ("; broken variants that must be rejected: %d" % len(bad) if bad else ""))
    for t in c.get("traces", []):
        out.append("* real code: `%s`%s, variant `%s`, validated by `%s`: %d histories quick, %d thorough%s" % (
            t["driver"], " " + t["mode"] if t.get("mode") else "", t["variant"], t["spec"], t["quick"], t["thorough"],
            "; histories generated by TLC from `%s`" % t["gen"]["module"] if t.get("gen") else ""))
    if c.get("why"):
        out.append("* why tests cannot settle it: " + c["why"])
    if c.get("assumptions"):
        out.append("* bounds and assumptions: " + "; ".join(c["assumptions"]))
    out.append("")
out.append("## Genuine defects found (all repaired, one `fix:` commit each)\n")
for l in rd("known-findings.jsonl").splitlines():
    if l.strip():
        d = json.loads(l)
        out.append("* %s %s `%s` %s" % (d["property"], d["kind"], d.get("commit", ""), d["what"]))
mp = os.path.join(H, "doc", "mutations.jsonl")
if os.path.exists(mp):
    ms = [json.loads(l) for l in open(mp) if l.strip()]
    out.append("\n## Planted bugs\n")
    out.append(rd("doc/mutations.md"))
    out.append("| bug | property | where | what | result |\n|---|---|---|---|---|")
    for m in ms:
        out.append("| %s | %s | %s | %s | %s |" % (m["id"], m["property"], m["file"], m["what"].replace("|", "\\|"), m["result"]))
out.append("\n" + rd("doc/tail.md"))
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out))
