#!/usr/bin/env python3
"""writes KNOWN_FINDINGS.txt: findings that are recorded, and the repaired ones (from the fix: commits of /repo)"""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHAT = "a leader of a two-server cluster removes an unreachable server without its acknowledgement although that server has not saved the two-server membership yet; with the help of the previously removed third server it is elected and committed entries are lost"
out = ["# Findings in datatechnology/cornerstone. 'finding:' lines are defects that are recorded, not repaired; 'fixed:' lines suppress nothing.",
       "finding: property=C02 binary=sim_raft replay=known/forced-removal.replay " + WHAT,
       "finding: property=C04 binary=sim_raft replay=known/forced-removal-C04.replay " + WHAT,
       "finding: property=C13 binary=sim_raft replay=known/forced-removal-C13.replay " + WHAT,
       "finding: property=C08 binary=sim_raft replay=known/self-removal.replay a server that was told to leave and gives up waiting saves the membership without itself under the index of the one before; started again while its removal has not taken effect, it makes snapshots that carry that membership",
       "finding: property=C06 binary=sim_full replay=known/silent-joiner.replay a member that has not seen its own addition committed does not stand for election; when it alone has the newest log (the leader removed itself right after), no leader is elected although a majority runs",
       "finding: property=C06 binary=sim_raft replay=known/self-removal-C06.replay a server that was told to leave and gives up waiting leaves although its removal was never logged; the other members, which do not know yet that the latest membership is committed, still count with the one before, of which they are no majority, and elect no leader"]
MAP = {}
exec(open(os.path.join(V, "tools", "fixmap.py")).read())
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], text=True)
for line in log.splitlines():
    h, s = line.split("\t", 1)
    if s.startswith("fix:"):
        p = MAP.get(s[5:])
        if p is None: print("unmapped:", s); p = "C07"
        out.append("fixed: property=%s %s %s" % (p, h, s[5:]))
open(os.path.join(V, "KNOWN_FINDINGS.txt"), "w").write("\n".join(out) + "\n")
