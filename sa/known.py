"""Known findings: reviewed genuine defects that are recorded, not repaired."""
import os
import re

FILE = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "known-findings.txt")


def load():
    out = []
    if os.path.exists(FILE):
        for l in open(FILE):
            m = re.match(r"finding: property=(\S+) rule=(\S+) key=(\S+) (.*)",
                         l.strip())
            if m:
                out.append(m.groups())
    return out


def match(pid, rule, key):
    for p, r, k, text in load():
        if p == pid and r == rule and k == key:
            return text
    return None
