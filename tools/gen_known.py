"""known_findings.txt from the fix commits"""
import subprocess
MAP = {"003943e": "C03", "91e18a0": "C06", "41acc4f": "C09", "9049dcf": "C15", "712cbfe": "C15", "cb5b438": "C16", "32c7ddf": "C18", "9dee74f": "C19", "a61ddff": "C19",
       "cb006aa": "C23", "9fc42c5": "C23", "97253f6": "C24", "5dc9741": "C24", "6a1c76d": "C24", "43461ac": "C25", "61c93a7": "C27", "bc72dc7": "C27", "50168e5": "C26",
       "993a7de": "C32", "7ee7049": "C32", "d01bcae": "C31", "2d7be54": "C20", "2f45bf7": "C20", "5b2d8f0": "C20", "5c204b9": "C31"}
EXTRA = {"2d7be54": "C21", "2f45bf7": "C15", "5b2d8f0": "C18"}
out = ["# Findings of the checks on the original tree.",
       "# 'fixed:' entries are repaired by the named commit in /repo and suppress nothing.",
       "# 'KNOWN-FINDING:' entries (none at present) would be defects that are recorded and not repaired."]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %H %s"], text=True).splitlines()
for l in log:
    h, full, s = l.split(" ", 2)
    if s.startswith("fix:"):
        for p in [MAP[h[:7]]] + ([EXTRA[h[:7]]] if h[:7] in EXTRA else []):
            out.append("fixed: property=%s %s %s" % (p, h[:7], s[5:]))
open("/verif/known_findings.txt", "w").write("\n".join(out) + "\n")
