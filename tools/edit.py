"""edit.py FILE <<< JSON [[old,new],...]  exact replacement preserving CRLF."""
import sys, json
p = sys.argv[1]
b = open(p, newline="").read()
crlf = "\r\n" in b
s = b.replace("\r\n", "\n")
for old, new in json.load(sys.stdin):
    assert s.count(old) == 1, (s.count(old), old)
    s = s.replace(old, new)
if crlf:
    s = s.replace("\n", "\r\n")
open(p, "w", newline="").write(s)
