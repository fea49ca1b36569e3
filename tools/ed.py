"""edit helper keeping line ends: ed.py FILE <<< python list of (old, new)"""
import sys, ast
p = sys.argv[1]
s = open(p, newline='').read()
crlf = '\r\n' in s
for old, new in ast.literal_eval(sys.stdin.read()):
    if crlf:
        old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
    assert s.count(old) == 1, (s.count(old), old)
    s = s.replace(old, new)
open(p, 'w', newline='').write(s)
