"""developer tool: edit.py FILE < 'OLD\n====\nNEW' : exact, unique replacement in a /repo file"""
import sys
p = "/repo/crates/" + sys.argv[1]
t = open(p).read()
o, n = sys.stdin.read().rstrip("\n").split("\n====\n")
assert t.count(o) == 1, (t.count(o), o)
open(p, "w").write(t.replace(o, n))
