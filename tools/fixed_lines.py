"""Writes the 'fixed:' lines of known_findings.txt from /repo's fix commits (development tool, not used by checks)."""
import subprocess, re
P = dict(l.split() for l in """8308493 C01
2ac4fe5 C01
42a429d C01
2fe6612 C01
2b1b9f4 C02
d86043f C02
7ad9173 C02
66e9771 C02
9675e00 C02
637f8e3 C02
8d1a17a C02
9be780d C03
476e461 C04
dc2aafe C05
e2ef58b C06
70a35e8 C06
425d4e0 C06
f36b238 C06
2868b74 C06
e0b497b C06
feec441 C07
f9f7a9d C07
0809a66 C08
707b2ed C08
df4536d C08
617937a C09
312a822 C09
7332750 C10
6498370 C10
ec527fc C11
1fc3803 C12
87f6303 C11
9f980af C11
c5573f7 C11
4c30f2c C11
bcd5342 C15
338e681 C12
1b2eec9 C11
78f73b7 C11
f6489aa C13
84fa4f6 C11
f4319e9 C14
94723a1 C16
177a01a C16
8f7b3fc C16
0252116 C34
69fe953 C18
e8c8cf1 C20
801c9c3 C17
cd682fa C20
49498f5 C17
1372051 C20
471f26b C20
5551d96 C18
1db6d27 C18
4d3a7d8 C19
beb35c4 C19
e3bd88f C19
42f4562 C19
af905a8 C19
7384733 C20
2b27bd4 C20
fe83263 C21
fb1a600 C20
96f817b C21
fe12a14 C35
0ee1a1e C30
3421ba2 C22
761668a C22
a1fd0e4 C22
fea5fce C22
f90ee07 C22
7e5c5fd C22
f456d37 C23
ba0c5c2 C23
f1e5a7c C23
25f12cc C22
0eda700 C25
1c39ff3 C25
5834c7d C25
d23466e C25
b9d96c3 C27
d93a556 C27
679ec2b C27
5878698 C27
c85c608 C26
210ea20 C26
961826d C26
6613862 C28
8ad090c C28
274f66c C28
0cb2e0d C28
febd57b C28
c7fb49e C28
dbc16b2 C28
9c2de8b C29
8a19592 C29
""".splitlines())
import os
extra = "/verif/tools/fixed_map.txt"
if os.path.exists(extra):
    P.update(l.split() for l in open(extra) if l.strip())
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "d52c5b8..HEAD"], capture_output=True, text=True).stdout
f = "/verif/known_findings.txt"
keep = [l for l in open(f) if l.strip() and not l.startswith("fixed:")]
out = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    if h not in P:
        print("no property for", l)
        continue
    out.append(f"fixed: property={P[h]} {h} {s[5:]}\n")
open(f, "w").writelines(keep + out)
