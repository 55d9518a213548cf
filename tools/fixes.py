#!/usr/bin/env python3
"""writes the fixed entries of known_findings.json from the fix commits of /repo"""
import json, os, subprocess
PROP = """890c6ec C17
9b68781 C16
8996575 C16
f772362 C03
5ee8f33 C19
df7bbec C19
0417bfe C19
ef6ea6d C19
953e397 C05
d41a3c6 C04
e63b98e C14
6d90fd3 C12
39a0997 C03
234766b C03
a6ba877 C03
43ea047 C03
40c6091 C08
42a115d C08
ee38764 C03
a4f9af9 C03
fd6f7d3 C03
cd9479f C08
b549aae C31
bb7822f C16
8dd5e22 C16
e31b4dc C18
5752bf9 C14
af9f012 C14
d86af60 C15
3fea3a5 C09
123486e C09
82dd17c C26
c5bc9b0 C13
7aa0ec1 C15
48e4e0b C08
8ac6067 C08
161a9aa C08
717b11c C03
d02636b C01
a60b5c8 C01
4b11f57 C04
2f6d185 C31
aeaf71c C26
7b965f5 C26
44ada4b C26
818a908 C08
8c44cb2 C08
e6838b9 C08
2827e40 C08
6bcb39c C09
e2efb87 C09
431dbe9 C09
1975da8 C32
abe2580 C13
23f074a C13
b277910 C13
a04abb3 C33
19e6a7e C13
200b27c C27
5c05806 C13
cb7d35b C33
cf3932c C27
f2caaff C27
feb6d61 C27
3948c65 C27
79627b6 C13
12a5693 C10
fb58500 C10
8eb8b0b C10
262e121 C10
e10c8fa C10
f725bee C10
4b77838 C10
8224158 C26
08aa84e C26
f1e9b83 C26
fd5c4ea C35
55f0ba4 C35
d7ad955 C35
cbf7a10 C34
f2e13c5 C35
cd6568e C08
6e0088b C35
ad2c9d1 C35
24d44bb C32
019cfc9 C32
ab15ae2 C12
1f4bc65 C12
8b9911d C15
a452b35 C15
8a6faab C25
5233d31 C14
b73fab8 C14
bfd2b2e C14"""
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop = dict(l.split() for l in PROP.splitlines())
out = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=-1, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        if h not in prop:
            print("no property for", l)
            continue
        out.append("fixed: property=%s %s repaired: %s" % (prop[h], h, s[4:].strip()))
p = os.path.join(HERE, "known_findings.json")
d = json.load(open(p)); d["fixed"] = out
json.dump(d, open(p, "w"), indent=1, ensure_ascii=False); open(p, "a").write("\n")
