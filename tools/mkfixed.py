"""Writes the list of repaired defects of known_findings.json from the fix commits of /repo."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = """ce18f09 C07
f827401 C01
ab671c9 C07
b4af5ca C07
0198cab C01
8695e87 C13
001d343 C03
a6cf2c3 C03
1235b02 C06
a8c1c74 C06
f29232c C08
6039c89 C06
ddf8d38 C06
4a2372d C06
98b0a13 C22
d4d1376 C10
364aad1 C13
b89b2ab C06
4adc0cf C21
e59f10e C21
ae30ec8 C21
97ed971 C10
c7a646e C09
9321976 C09
49f7a6e C09
cd4a8d9 C12
336440d C10
303262c C10
22c0b57 C08
b07134c C10
e7423b2 C10
90e1279 C04
f928a8b C15
8f992fe C16
e625baf C16
bb1a946 C16
fe80ebf C09
15ca7df C01
c324013 C01
b142822 C17
1a8396a C17
d76eb74 C17
b3a3ae2 C17
d007b51 C17
52d48e2 C17
6365051 C18
2c62fd6 C18
780a5cb C18
915fb78 C13
44818c1 C01
bb3bd8e C04
2e5f087 C08
8d792e7 C11
28729ec C12
9f36d80 C16
abeb7d7 C17
6434073 C17
306c1b7 C18
535ef5d C18
69fffe0 C18
58f53e3 C01
8c11288 C01
0e89468 C22
7f92cbe C18
fd40c60 C18
1b8a130 C18
eaa3b32 C17
6de36de C22
13bf472 C08
a3c5a0d C22
76874dd C01
cab33d5 C06
8841463 C01
b8cb2a4 C25
e64c992 C23
574facf C23
8646c05 C23
eb82fac C23
f9c0032 C23
d5e1501 C23
701523a C23
ce466a9 C23
3efed9d C23
18dfbe5 C23
cee7f42 C23
c70e70e C23
90ff455 C23
e689c6c C23
dea3cfc C25
1f8afd8 C24
df871e3 C24
4897d31 C24
05c064e C23
c42205c C25
e98c222 C23
128cb6a C23
85825a6 C25
ce59af0 C13
a283296 C26
a31a5fc C25
14e3996 C23
673e88e C25
3a28cf8 C25
64a7c39 C25
2cc5ad1 C26
192315b C22
94fffa9 C25
9d2b7a6 C25"""
own = dict(l.split() for l in MAP.splitlines())
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        p = own.get(h[:7])
        assert p, "no property for " + l
        fixed.append("fixed: property=%s %s %s" % (p, h, s[5:]))
path = os.path.join(V, "known_findings.json")
d = json.load(open(path))
d["fixed"] = fixed
json.dump(d, open(path, "w"), indent=1)
open(path, "a").write("\n")
print(len(fixed), "fixed")
