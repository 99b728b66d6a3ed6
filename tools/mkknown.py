"""writes known_findings.txt: one "fixed:" line for every fix commit in /repo (no finding is left unrepaired)"""
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = """
1b5688e C12|0b8e841 C12|4474d5b C12|579f3ba C12|b948fb5 C12|bf9dd43 C12|86d2315 C12|d3f644f C12|b765536 C10|ca47b45 C10|a4da6cb C10
bbe838f C10|5b7b570 C05|2f3b3e5 C01|952c5d0 C02|c8f3a89 C06|f89a0b0 C05|c60071e C21|66c0d1b C04|2f70aab C11|09dae5b C04|be8dd68 C01
2d30290 C17|315c525 C05|57a2027 C08|378105c C16|2cbb722 C16|7348765 C16|517a7f4 C14|04844eb C14|ffc1646 C14|be85a5b C18|0d03384 C12
0aa1204 C12|11245f6 C18|0cac1ac C13|e00e7b3 C13|5a04995 C18|e09a19a C07|b4d6777 C10|2531e6f C09|abd4467 C12|78c1b99 C09|d559edc C09
ef1d37a C20|aab9499 C10|ddc9f49 C13|a2cd72b C13|ca222cd C13|960839a C13|9635de6 C13|4e40bd8 C13|c22bced C13|78a3a2d C13|37511b7 C13
31ebfbb C13|77e96dd C13|804cfe0 C13|352c5a0 C16|de6eaad C16|4752b58 C16|90300e0 C16|52ad3f4 C16|84284e9 C19|f239297 C19|66f3a6b C19
d0f383b C19|98abc3d C19|099e30b C19|0d7c534 C19|7bd11ef C19|a142982 C19|49e8e04 C19|5b8024b C19|860f5e6 C19|a6ff6c2 C19|33e9f01 C19
cbe4944 C15
"""
prop = dict(x.split() for l in MAP.split("\n") for x in l.split("|") if x.strip())
out = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %h %s", "aa28234..HEAD"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, _, s = l.split(" ", 2)
    assert s.startswith("fix: "), s
    out.append("fixed: property=%s %s %s" % (prop[h[:7]], h[:12], s[5:]))
open(os.path.join(V, "known_findings.txt"), "w").write("\n".join(out) + "\n")
print(len(out))
