#!/usr/bin/env python3
"""Appends a `fixed:` line to known_findings.txt for every "fix:" commit of /repo that has none."""
import subprocess,re
PROPS={"f71ad6e":"C26","1f9485b":"C26","d77513a":"C26","2a6a3da":"C25","3250677":"C25","f1b77c6":"C25","1a1d3c4":"C25","566086e":"C26","3a5ac9b":"C26","0183004":"C18","ce47b41":"C18","abd922f":"C02","484f536":"C01","179c706":"C18","4e0ed60":"C01","17e6cf4":"C10","f27917e":"C04","42282cc":"C21","58ea545":"C21",
"ec6b9fb":"C05","e532ab2":"C05","13131ca":"C05","b81b332":"C05","a45344f":"C05","45ed7a5":"C05","da9f6fd":"C05","b4285e2":"C23","edfa505":"C23","21f91df":"C23","0a74d7a":"C23","dcf65d3":"C28","7a70c48":"C14","efe1d10":"C14","112a27d":"C12","5110b41":"C12","7249f6a":"C24","bcba4fe":"C18","0820a75":"C19","53af9b9":"C20","522f204":"C22","96c41c2":"C22","04d68d3":"C24","e1e3a86":"C18","b32692a":"C18","5a1a6ad":"C07","81f18b3":"C07","0490bfc":"C07","c5e1991":"C07","edc7407":"C07","889341e":"C07","8dddbdc":"C25","75ef2fe":"C08","d4d9a8d":"C10","bcdc5ec":"C08","b67f94f":"C08","03099d1":"C18","32caf26":"C08","306ff1f":"C09","93d987a":"C09","98b93d6":"C09","a50":"C09","a48511c":"C09","bb2f9a5":"C09","854012d":"C15","cb37cd6":"C15","f448041":"C15","7bf7931":"C15","d223e89":"C15","d0272f9":"C15","158577f":"C15"}
KEY=[("elaborat","C16"),("uncrowd","C16"),("rotating","C16"),("reordering steps","C16"),("drup and drat","C16"),("slic","C17"),("panic","C18"),("pars","C19"),("lex","C19"),("sort","C20"),("print","C15"),("stat","C26"),("command-line","C25")]
p="/verif/known_findings.txt"
s=open(p).read()
out=[]
for l in subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s","c3622d0..HEAD"],capture_output=True,text=True).stdout.splitlines():
    h,t=l.split(" ",1)
    if not t.startswith("fix:") or h in s: continue
    m=re.search(r"\[(C\d\d)\]",t)
    pr=PROPS.get(h) or (m and m.group(1)) or next((v for k,v in KEY if k in t),None)
    if pr is None: pr="C16" if "cong steps" in t or "contraction" in t else None
    assert pr,l
    out.append(f"fixed: property={pr} {h} {t[5:]}")
if out: open(p,"a").write("\n".join(out)+"\n")
print(len(out))
