#!/usr/bin/env python3
"""known-findings.txt: repaired defects (suppress nothing) from the fix: commits, then open findings kept by hand."""
import subprocess
P = {"094bd94":"C14","f7d16d7":"C14","0a8eec2":"C14","fd96279":"C15","28ad1fd":"C15","8cb267e":"C16","8fd784b":"C04","ed9c7c8":"C09","717f1c9":"C09",
"2048607":"C05","78db6c1":"C04","8462926":"C03","1ff5ba5":"C12","d86c11b":"C12","ff4f61d":"C13","399ca97":"C10","aea2564":"C24","a27f64c":"C10","21d62ee":"C06",
"29f1fb2":"C06","37ca26c":"C07","730633b":"C08","9973158":"C18","bc402f4":"C18","9b04ac2":"C19","601b7f7":"C20","eadf8af":"C19","5330336":"C20","1a3509a":"C20",
"32ea815":"C22","aa73de5":"C02","9aba2ce":"C04","8bf3275":"C04","79bbd3f":"C09","3883175":"C05","707de75":"C12","47fcff6":"C12","d9fa6fd":"C22","5b4b029":"C14",
"67d1a64":"C17","e69decd":"C18","f093d7c":"C19"}
EXTRA = __import__("json").load(open("/verif/tools/findings_extra.json"))
P.update(EXTRA["fixed"])
out = ["# Repaired defects. These lines suppress nothing: a check reports the violation again if it returns."]
for l in reversed(subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()):
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        out.append(f"fixed: property={P[h]} {h} what failed: {s[4:].strip()}")
out.append("# Open findings (none are suppressed unless listed here).")
out += EXTRA["open"]
open("/verif/known-findings.txt","w").write("\n".join(out)+"\n")
