#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks registered in the analyser and the notes below."""
import json, os, re, glob
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
tech={}
for f in glob.glob(root+'/sa/*.go'):
    for m in re.finditer(r'register\("(C\d+)",\s*"([^"]*)"',open(f).read()):
        tech[m[1]]=m[2]
NA={
"C90":"Equality of a value with its decoded encoding quantifies over run-time values of programs that are only produced by running the tool; the structural conditions it rests on are claimed separately (C17, C19-C26, C33).",
"C91":"Acceptance by nine external compilers is decided by those compilers on generated text, not by the tool's source; the clauses visible in the source (templates complete, helpers and imports present) are claimed as C16, C18 and C15.",
"C92":"The numeric result of a generated accessor depends on run-time operand values and on each target language's arithmetic; the clauses visible in the source are claimed as C09, C28 and C29.",
"C93":"Running time is a run-time quantity; no sound static bound of it is in reach for this code.",
}
NOTE=json.load(open(root+'/tools/notes.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in tech and i not in NOTE.get("_unclaimed",{}):
        checks.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"./check.sh "+i,"technique":tech[i],"level":"other",
          "level_note":NOTE.get(i,"Decided on the current source for the clauses named in the technique; see DESIGN.md. Trusts go/types, x/tools/go/ssa and the Go standard library.")})
    else:
        na.append({"property":i,"reason":NOTE.get("_unclaimed",{}).get(i) or NA.get(i) or "No analysis of this property has been completed yet."})
json.dump({"version":1,"setup_cmd":"cd sa && GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOWORK=off go build -o /dev/null .","checks":checks,"not_applicable":na},open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),"claimed",len(na),"not")
