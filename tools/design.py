import json,os,subprocess
s=open('tools/design.in.md').read()
s=s.replace("the text kept by `adapter.ruleResult`, `adapter.blockMatch` and `Token.Discovery` (up to 400 000 parts of texts read with four small languages); that they do not panic, keep order and refuse where they should is proved for the last two","the text kept by `adapter.ruleResult` and `Token.Discovery` (up to 400 000 parts of texts read with four small languages); that `Discovery` does not panic is proved")
s=s.replace("@@MORE@@","| L12 | `application.Execute`, `toSuite`, `toLine` of the test suites: one report per token that has suites, in order and under its name, per line its position, and success exactly when the verdict on the suite's text is the expected one. Assumed: reader and judge are deterministic (as in L10) |")
m=json.load(open('MANIFEST.json'))
na="\n".join("* **%s** — %s"%(x.get('id') or x.get('property'),x['reason']) for x in m['not_applicable'])
s=s.replace("@@NA@@",na)
fx="\n".join("* "+l.strip()[7:] for l in open('known-findings.txt') if l.startswith('fixed:'))
s=s.replace("@@FIXED@@",fx)
rows=["Each is caught by the check of its own property (`tools/trybugs.sh`, and vcheck); ring-extra-digests without a failing input (no-failing-input-found), the others with one.","","| planted bug | property | what it needs |","|---|---|---|"]
for d in sorted(os.listdir('seeded')):
    j=json.load(open('seeded/%s/meta.json'%d)); rows.append("| %s | %s | %s |"%(d,j['property'],j['needs'].replace('|','/')))
s=s.replace("@@SEEDS@@","\n".join(rows))
kn=[l.strip() for l in open('known-findings.txt') if l.startswith('known:')]
s=s.replace("@@FINDINGS@@","Known findings left in place:\n\n"+"\n".join("* "+k for k in kn) if kn else "")
open('DESIGN.md','w').write(s)
