#!/usr/bin/env python3
"""Drafts builder contracts from a package's source, once; the drafts are reviewed and committed.

usage: scaffold.py PKGDIR PROPERTY OUT   (prints builders it cannot draft)"""
import re, sys, os, glob
pkgdir, prop, out = sys.argv[1:4]
src = {}
for f in sorted(glob.glob(pkgdir + '/*.go')):
    if f.endswith('_test.go') or f.endswith('test_helper.go'): continue
    src[f] = open(f).read()
allsrc = '\n'.join(src.values())
pkg = re.search(r'^package (\w+)', allsrc, re.M).group(1)
imports = {}
for m in re.finditer(r'^\s*(?:import )?(?:(\w+) )?"([^"]+)"$', allsrc, re.M):
    name = m.group(1) or m.group(2).split('/')[-1]
    imports[name] = (m.group(1), m.group(2))
ifaces = {}
for m in re.finditer(r'^type (\w+) interface \{\n(.*?)^\}', allsrc, re.M | re.S):
    ms = {}
    for l in m.group(2).split('\n'):
        l = l.strip()
        k = re.match(r'(\w+)\((.*?)\) ?(.*)$', l)
        if k: ms[k.group(1)] = (k.group(2), k.group(3))
    ifaces[m.group(1)] = ms
methods = {}
for m in re.finditer(r'^func \(app \*(\w+)\) (\w+)\((.*?)\) (.*?) \{\n(.*?)^\}', allsrc, re.M | re.S):
    methods.setdefault(m.group(1), {})[m.group(2)] = (m.group(3), m.group(4), m.group(5))
ctors = {}
for m in re.finditer(r'^func (\w+)\(([^()]*)\) (\w+) \{', allsrc, re.M | re.S):
    if m.group(3).endswith('Builder') and m.group(3) not in (x for x in ()):
        a = ' '.join(m.group(2).split())
        if m.group(1)[0] == 'N': ctors[m.group(3)] = (m.group(1), a)
        else: ctors.setdefault(m.group(3), (m.group(1), a))
structs = {}
for m in re.finditer(r'^type (\w+) struct \{\n(.*?)^\}', allsrc, re.M | re.S):
    fs = {}
    for l in m.group(2).split('\n'):
        p = l.split(None, 1)
        if len(p) == 2: fs[p[0]] = p[1].strip()
    structs[m.group(1)] = fs
lower = lambda s: s[0].lower() + s[1:]
upper = lambda s: s[0].upper() + s[1:]
res, skipped, used = [], [], set()
def typ(t):
    for k in re.findall(r'(\w+)\.', t): used.add(k)
    return t
for st, ms in methods.items():
    if 'Now' not in ms or 'Create' not in ms: continue
    bi = ms['Create'][1]
    x = re.match(r'\((\w+), error\)', ms['Now'][1])
    if not x: skipped.append((bi, 'result ' + ms['Now'][1])); continue
    x = x.group(1)
    acc = ifaces.get(x)
    if acc is None: skipped.append((bi, 'no interface ' + x)); continue
    acc = dict(acc)
    pre = {}
    if 'Content' in acc and acc['Content'][1] in ifaces and 'content' not in structs.get(st, {}):
        for k, v in ifaces[acc['Content'][1]].items():
            if k not in acc:
                acc[k] = v
                pre[k] = 'Content().'
        del acc['Content']
    if bi not in ctors: skipped.append((bi, 'no constructor')); continue
    cn, ca = ctors[bi]
    if ca: skipped.append((bi, 'constructor takes ' + ca)); continue
    body = ms['Now'][2]
    # statements
    lists, mand, alts, combos, final, bad = set(), [], [], [], None, []
    rest = body
    rest = re.sub(r'^\tif app\.(\w+) != nil && len\(app\.\w+\) <= 0 \{\n\t\tapp\.\w+ = nil\n\t\}\n', lambda m: lists.add(m.group(1)) or '', rest, flags=re.M)
    rest = re.sub(r'^\tif app\.(\w+) (< 0) \{\n\t\treturn nil, errors\.New\([^\n]*\)\n\t\}\n', lambda m: mand.append((m.group(1), m.group(2))) or '', rest, flags=re.M)
    rest = re.sub(r'^\t+content := create\w+\([^()]*\)\n', '', rest, flags=re.M)
    rest = re.sub(r'if len\(app\.(\w+)\) > 0 \{', r'if app.\1 != nil {', rest)
    rest = re.sub(r'uint\((app\.\w+)\)', r'\1', rest)
    rest = re.sub(r'^\tif app\.(\w+) (== nil|== ""|<= 0|== 0) \{\n\t\treturn nil, errors\.New\([^\n]*\)\n\t\}\n', lambda m: mand.append((m.group(1), m.group(2))) or '', rest, flags=re.M)
    def alt(m):
        cond = m.group(1)
        parts = cond.split(' && ')
        fs = []
        for p in parts:
            k = re.match(r'app\.(\w+)( != nil| != ""| > 0)?$', p)
            if not k: bad.append(cond); return m.group(0)
            fs.append(k.group(1))
        if len(fs) == 1: alts.append(fs[0])
        else: combos.append(fs)
        return ''
    rest = re.sub(r'^\tif ([^\n]*) \{\n\t\treturn create\w+\((?:[^()]|\n)*\), nil\n\t\}\n', alt, rest, flags=re.M)
    k = re.match(r'^\s*return (nil, errors\.New\([^\n]*\)|create\w+\((?:[^()]|\n)*\), nil)\s*$', rest)
    if not k or bad:
        skipped.append((bi, 'Now:\n' + body)); continue
    final = 'error' if k.group(1).startswith('nil') else 'ok'
    # setters
    params, sets, fieldOf = [], [], {}
    ok = True
    for name, (a, r, b) in ms.items():
        if name in ('Create', 'Now'): continue
        b = re.sub(r'= int\((\w+)\)', r'= #\1', b)
        m = re.match(r'\s*app\.(\w+) = ([&#]?)(\w+)\n\s*return app\s*$', b)
        if not m: ok = False; skipped.append((bi, 'setter ' + name + ':' + b)); break
        f, amp, v = m.groups()
        if v == 'true' and not a:
            params.append((f, 'bool', 'flag', name))
        else:
            an, at = a.split(None, 1)
            params.append((f, at, {'&': 'ptr', '#': 'idx', '': 'val'}[amp], name))
    if not ok: continue
    fields = {p[0]: p for p in params}
    def given(f):
        p = fields[f]
        v = 'v' + upper(f)
        if p[2] == 'flag': return v
        if p[2] == 'ptr': return 'with' + upper(f)
        if p[2] == 'idx': return 'with%s && int(%s) >= 0' % (upper(f), v)
        t = p[1]
        if t == 'string': return v + ' != ""'
        if t in ('uint', 'int', 'uint8'): return v + ' > 0'
        if t.startswith('[') or t.startswith('map['):
            if f in lists: return 'len(' + v + ') > 0'
            return v + ' != nil'
        if t == 'bool': return v
        return v + ' != nil'
    opt = [f for f in fields if f not in [m[0] for m in mand]]
    inNow = set(alts) | {f for c in combos for f in c}
    sig = []
    for f, t, kind, n in params:
        if kind != 'flag': sig.append('j%s %s' % (upper(f), typ(t)))
    for f, t, kind, n in params:
        if kind in ('ptr', 'idx'): sig.append('with%s bool' % upper(f))
        sig.append('v%s %s' % (upper(f), t))
    L = []
    nm = 'zz' + upper(bi.replace('Builder', '') or x) 
    if bi == 'Builder': nm = 'zz' + x
    L.append('//gov:lemma %s\nfunc %s(%s) {' % (prop, nm, ', '.join(sig)))
    L.append('\tzzgov.NoPanic()')
    j = cn + '()'
    for f, t, kind, n in params:
        j += '.%s(%s)' % (n, '' if kind == 'flag' else 'j' + upper(f))
    L.append('\tbuilder := %s.Create()' % j)
    for f, t, kind, n in params:
        v = 'v' + upper(f)
        if kind == 'flag': L.append('\tif %s {\n\t\tbuilder = builder.%s()\n\t}' % (v, n))
        elif kind in ('ptr', 'idx'): L.append('\tif with%s {\n\t\tbuilder = builder.%s(%s)\n\t}' % (upper(f), n, v))
        else: L.append('\tbuilder = builder.%s(%s)' % (n, v))
    L.append('\tobj, err := builder.Now()')
    conds = [given(m[0]) for m in mand]
    if final == 'error': 
        c = ' || '.join(given(a) for a in opt)
        conds.append(('(' + c + ')') if conds and len(opt) > 1 else c)
    word = 'complete'
    if conds:
        L.append('\tok := ' + ' && '.join(conds))
        L.append('\tzzgov.Ensures("obtained exactly when %s", (err == nil) == ok && (obj != nil) == ok)' % word)
        L.append('\tif !ok {\n\t\treturn\n\t}')
    else:
        L.append('\tzzgov.Ensures("always obtained", err == nil && obj != nil)')
    problems = []
    def same(f):
        p = fields[f]
        a = accOf(f)
        if a is None: return None
        v = 'v' + upper(f)
        if acc[a][1] in ('string', 'uint', 'int', 'bool', 'uint8'): return 'obj.%s() == %s' % (a, v)
        if acc[a][1].startswith('*'): return 'PTR obj.%s()' % a
        return 'zzgov.Same(obj.%s(), %s)' % (a, v)
    def accOf(f):
        p = fields[f]
        cands = [re.sub(r'^With', '', p[3]), p[3], upper(f)]
        if f == 'list': cands += ['All', 'List']
        for c in cands:
            if c in acc and acc[c][1] != 'bool' or c in acc and p[1] == 'bool': return c
        return None
    def hasOf(f):
        p = fields[f]
        for base in [re.sub(r'^(With|Is|Has)', '', p[3]), upper(f)]:
            for pre in ('Has', 'Is', 'Contains'):
                if pre + base in acc: return pre + base
        return None
    covered = set()
    for f, op in mand:
        s = same(f)
        if s is None: problems.append('no accessor for ' + f); continue
        covered.add(accOf(f))
        L.append('\tzzgov.Ensures("%s as given", %s)' % (f, s))
    if final == 'ok':
        for f in opt:
            h, s = hasOf(f), same(f) if fields[f][2] != 'flag' else None
            covered |= {h, accOf(f)}
            if fields[f][2] == 'flag':
                if not h: problems.append('no accessor for ' + f); continue
                L.append('\tzzgov.Ensures("%s exactly when asked", obj.%s() == v%s)' % (f, h, upper(f)))
                continue
            if s is None: problems.append('no accessor for ' + f); continue
            if h: 
                w = s
                if f in lists: w = 'len(obj.%s()) == len(v%s) && (!(%s) || %s)' % (accOf(f), upper(f), given(f), s)
                if fields[f][2] == 'ptr': w = '(!%s || *obj.%s() == v%s)' % (given(f), accOf(f), upper(f)); 
                L.append('\tzzgov.Ensures("%s exactly when given", obj.%s() == (%s) && %s)' % (f, h, given(f), w))
            else: L.append('\tzzgov.Ensures("%s as given", %s)' % (f, s))
    else:
        hs = []
        if len(opt) == 1: problems.append('one alternative')
        for f in opt:
            h = hasOf(f)
            if not h: problems.append('no presence accessor for ' + f); continue
            hs.append('obj.%s()' % h)
            covered |= {h, accOf(f)}
            others = [given(o) for o in opt if o != f]
            L.append('\tzzgov.Ensures("%s held only when given", !obj.%s() || %s)' % (f, h, given(f) if ' ' not in given(f) else '(' + given(f) + ')'))
            L.append('\tzzgov.Ensures("%s held when alone", obj.%s() || !(%s)%s)' % (f, h, given(f), ''.join(' || ' + o for o in others)))
            if fields[f][2] != 'flag':
                s = same(f)
                if s is None: problems.append('no accessor for ' + f); continue
                if s.startswith('PTR'): s = '*obj.%s() == v%s' % (accOf(f), upper(f))
                L.append('\tzzgov.Ensures("%s as given", !obj.%s() || %s)' % (f, h, s))
                if acc[accOf(f)][1] not in ('string', 'uint', 'int', 'bool') : L.append('\tzzgov.Ensures("%s absent unless held", obj.%s() == (obj.%s() != nil))' % (f, h, accOf(f)))
        pairs = ['!(%s && %s)' % (hs[a], hs[b]) for a in range(len(hs)) for b in range(a + 1, len(hs))]
        if pairs: L.append('\tzzgov.Ensures("one alternative at most", %s)' % ' && '.join(pairs))
    L.append('}')
    for a in acc:
        if a not in covered: problems.append('accessor %s not covered' % a)
    if problems: L.insert(0, '// REVIEW '+nm+': ' + '; '.join(problems))
    if combos and final == 'error': L.insert(0, '// REVIEW: combos %s' % combos)
    if len(opt) > 1 and final == 'ok' and set(opt) - inNow : L.insert(0, '// REVIEW: options %s not tested in Now' % sorted(set(opt) - inNow))
    txt = '\n'.join(L)
    for k, v in pre.items(): txt = txt.replace('obj.%s()' % k, 'obj.%s%s()' % (v, k))
    res.append((nm, txt))
with open(out, 'w') as o:
    o.write('//go:build go1.21\n\npackage %s\n\nimport (\n' % pkg)
    for u in sorted(used):
        n, p = imports[u]
        o.write('\t%s"%s"\n' % ((n + ' ') if n else '', p))
    o.write('\t"github.com/steve-care-software/steve/zzgov"\n)\n\n//gov:fileprops %s\n\n' % prop)
    o.write('\n\n'.join(r[1] for r in sorted(res)) + '\n')
os.system('gofmt -w ' + out)
print(len(res), 'drafted in', out)
for b, why in skipped: print('SKIPPED', b, why[:1500])
