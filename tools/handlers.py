#!/usr/bin/env python3
"""Drafts the lemmas on the handlers of the base language (specs/.../scripts/base/parsers/zz_handlers.go)."""
ONE=[
 ("instruction","Instruction",[("assignment","Assignment","Assignment"),("variableDeclaration","VariableDeclaration","VariableDeclaration"),("ifDeclaration","IfDeclaration","IfDeclaration"),("forDeclaration","ForDeclaration","ForDeclaration"),("voidFuncCalls","VoidFuncCall","FuncCall"),("direction","Direction","Direction"),("intIncrement","IntIncrement","IntIncrement")]),
 ("assignee","Assignee",[("assigneeNameFirsts","AssigneeNameFirsts","First"),("assigneeNames","AssigneeNames","Name")]),
 ("assigneeNameFirst","AssigneeNameFirst",[("variableDeclaration","VariableDeclaration","Declaration"),("assigneeName","AssigneeName","AssigneeName")]),
 ("assignable","Assignable",[("totalListAssignable","TotalListAssignable","List"),("singleAssignable","SingleAssignable","Single")]),
 ("singleAssignable","SingleAssignable",[("declarableValue","Value","DeclarableValue"),("operation","Operation","Operation"),("listAssignableToAssignables","TotalListAssignable","Extract"),("listFetchElement","ListFetchElement","ListFetchElement")]),
 ("totalListValue","TotalListValue",[("totalListAssignable","TotalListAssignable","Assignable"),("variableName","string","VariableName")]),
 ("totalListAssignable","TotalListAssignable",[("listValue","ListValue","ListValue"),("slice","Slice","Slice"),("listAppend","Append","Append")]),
 ("listValue","ListValue",[("listAssignable","Assignables","Assignables"),("variableName","string","VariableName")]),
 ("operationElement","OperationElement",[("variableName","*string","VariableName"),("computableValue","Value","ComputableValue"),("operation","Operation","Operation")]),
 ("voidFuncCalls","VoidFuncCall",[("logFuncCall","Assignable","Log")]),
 ("operationFuncCalls","OperationFuncCall",[("isNullFuncCall","Operation","Null")]),
]
ALL=[
 ("program","Program",[("instructions","Instructions","Instructions",False),("headerVariables","HeaderVariables","Variables",True)]),
 ("forDeclaration","ForDeclaration",[("forStatement","ForStatement","Statement",False),("instructions","Instructions","Instructions",True)]),
 ("ifDeclaration","IfDeclaration",[("ifOperation","Operation","Condition",False),("instructions","Instructions","Instructions",True)]),
 ("assignment","Assignment",[("assignee","Assignee","Assignee",False),("assignables","Assignables","Assignables",False)]),
 ("slice","Slice",[("listValue","ListValue","List",False),("sliceDelimiter","SliceDelimiter","Delimiter",False)]),
 ("listFetchElement","ListFetchElement",[("totalListValue","TotalListValue","List",False),("listElementFetcher","IndexValue","Index",False)]),
 ("listAppend","Append",[("listValue","ListValue","List",False),("singleAssignable","SingleAssignable","Assignable",False)]),
 ("operationSuffix","OperationSuffix",[("operator","uint16","Operator",False),("operationElement","OperationElement","Element",False)]),
 ("intIncrement","IntIncrement",[("variableName","string","VariableName",False),("intIncrementValue","Value","Increment",False)]),
 ("variableDeclaration","VariableDeclaration",[("declarativeType","Type","Type",False),("variableName","string","Name",False)]),
]
PASS=[("logFuncCall","assignable","Assignable"),("ifOperation","operation","Operation"),("isNullFuncCall","operation","Operation"),("commaAssigneeFirst","assigneeNameFirst","AssigneeNameFirst"),("commaAssigneeName","assigneeName","AssigneeName"),("commaAssignable","assignable","Assignable"),("commaVariableDeclaration","variableDeclaration","VariableDeclaration"),("listElementFetcher","indexValue","IndexValue"),("listAssignableToAssignables","totalListAssignable","TotalListAssignable"),("listAssignable","assignables","Assignables"),("declarableValue","computableValue","Value"),("declarableValue","primitiveValue","Value"),("computableValue","floatValue","Value"),("computableValue","intValue","Value"),("primitiveValue","boolValue","Value"),("primitiveValue","stringValue","Value"),("operation","operationWithSuffix","Operation"),("forStatement","forStatement","ForStatement"),("operation","operation","Operation"),("listType","declarativeType","Type")]
o=['''//go:build go1.21

package parsers

import (
	"github.com/steve-care-software/steve/zzgov"
)

// drafted by tools/handlers.py

//gov:fileprops P04
''']
cap=lambda s:s[0].upper()+s[1:]
def pre(t,v):
    if t=="string": return f'{v} != ""'
    if t=="*string": return f'{v} != ""'
    if t=="uint16": return f'{v} > 0'
    return f'{v} != nil'
def ty(t): return t.lstrip('*')
for h,obj,parts in ONE:
    ps=", ".join(f"v{a} {ty(t)}" for _,t,a in parts)
    o.append(f'''//gov:lemma P04
//gov:depth 2
func zzRead{cap(h)}(bitsize uint, kind int, {ps}) {{
	zzgov.Requires(0 <= kind && kind < {len(parts)})
	zzgov.Requires({" && ".join(pre(t,"v"+a) for _,t,a in parts)})
	zzgov.NoPanic()
	switch kind {{''')
    for i,(n,t,a) in enumerate(parts):
        o.append(f'''	case {i}:
		res, err := zzRead(bitsize, "{h}", []string{{"{n}"}}, []interface{{}}{{v{a}}})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().({obj})
		zzgov.Ensures("of its kind", ok)''')
        if t=="*string": o.append(f'''		zzgov.Ensures("{n} as read", obj.{a}() != nil && *obj.{a}() == v{a})''')
        elif t=="string": o.append(f'''		zzgov.Ensures("{n} as read", obj.{a}() == v{a})''')
        else: o.append(f'''		zzgov.Ensures("{n} as read", zzgov.Same(obj.{a}(), v{a}))''')
        fl=" && ".join(("" if b==a else "!")+f"obj.Is{b}()" for _,_,b in parts)
        o.append(f'''		zzgov.Ensures("{n} and nothing else", {fl})''')
    o.append('''	}
}
''')
for h,obj,parts in ALL:
    ps=", ".join(f"v{a} {ty(t)}" for _,t,a,_ in parts)
    opt=[p for p in parts if p[3]]
    req=" && ".join(pre(t,"v"+a) for _,t,a,_ in parts)
    o.append(f'''//gov:lemma P04
//gov:depth 2
func zzRead{cap(h)}(bitsize uint, {ps}{", more bool" if opt else ""}) {{
	zzgov.Requires({req})
	zzgov.NoPanic()''')
    names=", ".join(f'"{n}"' for n,_,_,_ in parts); vals=", ".join(f"v{a}" for _,_,a,_ in parts)
    def checks(ps,ind,absent=()):
        for n,t,a,op in ps:
            if t in("string","uint16"): o.append(f'{ind}zzgov.Ensures("{n} as read", obj.{a}() == v{a})')
            else: o.append(f'{ind}zzgov.Ensures("{n} as read", zzgov.Same(obj.{a}(), v{a}))')
            if op: o.append(f'{ind}zzgov.Ensures("{n} held", obj.Has{a}())')
        for n,t,a,op in absent:
            o.append(f'{ind}zzgov.Ensures("{n} not held", !obj.Has{a}() && obj.{a}() == nil)')
    if opt:
        m=[p for p in parts if not p[3]]
        o.append(f'''	if !more {{
		res, err := zzRead(bitsize, "{h}", []string{{{", ".join('"'+p[0]+'"' for p in m)}}}, []interface{{}}{{{", ".join("v"+p[2] for p in m)}}})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().({obj})
		zzgov.Ensures("of its kind", ok)''')
        checks(m,"\t\t",opt)
        o.append("		return\n	}")
    o.append(f'''	res, err := zzRead(bitsize, "{h}", []string{{{names}}}, []interface{{}}{{{vals}}})
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().({obj})
	zzgov.Ensures("of its kind", ok)''')
    checks(parts,"\t")
    o.append("}\n")
for h,n,t in PASS:
    o.append(f'''//gov:lemma P04
//gov:depth 2
func zzPass{cap(h)}{cap(n)}(bitsize uint, v {t}) {{
	zzgov.Requires({pre(t,"v")})
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "{h}", []string{{"{n}"}}, []interface{{}}{{v}})
	zzgov.Ensures("read", err == nil)
	zzgov.Ensures("passed on", res.IsSingle() && zzgov.Same(res.First(), interface{{}}(v)))
}}
''')
open('/verif/specs/domain/languages/scripts/base/parsers/zz_handlers.go','w').write("\n".join(o))

# ---- repeated parts
LISTS=[("headerVariables","headerVariable","HeaderVariables","HeaderVariable"),("instructions","instruction","Instructions","Instruction")]
COMMA=[("assigneeNameFirsts","assigneeNameFirst","commaAssigneeFirst","AssigneeNameFirsts","AssigneeNameFirst"),
 ("assigneeNames","assigneeName","commaAssigneeName","AssigneeNames","AssigneeName"),
 ("assignables","assignable","commaAssignable","Assignables","Assignable"),
 ("variableDeclarations","variableDeclaration","commaVariableDeclaration","VariableDeclarations","VariableDeclaration")]
o=['''//go:build go1.21

package parsers

import (
	"github.com/steve-care-software/steve/applications/languages/parsers"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
	"github.com/steve-care-software/steve/zzgov"
)

// drafted by tools/handlers.py

//gov:fileprops P04
''']
for h,n,O,T in LISTS:
    o.append(f'''// zzGathered{T}: each occurrence gone through is worth what its handler makes of it
func zzGathered{T}(list []roots.Container, pick func(root roots.Root) {T}, n zzgov.Iter, out []interface{{}}) bool {{
	return len(out) == int(n) && zzgov.ForAll(0, int(n), func(i int) bool {{
		return i < len(list) && zzgov.Same(out[i], interface{{}}(pick(list[i].Root())))
	}})
}}

// zzKept{T}: they are kept in order
func zzKept{T}(list []roots.Container, pick func(root roots.Root) {T}, n zzgov.Iter, out []{T}) bool {{
	return len(out) == int(n) && zzgov.ForAll(0, int(n), func(i int) bool {{
		return i < len(list) && zzgov.Same(out[i], pick(list[i].Root()))
	}})
}}

//gov:lemma P04
//gov:depth 2
//gov:inv zzGathered{T} zzKept{T}
func zzReadAll{T}(bitsize uint, list []roots.Container, pick func(root roots.Root) {T}, q int) {{
	zzgov.Requires(0 <= q && q < len(list) && pick != nil)
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool {{
		return list[i] != nil && list[i].HasRoot() && pick(list[i].Root()) != nil
	}}))
	m, err := parsers.NewManagerBuilder().WithEvents(map[string][]parsers.EventFunc{{
		"{h}": {{newEvents(bitsize)["{h}"]}},
		"{n}": {{func(root roots.Root, manager parsers.Manager) (interface{{}}, error) {{ return pick(root), nil }}}},
	}}).Now()
	zzgov.Requires(err == nil)
	root := zzRepeated("{h}", "{n}", list)
	zzgov.NoPanic()
	res, err := m.Execute(root)
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().({O})
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("as many as written", len(obj.All()) == len(list))
	zzgov.Ensures("each in its place", zzgov.Same(obj.All()[q], pick(list[q].Root())))
}}
''')
for h,n,cm,O,T in COMMA:
    o.append(f'''// zzGathered{T}: each occurrence gone through is worth what its handler makes of it
func zzGathered{T}(list []roots.Container, pick func(root roots.Root) {T}, n zzgov.Iter, out []interface{{}}) bool {{
	return len(out) == int(n) && zzgov.ForAll(0, int(n), func(i int) bool {{
		return i < len(list) && zzgov.Same(out[i], interface{{}}(pick(list[i].Root())))
	}})
}}

// zzKept{T}: they are kept in order, after the first
func zzKept{T}(list []roots.Container, pick func(root roots.Root) {T}, first {T}, n zzgov.Iter, out []{T}) bool {{
	return len(out) == int(n)+1 && zzgov.Same(out[0], first) && zzgov.ForAll(0, int(n), func(i int) bool {{
		return i < len(list) && zzgov.Same(out[i+1], pick(list[i].Root()))
	}})
}}

//gov:lemma P04
//gov:depth 2
//gov:inv zzGathered{T} zzKept{T}
func zzReadAll{T}(bitsize uint, list []roots.Container, pick func(root roots.Root) {T}, first {T}, q int, alone bool) {{
	zzgov.Requires(0 <= q && q < len(list) && pick != nil && first != nil)
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool {{
		return list[i] != nil && list[i].HasRoot() && pick(list[i].Root()) != nil
	}}))
	m, err := parsers.NewManagerBuilder().WithEvents(map[string][]parsers.EventFunc{{
		"{h}": {{newEvents(bitsize)["{h}"]}},
		"{n}": {{func(root roots.Root, manager parsers.Manager) (interface{{}}, error) {{ return first, nil }}}},
		"{cm}": {{func(root roots.Root, manager parsers.Manager) (interface{{}}, error) {{ return pick(root), nil }}}},
	}}).Now()
	zzgov.Requires(err == nil)
	nodes := map[string]roots.Node{{"{n}": zzBelow("{n}", zzRoot("{n}", map[string]roots.Node{{"WORD": zzTexts("WORD", "text")}}))}}
	zzgov.NoPanic()
	if alone {{
		res, err := m.Execute(zzRoot("{h}", nodes))
		zzgov.Ensures("one read", err == nil)
		obj, ok := res.First().({O})
		zzgov.Ensures("one of its kind", ok && len(obj.All()) == 1 && zzgov.Same(obj.All()[0], first))
		return
	}}
	nodes["{cm}"] = zzMany("{cm}", list)
	res, err := m.Execute(zzRoot("{h}", nodes))
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().({O})
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("as many as written", len(obj.All()) == len(list)+1)
	zzgov.Ensures("the first in front", zzgov.Same(obj.All()[0], first))
	zzgov.Ensures("each in its place", zzgov.Same(obj.All()[q+1], pick(list[q].Root())))
}}
''')
open('/verif/specs/domain/languages/scripts/base/parsers/zz_lists.go','w').write("\n".join(o))
