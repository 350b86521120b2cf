//go:build go1.21

package parsers

import (
	"github.com/steve-care-software/steve/applications/languages/parsers"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
	"github.com/steve-care-software/steve/zzgov"
)

// drafted by tools/handlers.py

//gov:fileprops P04

// zzGatheredHeaderVariable: each occurrence gone through is worth what its handler makes of it
func zzGatheredHeaderVariable(list []roots.Container, pick func(root roots.Root) HeaderVariable, n zzgov.Iter, out []interface{}) bool {
	return len(out) == int(n) && zzgov.ForAll(0, int(n), func(i int) bool {
		return i < len(list) && zzgov.Same(out[i], interface{}(pick(list[i].Root())))
	})
}

// zzKeptHeaderVariable: they are kept in order
func zzKeptHeaderVariable(list []roots.Container, pick func(root roots.Root) HeaderVariable, n zzgov.Iter, out []HeaderVariable) bool {
	return len(out) == int(n) && zzgov.ForAll(0, int(n), func(i int) bool {
		return i < len(list) && zzgov.Same(out[i], pick(list[i].Root()))
	})
}

//gov:lemma P04
//gov:depth 2
//gov:inv zzGatheredHeaderVariable zzKeptHeaderVariable
func zzReadAllHeaderVariable(bitsize uint, list []roots.Container, pick func(root roots.Root) HeaderVariable, q int) {
	zzgov.Requires(0 <= q && q < len(list) && pick != nil)
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool {
		return list[i] != nil && list[i].HasRoot() && pick(list[i].Root()) != nil
	}))
	m, err := parsers.NewManagerBuilder().WithEvents(map[string][]parsers.EventFunc{
		"headerVariables": {newEvents(bitsize)["headerVariables"]},
		"headerVariable": {func(root roots.Root, manager parsers.Manager) (interface{}, error) { return pick(root), nil }},
	}).Now()
	zzgov.Requires(err == nil)
	root := zzRepeated("headerVariables", "headerVariable", list)
	zzgov.NoPanic()
	res, err := m.Execute(root)
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(HeaderVariables)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("as many as written", len(obj.All()) == len(list))
	zzgov.Ensures("each in its place", zzgov.Same(obj.All()[q], pick(list[q].Root())))
}

// zzGatheredInstruction: each occurrence gone through is worth what its handler makes of it
func zzGatheredInstruction(list []roots.Container, pick func(root roots.Root) Instruction, n zzgov.Iter, out []interface{}) bool {
	return len(out) == int(n) && zzgov.ForAll(0, int(n), func(i int) bool {
		return i < len(list) && zzgov.Same(out[i], interface{}(pick(list[i].Root())))
	})
}

// zzKeptInstruction: they are kept in order
func zzKeptInstruction(list []roots.Container, pick func(root roots.Root) Instruction, n zzgov.Iter, out []Instruction) bool {
	return len(out) == int(n) && zzgov.ForAll(0, int(n), func(i int) bool {
		return i < len(list) && zzgov.Same(out[i], pick(list[i].Root()))
	})
}

//gov:lemma P04
//gov:depth 2
//gov:inv zzGatheredInstruction zzKeptInstruction
func zzReadAllInstruction(bitsize uint, list []roots.Container, pick func(root roots.Root) Instruction, q int) {
	zzgov.Requires(0 <= q && q < len(list) && pick != nil)
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool {
		return list[i] != nil && list[i].HasRoot() && pick(list[i].Root()) != nil
	}))
	m, err := parsers.NewManagerBuilder().WithEvents(map[string][]parsers.EventFunc{
		"instructions": {newEvents(bitsize)["instructions"]},
		"instruction": {func(root roots.Root, manager parsers.Manager) (interface{}, error) { return pick(root), nil }},
	}).Now()
	zzgov.Requires(err == nil)
	root := zzRepeated("instructions", "instruction", list)
	zzgov.NoPanic()
	res, err := m.Execute(root)
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(Instructions)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("as many as written", len(obj.All()) == len(list))
	zzgov.Ensures("each in its place", zzgov.Same(obj.All()[q], pick(list[q].Root())))
}

// zzGatheredAssigneeNameFirst: each occurrence gone through is worth what its handler makes of it
func zzGatheredAssigneeNameFirst(list []roots.Container, pick func(root roots.Root) AssigneeNameFirst, n zzgov.Iter, out []interface{}) bool {
	return len(out) == int(n) && zzgov.ForAll(0, int(n), func(i int) bool {
		return i < len(list) && zzgov.Same(out[i], interface{}(pick(list[i].Root())))
	})
}

// zzKeptAssigneeNameFirst: they are kept in order, after the first
func zzKeptAssigneeNameFirst(list []roots.Container, pick func(root roots.Root) AssigneeNameFirst, first AssigneeNameFirst, n zzgov.Iter, out []AssigneeNameFirst) bool {
	return len(out) == int(n)+1 && zzgov.Same(out[0], first) && zzgov.ForAll(0, int(n), func(i int) bool {
		return i < len(list) && zzgov.Same(out[i+1], pick(list[i].Root()))
	})
}

//gov:lemma P04
//gov:depth 2
//gov:inv zzGatheredAssigneeNameFirst zzKeptAssigneeNameFirst
func zzReadAllAssigneeNameFirst(bitsize uint, list []roots.Container, pick func(root roots.Root) AssigneeNameFirst, first AssigneeNameFirst, q int, alone bool) {
	zzgov.Requires(0 <= q && q < len(list) && pick != nil && first != nil)
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool {
		return list[i] != nil && list[i].HasRoot() && pick(list[i].Root()) != nil
	}))
	m, err := parsers.NewManagerBuilder().WithEvents(map[string][]parsers.EventFunc{
		"assigneeNameFirsts": {newEvents(bitsize)["assigneeNameFirsts"]},
		"assigneeNameFirst": {func(root roots.Root, manager parsers.Manager) (interface{}, error) { return first, nil }},
		"commaAssigneeFirst": {func(root roots.Root, manager parsers.Manager) (interface{}, error) { return pick(root), nil }},
	}).Now()
	zzgov.Requires(err == nil)
	nodes := map[string]roots.Node{"assigneeNameFirst": zzBelow("assigneeNameFirst", zzRoot("assigneeNameFirst", map[string]roots.Node{"WORD": zzTexts("WORD", "text")}))}
	zzgov.NoPanic()
	if alone {
		res, err := m.Execute(zzRoot("assigneeNameFirsts", nodes))
		zzgov.Ensures("one read", err == nil)
		obj, ok := res.First().(AssigneeNameFirsts)
		zzgov.Ensures("one of its kind", ok && len(obj.All()) == 1 && zzgov.Same(obj.All()[0], first))
		return
	}
	nodes["commaAssigneeFirst"] = zzMany("commaAssigneeFirst", list)
	res, err := m.Execute(zzRoot("assigneeNameFirsts", nodes))
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(AssigneeNameFirsts)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("as many as written", len(obj.All()) == len(list)+1)
	zzgov.Ensures("the first in front", zzgov.Same(obj.All()[0], first))
	zzgov.Ensures("each in its place", zzgov.Same(obj.All()[q+1], pick(list[q].Root())))
}

// zzGatheredAssigneeName: each occurrence gone through is worth what its handler makes of it
func zzGatheredAssigneeName(list []roots.Container, pick func(root roots.Root) AssigneeName, n zzgov.Iter, out []interface{}) bool {
	return len(out) == int(n) && zzgov.ForAll(0, int(n), func(i int) bool {
		return i < len(list) && zzgov.Same(out[i], interface{}(pick(list[i].Root())))
	})
}

// zzKeptAssigneeName: they are kept in order, after the first
func zzKeptAssigneeName(list []roots.Container, pick func(root roots.Root) AssigneeName, first AssigneeName, n zzgov.Iter, out []AssigneeName) bool {
	return len(out) == int(n)+1 && zzgov.Same(out[0], first) && zzgov.ForAll(0, int(n), func(i int) bool {
		return i < len(list) && zzgov.Same(out[i+1], pick(list[i].Root()))
	})
}

//gov:lemma P04
//gov:depth 2
//gov:inv zzGatheredAssigneeName zzKeptAssigneeName
func zzReadAllAssigneeName(bitsize uint, list []roots.Container, pick func(root roots.Root) AssigneeName, first AssigneeName, q int, alone bool) {
	zzgov.Requires(0 <= q && q < len(list) && pick != nil && first != nil)
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool {
		return list[i] != nil && list[i].HasRoot() && pick(list[i].Root()) != nil
	}))
	m, err := parsers.NewManagerBuilder().WithEvents(map[string][]parsers.EventFunc{
		"assigneeNames": {newEvents(bitsize)["assigneeNames"]},
		"assigneeName": {func(root roots.Root, manager parsers.Manager) (interface{}, error) { return first, nil }},
		"commaAssigneeName": {func(root roots.Root, manager parsers.Manager) (interface{}, error) { return pick(root), nil }},
	}).Now()
	zzgov.Requires(err == nil)
	nodes := map[string]roots.Node{"assigneeName": zzBelow("assigneeName", zzRoot("assigneeName", map[string]roots.Node{"WORD": zzTexts("WORD", "text")}))}
	zzgov.NoPanic()
	if alone {
		res, err := m.Execute(zzRoot("assigneeNames", nodes))
		zzgov.Ensures("one read", err == nil)
		obj, ok := res.First().(AssigneeNames)
		zzgov.Ensures("one of its kind", ok && len(obj.All()) == 1 && zzgov.Same(obj.All()[0], first))
		return
	}
	nodes["commaAssigneeName"] = zzMany("commaAssigneeName", list)
	res, err := m.Execute(zzRoot("assigneeNames", nodes))
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(AssigneeNames)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("as many as written", len(obj.All()) == len(list)+1)
	zzgov.Ensures("the first in front", zzgov.Same(obj.All()[0], first))
	zzgov.Ensures("each in its place", zzgov.Same(obj.All()[q+1], pick(list[q].Root())))
}

// zzGatheredAssignable: each occurrence gone through is worth what its handler makes of it
func zzGatheredAssignable(list []roots.Container, pick func(root roots.Root) Assignable, n zzgov.Iter, out []interface{}) bool {
	return len(out) == int(n) && zzgov.ForAll(0, int(n), func(i int) bool {
		return i < len(list) && zzgov.Same(out[i], interface{}(pick(list[i].Root())))
	})
}

// zzKeptAssignable: they are kept in order, after the first
func zzKeptAssignable(list []roots.Container, pick func(root roots.Root) Assignable, first Assignable, n zzgov.Iter, out []Assignable) bool {
	return len(out) == int(n)+1 && zzgov.Same(out[0], first) && zzgov.ForAll(0, int(n), func(i int) bool {
		return i < len(list) && zzgov.Same(out[i+1], pick(list[i].Root()))
	})
}

//gov:lemma P04
//gov:depth 2
//gov:inv zzGatheredAssignable zzKeptAssignable
func zzReadAllAssignable(bitsize uint, list []roots.Container, pick func(root roots.Root) Assignable, first Assignable, q int, alone bool) {
	zzgov.Requires(0 <= q && q < len(list) && pick != nil && first != nil)
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool {
		return list[i] != nil && list[i].HasRoot() && pick(list[i].Root()) != nil
	}))
	m, err := parsers.NewManagerBuilder().WithEvents(map[string][]parsers.EventFunc{
		"assignables": {newEvents(bitsize)["assignables"]},
		"assignable": {func(root roots.Root, manager parsers.Manager) (interface{}, error) { return first, nil }},
		"commaAssignable": {func(root roots.Root, manager parsers.Manager) (interface{}, error) { return pick(root), nil }},
	}).Now()
	zzgov.Requires(err == nil)
	nodes := map[string]roots.Node{"assignable": zzBelow("assignable", zzRoot("assignable", map[string]roots.Node{"WORD": zzTexts("WORD", "text")}))}
	zzgov.NoPanic()
	if alone {
		res, err := m.Execute(zzRoot("assignables", nodes))
		zzgov.Ensures("one read", err == nil)
		obj, ok := res.First().(Assignables)
		zzgov.Ensures("one of its kind", ok && len(obj.All()) == 1 && zzgov.Same(obj.All()[0], first))
		return
	}
	nodes["commaAssignable"] = zzMany("commaAssignable", list)
	res, err := m.Execute(zzRoot("assignables", nodes))
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(Assignables)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("as many as written", len(obj.All()) == len(list)+1)
	zzgov.Ensures("the first in front", zzgov.Same(obj.All()[0], first))
	zzgov.Ensures("each in its place", zzgov.Same(obj.All()[q+1], pick(list[q].Root())))
}

// zzGatheredVariableDeclaration: each occurrence gone through is worth what its handler makes of it
func zzGatheredVariableDeclaration(list []roots.Container, pick func(root roots.Root) VariableDeclaration, n zzgov.Iter, out []interface{}) bool {
	return len(out) == int(n) && zzgov.ForAll(0, int(n), func(i int) bool {
		return i < len(list) && zzgov.Same(out[i], interface{}(pick(list[i].Root())))
	})
}

// zzKeptVariableDeclaration: they are kept in order, after the first
func zzKeptVariableDeclaration(list []roots.Container, pick func(root roots.Root) VariableDeclaration, first VariableDeclaration, n zzgov.Iter, out []VariableDeclaration) bool {
	return len(out) == int(n)+1 && zzgov.Same(out[0], first) && zzgov.ForAll(0, int(n), func(i int) bool {
		return i < len(list) && zzgov.Same(out[i+1], pick(list[i].Root()))
	})
}

//gov:lemma P04
//gov:depth 2
//gov:inv zzGatheredVariableDeclaration zzKeptVariableDeclaration
func zzReadAllVariableDeclaration(bitsize uint, list []roots.Container, pick func(root roots.Root) VariableDeclaration, first VariableDeclaration, q int, alone bool) {
	zzgov.Requires(0 <= q && q < len(list) && pick != nil && first != nil)
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool {
		return list[i] != nil && list[i].HasRoot() && pick(list[i].Root()) != nil
	}))
	m, err := parsers.NewManagerBuilder().WithEvents(map[string][]parsers.EventFunc{
		"variableDeclarations": {newEvents(bitsize)["variableDeclarations"]},
		"variableDeclaration": {func(root roots.Root, manager parsers.Manager) (interface{}, error) { return first, nil }},
		"commaVariableDeclaration": {func(root roots.Root, manager parsers.Manager) (interface{}, error) { return pick(root), nil }},
	}).Now()
	zzgov.Requires(err == nil)
	nodes := map[string]roots.Node{"variableDeclaration": zzBelow("variableDeclaration", zzRoot("variableDeclaration", map[string]roots.Node{"WORD": zzTexts("WORD", "text")}))}
	zzgov.NoPanic()
	if alone {
		res, err := m.Execute(zzRoot("variableDeclarations", nodes))
		zzgov.Ensures("one read", err == nil)
		obj, ok := res.First().(VariableDeclarations)
		zzgov.Ensures("one of its kind", ok && len(obj.All()) == 1 && zzgov.Same(obj.All()[0], first))
		return
	}
	nodes["commaVariableDeclaration"] = zzMany("commaVariableDeclaration", list)
	res, err := m.Execute(zzRoot("variableDeclarations", nodes))
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(VariableDeclarations)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("as many as written", len(obj.All()) == len(list)+1)
	zzgov.Ensures("the first in front", zzgov.Same(obj.All()[0], first))
	zzgov.Ensures("each in its place", zzgov.Same(obj.All()[q+1], pick(list[q].Root())))
}
