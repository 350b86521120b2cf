//go:build go1.21

package parsers

import (
	"strconv"

	"github.com/steve-care-software/steve/applications/languages/parsers"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops P04

// zzRead runs the handler of that name over an element holding the parts of these names, each worth
// the value given for it.
func zzRead(bitsize uint, name string, names []string, values []interface{}) (parsers.Result, error) {
	nodes := map[string]roots.Node{"SEPARATOR": zzTexts("SEPARATOR", "text")}
	events := map[string][]parsers.EventFunc{}
	for i, one := range names {
		value := values[i]
		nodes[one] = zzBelow(one, zzRoot(one, map[string]roots.Node{"WORD": zzTexts("WORD", "text")}))
		events[one] = []parsers.EventFunc{func(root roots.Root, manager parsers.Manager) (interface{}, error) {
			return value, nil
		}}
	}
	root := zzRoot(name, nodes)
	handler := newEvents(bitsize)[name]
	if _, ok := events[name]; ok {
		m, err := parsers.NewManagerBuilder().WithEvents(events).Now()
		zzgov.Requires(err == nil)
		v, err := handler(root, m)
		if err != nil {
			return nil, err
		}
		res, ok := v.(parsers.Result)
		zzgov.Ensures("what it holds is handed over", ok)
		return res, nil
	}
	events[name] = []parsers.EventFunc{handler}
	m, err := parsers.NewManagerBuilder().WithEvents(events).Now()
	zzgov.Requires(err == nil)
	return m.Execute(root)
}

//gov:lemma P04
//gov:depth 2
func zzReadHeaderVariable(bitsize uint, declaration VariableDeclaration, keyname string, input bool, optional bool) {
	zzgov.Requires(declaration != nil && keyname != "")
	names := []string{"inputOutput", "variableDeclaration", "KEYNAME_PATTERN"}
	values := []interface{}{input, declaration, keyname}
	if optional {
		names = append(names, "QUESTION_MARK")
		values = append(values, "?")
	}
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "headerVariable", names, values)
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(HeaderVariable)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("its parts", zzgov.Same(obj.Declaration(), declaration) && obj.Keyname() == keyname)
	zzgov.Ensures("way and need", obj.IsInput() == input && obj.IsMandatory() == !optional)
}

//gov:lemma P04
//gov:depth 2
func zzReadInputOutput(bitsize uint, input bool) {
	name := "LEFT_ARROW"
	if input {
		name = "RIGHT_ARROW"
	}
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "inputOutput", []string{name}, []interface{}{"arrow"})
	zzgov.Ensures("which way", err == nil && res.First() == any(input))
}

//gov:lemma P04
//gov:depth 2
func zzReadDirection(bitsize uint, stop bool) {
	name := "CONTINUE"
	if stop {
		name = "BREAK"
	}
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "direction", []string{name}, []interface{}{"word"})
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(Direction)
	zzgov.Ensures("as written", ok && obj.IsBreak() == stop && obj.IsContinue() == !stop)
}

//gov:lemma P04
//gov:depth 2
func zzReadAssigneeName(bitsize uint, name string, skip bool) {
	zzgov.Requires(name != "")
	part := "variableName"
	if skip {
		part = "UNDERSCORE"
	}
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "assigneeName", []string{part}, []interface{}{name})
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(AssigneeName)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("as written", obj.IsSkip() == skip && obj.IsVariable() == !skip && (skip || obj.Variable() == name))
}

//gov:lemma P04
//gov:depth 2
func zzReadForStatement(bitsize uint, list []AssigneeName, iterable TotalListValue) {
	zzgov.Requires(len(list) >= 2 && list[0] != nil && list[1] != nil && iterable != nil)
	names, err := NewAssigneeNamesBuilder().WithNames(list).Now()
	zzgov.Requires(err == nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "forStatement", []string{"assigneeNames", "totalListValue"}, []interface{}{names, iterable})
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(ForStatement)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("index and value in order", zzgov.Same(obj.Index(), list[0]) && zzgov.Same(obj.Value(), list[1]))
	zzgov.Ensures("what is gone through", zzgov.Same(obj.Iterable(), iterable))
}

//gov:lemma P04
//gov:depth 2
func zzReadOperation(bitsize uint, element OperationElement, suffix OperationSuffix, more bool) {
	zzgov.Requires(element != nil && suffix != nil)
	zzgov.NoPanic()
	if !more {
		zzgov.Requires(!element.IsOperation())
		res, err := zzRead(bitsize, "operationWithSuffix", []string{"operationElement"}, []interface{}{element})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(Operation)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("the element alone", zzgov.Same(obj.Element(), element) && !obj.HasSuffix())
		return
	}
	res, err := zzRead(bitsize, "operationWithSuffix", []string{"operationElement", "operationSuffix"}, []interface{}{element, suffix})
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(Operation)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("the element then the suffix", zzgov.Same(obj.Element(), element) && obj.HasSuffix() && zzgov.Same(obj.Suffix(), suffix))
}

//gov:lemma P04
//gov:depth 2
func zzReadOperationCall(bitsize uint, call OperationFuncCall) {
	zzgov.Requires(call != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "operation", []string{"operationFuncCalls"}, []interface{}{call})
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(Operation)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("the call", obj.Element().IsFuncCall() && zzgov.Same(obj.Element().FuncCall(), call) && !obj.HasSuffix())
}

//gov:lemma P04
//gov:depth 2
func zzReadBoolElement(bitsize uint, truth bool) {
	value, err := NewValueBuilder().WithBool(truth).Now()
	zzgov.Requires(err == nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "operationElement", []string{"boolValue"}, []interface{}{value})
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(OperationElement)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("the truth", obj.IsBoolValue() && obj.BoolValue() != nil && *obj.BoolValue() == truth)
}

//gov:lemma P04
//gov:depth 2
func zzReadIndexVariable(bitsize uint, name string) {
	zzgov.Requires(name != "")
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "indexValue", []string{"variableName"}, []interface{}{name})
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(IndexValue)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("the variable", obj.IsVariableName() && obj.VariableName() == name && !obj.IsValue())
}

//gov:lemma P04
func zzReadIndexNumber(bitsize uint, text string) {
	zzgov.Requires(text != "" && bitsize <= 64)
	root := zzRoot("indexValue", map[string]roots.Node{"INT_PATTERN": zzTexts("INT_PATTERN", text)})
	want, bad := strconv.ParseUint(text, 10, int(bitsize))
	zzgov.NoPanic()
	res, err := zzManager(bitsize, "indexValue").Execute(root)
	zzgov.Ensures("a number exactly when one is written", (err == nil) == (bad == nil))
	if err != nil {
		return
	}
	obj, ok := res.First().(IndexValue)
	zzgov.Ensures("of its kind", ok && obj.IsValue() && !obj.IsVariableName())
	got, ok := obj.Value().Element().(uint)
	zzgov.Ensures("as written", ok && got == uint(want))
}

//gov:lemma P04
func zzReadVariableName(bitsize uint, first string, rest string) {
	zzgov.Requires(first != "" && rest != "")
	root := zzRoot("variableName", map[string]roots.Node{"FIRST_LETTER": zzTexts("FIRST_LETTER", first), "MIN_MAJ_LETTERS": zzTexts("MIN_MAJ_LETTERS", rest)})
	zzgov.NoPanic()
	res, err := zzManager(bitsize, "variableName").Execute(root)
	zzgov.Ensures("as written", err == nil && res.First() == any(first+rest))
}

//gov:lemma P04
//gov:depth 2
func zzReadEmptyList(bitsize uint) {
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "listAssignable", []string{"BRACKET"}, []interface{}{"["})
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(Assignables)
	zzgov.Ensures("an empty list", ok && obj.IsEmpty() && len(obj.All()) == 0)
}

// zzMany is a part repeated once for each of these occurrences.
func zzMany(part string, list []roots.Container) roots.Node {
	containers, err := roots.NewContainersBuilder().WithList(list).Now()
	zzgov.Requires(err == nil)
	node, err := roots.NewNodeBuilder().WithName(part).WithContainers(containers).Now()
	zzgov.Requires(err == nil)
	return node
}

func zzRepeated(name string, part string, list []roots.Container) roots.Root {
	return zzRoot(name, map[string]roots.Node{part: zzMany(part, list)})
}

//gov:lemma P04
//gov:depth 2
func zzReadSliceDelimiter(bitsize uint, one roots.Container, two roots.Container, pick func(root roots.Root) IndexValue, alone bool) {
	zzgov.Requires(one != nil && two != nil && one.HasRoot() && two.HasRoot() && pick != nil)
	zzgov.Requires(pick(one.Root()) != nil && pick(two.Root()) != nil)
	m, err := parsers.NewManagerBuilder().WithEvents(map[string][]parsers.EventFunc{
		"sliceDelimiter": {newEvents(bitsize)["sliceDelimiter"]},
		"indexValue":     {func(root roots.Root, manager parsers.Manager) (interface{}, error) { return pick(root), nil }},
	}).Now()
	zzgov.Requires(err == nil)
	zzgov.NoPanic()
	if alone {
		res, err := m.Execute(zzRepeated("sliceDelimiter", "indexValue", []roots.Container{one}))
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(SliceDelimiter)
		zzgov.Ensures("from there on", ok && zzgov.Same(obj.Index(), pick(one.Root())) && !obj.HasAmount())
		return
	}
	res, err := m.Execute(zzRepeated("sliceDelimiter", "indexValue", []roots.Container{one, two}))
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(SliceDelimiter)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("from the first, as many as the second", zzgov.Same(obj.Index(), pick(one.Root())) && obj.HasAmount() && zzgov.Same(obj.Amount(), pick(two.Root())))
}
