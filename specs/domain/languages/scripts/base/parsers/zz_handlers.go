//go:build go1.21

package parsers

import (
	"github.com/steve-care-software/steve/zzgov"
)

// drafted by tools/handlers.py

//gov:fileprops P04

//gov:lemma P04
//gov:depth 2
func zzReadInstruction(bitsize uint, kind int, vAssignment Assignment, vVariableDeclaration VariableDeclaration, vIfDeclaration IfDeclaration, vForDeclaration ForDeclaration, vFuncCall VoidFuncCall, vDirection Direction, vIntIncrement IntIncrement) {
	zzgov.Requires(0 <= kind && kind < 7)
	zzgov.Requires(vAssignment != nil && vVariableDeclaration != nil && vIfDeclaration != nil && vForDeclaration != nil && vFuncCall != nil && vDirection != nil && vIntIncrement != nil)
	zzgov.NoPanic()
	switch kind {
	case 0:
		res, err := zzRead(bitsize, "instruction", []string{"assignment"}, []interface{}{vAssignment})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(Instruction)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("assignment as read", zzgov.Same(obj.Assignment(), vAssignment))
		zzgov.Ensures("assignment and nothing else", obj.IsAssignment() && !obj.IsVariableDeclaration() && !obj.IsIfDeclaration() && !obj.IsForDeclaration() && !obj.IsFuncCall() && !obj.IsDirection() && !obj.IsIntIncrement())
	case 1:
		res, err := zzRead(bitsize, "instruction", []string{"variableDeclaration"}, []interface{}{vVariableDeclaration})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(Instruction)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("variableDeclaration as read", zzgov.Same(obj.VariableDeclaration(), vVariableDeclaration))
		zzgov.Ensures("variableDeclaration and nothing else", !obj.IsAssignment() && obj.IsVariableDeclaration() && !obj.IsIfDeclaration() && !obj.IsForDeclaration() && !obj.IsFuncCall() && !obj.IsDirection() && !obj.IsIntIncrement())
	case 2:
		res, err := zzRead(bitsize, "instruction", []string{"ifDeclaration"}, []interface{}{vIfDeclaration})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(Instruction)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("ifDeclaration as read", zzgov.Same(obj.IfDeclaration(), vIfDeclaration))
		zzgov.Ensures("ifDeclaration and nothing else", !obj.IsAssignment() && !obj.IsVariableDeclaration() && obj.IsIfDeclaration() && !obj.IsForDeclaration() && !obj.IsFuncCall() && !obj.IsDirection() && !obj.IsIntIncrement())
	case 3:
		res, err := zzRead(bitsize, "instruction", []string{"forDeclaration"}, []interface{}{vForDeclaration})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(Instruction)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("forDeclaration as read", zzgov.Same(obj.ForDeclaration(), vForDeclaration))
		zzgov.Ensures("forDeclaration and nothing else", !obj.IsAssignment() && !obj.IsVariableDeclaration() && !obj.IsIfDeclaration() && obj.IsForDeclaration() && !obj.IsFuncCall() && !obj.IsDirection() && !obj.IsIntIncrement())
	case 4:
		res, err := zzRead(bitsize, "instruction", []string{"voidFuncCalls"}, []interface{}{vFuncCall})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(Instruction)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("voidFuncCalls as read", zzgov.Same(obj.FuncCall(), vFuncCall))
		zzgov.Ensures("voidFuncCalls and nothing else", !obj.IsAssignment() && !obj.IsVariableDeclaration() && !obj.IsIfDeclaration() && !obj.IsForDeclaration() && obj.IsFuncCall() && !obj.IsDirection() && !obj.IsIntIncrement())
	case 5:
		res, err := zzRead(bitsize, "instruction", []string{"direction"}, []interface{}{vDirection})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(Instruction)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("direction as read", zzgov.Same(obj.Direction(), vDirection))
		zzgov.Ensures("direction and nothing else", !obj.IsAssignment() && !obj.IsVariableDeclaration() && !obj.IsIfDeclaration() && !obj.IsForDeclaration() && !obj.IsFuncCall() && obj.IsDirection() && !obj.IsIntIncrement())
	case 6:
		res, err := zzRead(bitsize, "instruction", []string{"intIncrement"}, []interface{}{vIntIncrement})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(Instruction)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("intIncrement as read", zzgov.Same(obj.IntIncrement(), vIntIncrement))
		zzgov.Ensures("intIncrement and nothing else", !obj.IsAssignment() && !obj.IsVariableDeclaration() && !obj.IsIfDeclaration() && !obj.IsForDeclaration() && !obj.IsFuncCall() && !obj.IsDirection() && obj.IsIntIncrement())
	}
}

//gov:lemma P04
//gov:depth 2
func zzReadAssignee(bitsize uint, kind int, vFirst AssigneeNameFirsts, vName AssigneeNames) {
	zzgov.Requires(0 <= kind && kind < 2)
	zzgov.Requires(vFirst != nil && vName != nil)
	zzgov.NoPanic()
	switch kind {
	case 0:
		res, err := zzRead(bitsize, "assignee", []string{"assigneeNameFirsts"}, []interface{}{vFirst})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(Assignee)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("assigneeNameFirsts as read", zzgov.Same(obj.First(), vFirst))
		zzgov.Ensures("assigneeNameFirsts and nothing else", obj.IsFirst() && !obj.IsName())
	case 1:
		res, err := zzRead(bitsize, "assignee", []string{"assigneeNames"}, []interface{}{vName})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(Assignee)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("assigneeNames as read", zzgov.Same(obj.Name(), vName))
		zzgov.Ensures("assigneeNames and nothing else", !obj.IsFirst() && obj.IsName())
	}
}

//gov:lemma P04
//gov:depth 2
func zzReadAssigneeNameFirst(bitsize uint, kind int, vDeclaration VariableDeclaration, vAssigneeName AssigneeName) {
	zzgov.Requires(0 <= kind && kind < 2)
	zzgov.Requires(vDeclaration != nil && vAssigneeName != nil)
	zzgov.NoPanic()
	switch kind {
	case 0:
		res, err := zzRead(bitsize, "assigneeNameFirst", []string{"variableDeclaration"}, []interface{}{vDeclaration})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(AssigneeNameFirst)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("variableDeclaration as read", zzgov.Same(obj.Declaration(), vDeclaration))
		zzgov.Ensures("variableDeclaration and nothing else", obj.IsDeclaration() && !obj.IsAssigneeName())
	case 1:
		res, err := zzRead(bitsize, "assigneeNameFirst", []string{"assigneeName"}, []interface{}{vAssigneeName})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(AssigneeNameFirst)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("assigneeName as read", zzgov.Same(obj.AssigneeName(), vAssigneeName))
		zzgov.Ensures("assigneeName and nothing else", !obj.IsDeclaration() && obj.IsAssigneeName())
	}
}

//gov:lemma P04
//gov:depth 2
func zzReadAssignable(bitsize uint, kind int, vList TotalListAssignable, vSingle SingleAssignable) {
	zzgov.Requires(0 <= kind && kind < 2)
	zzgov.Requires(vList != nil && vSingle != nil)
	zzgov.NoPanic()
	switch kind {
	case 0:
		res, err := zzRead(bitsize, "assignable", []string{"totalListAssignable"}, []interface{}{vList})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(Assignable)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("totalListAssignable as read", zzgov.Same(obj.List(), vList))
		zzgov.Ensures("totalListAssignable and nothing else", obj.IsList() && !obj.IsSingle())
	case 1:
		res, err := zzRead(bitsize, "assignable", []string{"singleAssignable"}, []interface{}{vSingle})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(Assignable)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("singleAssignable as read", zzgov.Same(obj.Single(), vSingle))
		zzgov.Ensures("singleAssignable and nothing else", !obj.IsList() && obj.IsSingle())
	}
}

//gov:lemma P04
//gov:depth 2
func zzReadSingleAssignable(bitsize uint, kind int, vDeclarableValue Value, vOperation Operation, vExtract TotalListAssignable, vListFetchElement ListFetchElement) {
	zzgov.Requires(0 <= kind && kind < 4)
	zzgov.Requires(vDeclarableValue != nil && vOperation != nil && vExtract != nil && vListFetchElement != nil)
	zzgov.NoPanic()
	switch kind {
	case 0:
		res, err := zzRead(bitsize, "singleAssignable", []string{"declarableValue"}, []interface{}{vDeclarableValue})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(SingleAssignable)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("declarableValue as read", zzgov.Same(obj.DeclarableValue(), vDeclarableValue))
		zzgov.Ensures("declarableValue and nothing else", obj.IsDeclarableValue() && !obj.IsOperation() && !obj.IsExtract() && !obj.IsListFetchElement())
	case 1:
		res, err := zzRead(bitsize, "singleAssignable", []string{"operation"}, []interface{}{vOperation})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(SingleAssignable)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("operation as read", zzgov.Same(obj.Operation(), vOperation))
		zzgov.Ensures("operation and nothing else", !obj.IsDeclarableValue() && obj.IsOperation() && !obj.IsExtract() && !obj.IsListFetchElement())
	case 2:
		res, err := zzRead(bitsize, "singleAssignable", []string{"listAssignableToAssignables"}, []interface{}{vExtract})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(SingleAssignable)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("listAssignableToAssignables as read", zzgov.Same(obj.Extract(), vExtract))
		zzgov.Ensures("listAssignableToAssignables and nothing else", !obj.IsDeclarableValue() && !obj.IsOperation() && obj.IsExtract() && !obj.IsListFetchElement())
	case 3:
		res, err := zzRead(bitsize, "singleAssignable", []string{"listFetchElement"}, []interface{}{vListFetchElement})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(SingleAssignable)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("listFetchElement as read", zzgov.Same(obj.ListFetchElement(), vListFetchElement))
		zzgov.Ensures("listFetchElement and nothing else", !obj.IsDeclarableValue() && !obj.IsOperation() && !obj.IsExtract() && obj.IsListFetchElement())
	}
}

//gov:lemma P04
//gov:depth 2
func zzReadTotalListValue(bitsize uint, kind int, vAssignable TotalListAssignable, vVariableName string) {
	zzgov.Requires(0 <= kind && kind < 2)
	zzgov.Requires(vAssignable != nil && vVariableName != "")
	zzgov.NoPanic()
	switch kind {
	case 0:
		res, err := zzRead(bitsize, "totalListValue", []string{"totalListAssignable"}, []interface{}{vAssignable})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(TotalListValue)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("totalListAssignable as read", zzgov.Same(obj.Assignable(), vAssignable))
		zzgov.Ensures("totalListAssignable and nothing else", obj.IsAssignable() && !obj.IsVariableName())
	case 1:
		res, err := zzRead(bitsize, "totalListValue", []string{"variableName"}, []interface{}{vVariableName})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(TotalListValue)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("variableName as read", obj.VariableName() == vVariableName)
		zzgov.Ensures("variableName and nothing else", !obj.IsAssignable() && obj.IsVariableName())
	}
}

//gov:lemma P04
//gov:depth 2
func zzReadTotalListAssignable(bitsize uint, kind int, vListValue ListValue, vSlice Slice, vAppend Append) {
	zzgov.Requires(0 <= kind && kind < 3)
	zzgov.Requires(vListValue != nil && vSlice != nil && vAppend != nil)
	zzgov.NoPanic()
	switch kind {
	case 0:
		res, err := zzRead(bitsize, "totalListAssignable", []string{"listValue"}, []interface{}{vListValue})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(TotalListAssignable)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("listValue as read", zzgov.Same(obj.ListValue(), vListValue))
		zzgov.Ensures("listValue and nothing else", obj.IsListValue() && !obj.IsSlice() && !obj.IsAppend())
	case 1:
		res, err := zzRead(bitsize, "totalListAssignable", []string{"slice"}, []interface{}{vSlice})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(TotalListAssignable)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("slice as read", zzgov.Same(obj.Slice(), vSlice))
		zzgov.Ensures("slice and nothing else", !obj.IsListValue() && obj.IsSlice() && !obj.IsAppend())
	case 2:
		res, err := zzRead(bitsize, "totalListAssignable", []string{"listAppend"}, []interface{}{vAppend})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(TotalListAssignable)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("listAppend as read", zzgov.Same(obj.Append(), vAppend))
		zzgov.Ensures("listAppend and nothing else", !obj.IsListValue() && !obj.IsSlice() && obj.IsAppend())
	}
}

//gov:lemma P04
//gov:depth 2
func zzReadListValue(bitsize uint, kind int, vAssignables Assignables, vVariableName string) {
	zzgov.Requires(0 <= kind && kind < 2)
	zzgov.Requires(vAssignables != nil && vVariableName != "")
	zzgov.NoPanic()
	switch kind {
	case 0:
		res, err := zzRead(bitsize, "listValue", []string{"listAssignable"}, []interface{}{vAssignables})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(ListValue)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("listAssignable as read", zzgov.Same(obj.Assignables(), vAssignables))
		zzgov.Ensures("listAssignable and nothing else", obj.IsAssignables() && !obj.IsVariableName())
	case 1:
		res, err := zzRead(bitsize, "listValue", []string{"variableName"}, []interface{}{vVariableName})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(ListValue)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("variableName as read", obj.VariableName() == vVariableName)
		zzgov.Ensures("variableName and nothing else", !obj.IsAssignables() && obj.IsVariableName())
	}
}

//gov:lemma P04
//gov:depth 2
func zzReadOperationElement(bitsize uint, kind int, vVariableName string, vComputableValue Value, vOperation Operation) {
	zzgov.Requires(0 <= kind && kind < 3)
	zzgov.Requires(vVariableName != "" && vComputableValue != nil && vOperation != nil)
	zzgov.NoPanic()
	switch kind {
	case 0:
		res, err := zzRead(bitsize, "operationElement", []string{"variableName"}, []interface{}{vVariableName})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(OperationElement)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("variableName as read", obj.VariableName() != nil && *obj.VariableName() == vVariableName)
		zzgov.Ensures("variableName and nothing else", obj.IsVariableName() && !obj.IsComputableValue() && !obj.IsOperation())
	case 1:
		res, err := zzRead(bitsize, "operationElement", []string{"computableValue"}, []interface{}{vComputableValue})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(OperationElement)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("computableValue as read", zzgov.Same(obj.ComputableValue(), vComputableValue))
		zzgov.Ensures("computableValue and nothing else", !obj.IsVariableName() && obj.IsComputableValue() && !obj.IsOperation())
	case 2:
		res, err := zzRead(bitsize, "operationElement", []string{"operation"}, []interface{}{vOperation})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(OperationElement)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("operation as read", zzgov.Same(obj.Operation(), vOperation))
		zzgov.Ensures("operation and nothing else", !obj.IsVariableName() && !obj.IsComputableValue() && obj.IsOperation())
	}
}

//gov:lemma P04
//gov:depth 2
func zzReadVoidFuncCalls(bitsize uint, kind int, vLog Assignable) {
	zzgov.Requires(0 <= kind && kind < 1)
	zzgov.Requires(vLog != nil)
	zzgov.NoPanic()
	switch kind {
	case 0:
		res, err := zzRead(bitsize, "voidFuncCalls", []string{"logFuncCall"}, []interface{}{vLog})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(VoidFuncCall)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("logFuncCall as read", zzgov.Same(obj.Log(), vLog))
		zzgov.Ensures("logFuncCall and nothing else", obj.IsLog())
	}
}

//gov:lemma P04
//gov:depth 2
func zzReadOperationFuncCalls(bitsize uint, kind int, vNull Operation) {
	zzgov.Requires(0 <= kind && kind < 1)
	zzgov.Requires(vNull != nil)
	zzgov.NoPanic()
	switch kind {
	case 0:
		res, err := zzRead(bitsize, "operationFuncCalls", []string{"isNullFuncCall"}, []interface{}{vNull})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(OperationFuncCall)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("isNullFuncCall as read", zzgov.Same(obj.Null(), vNull))
		zzgov.Ensures("isNullFuncCall and nothing else", obj.IsNull())
	}
}

//gov:lemma P04
//gov:depth 2
func zzReadProgram(bitsize uint, vInstructions Instructions, vVariables HeaderVariables, more bool) {
	zzgov.Requires(vInstructions != nil && vVariables != nil)
	zzgov.NoPanic()
	if !more {
		res, err := zzRead(bitsize, "program", []string{"instructions"}, []interface{}{vInstructions})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(Program)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("instructions as read", zzgov.Same(obj.Instructions(), vInstructions))
		zzgov.Ensures("headerVariables not held", !obj.HasVariables() && obj.Variables() == nil)
		return
	}
	res, err := zzRead(bitsize, "program", []string{"instructions", "headerVariables"}, []interface{}{vInstructions, vVariables})
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(Program)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("instructions as read", zzgov.Same(obj.Instructions(), vInstructions))
	zzgov.Ensures("headerVariables as read", zzgov.Same(obj.Variables(), vVariables))
	zzgov.Ensures("headerVariables held", obj.HasVariables())
}

//gov:lemma P04
//gov:depth 2
func zzReadForDeclaration(bitsize uint, vStatement ForStatement, vInstructions Instructions, more bool) {
	zzgov.Requires(vStatement != nil && vInstructions != nil)
	zzgov.NoPanic()
	if !more {
		res, err := zzRead(bitsize, "forDeclaration", []string{"forStatement"}, []interface{}{vStatement})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(ForDeclaration)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("forStatement as read", zzgov.Same(obj.Statement(), vStatement))
		zzgov.Ensures("instructions not held", !obj.HasInstructions() && obj.Instructions() == nil)
		return
	}
	res, err := zzRead(bitsize, "forDeclaration", []string{"forStatement", "instructions"}, []interface{}{vStatement, vInstructions})
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(ForDeclaration)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("forStatement as read", zzgov.Same(obj.Statement(), vStatement))
	zzgov.Ensures("instructions as read", zzgov.Same(obj.Instructions(), vInstructions))
	zzgov.Ensures("instructions held", obj.HasInstructions())
}

//gov:lemma P04
//gov:depth 2
func zzReadIfDeclaration(bitsize uint, vCondition Operation, vInstructions Instructions, more bool) {
	zzgov.Requires(vCondition != nil && vInstructions != nil)
	zzgov.NoPanic()
	if !more {
		res, err := zzRead(bitsize, "ifDeclaration", []string{"ifOperation"}, []interface{}{vCondition})
		zzgov.Ensures("read", err == nil)
		obj, ok := res.First().(IfDeclaration)
		zzgov.Ensures("of its kind", ok)
		zzgov.Ensures("ifOperation as read", zzgov.Same(obj.Condition(), vCondition))
		zzgov.Ensures("instructions not held", !obj.HasInstructions() && obj.Instructions() == nil)
		return
	}
	res, err := zzRead(bitsize, "ifDeclaration", []string{"ifOperation", "instructions"}, []interface{}{vCondition, vInstructions})
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(IfDeclaration)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("ifOperation as read", zzgov.Same(obj.Condition(), vCondition))
	zzgov.Ensures("instructions as read", zzgov.Same(obj.Instructions(), vInstructions))
	zzgov.Ensures("instructions held", obj.HasInstructions())
}

//gov:lemma P04
//gov:depth 2
func zzReadAssignment(bitsize uint, vAssignee Assignee, vAssignables Assignables) {
	zzgov.Requires(vAssignee != nil && vAssignables != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "assignment", []string{"assignee", "assignables"}, []interface{}{vAssignee, vAssignables})
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(Assignment)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("assignee as read", zzgov.Same(obj.Assignee(), vAssignee))
	zzgov.Ensures("assignables as read", zzgov.Same(obj.Assignables(), vAssignables))
}

//gov:lemma P04
//gov:depth 2
func zzReadSlice(bitsize uint, vList ListValue, vDelimiter SliceDelimiter) {
	zzgov.Requires(vList != nil && vDelimiter != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "slice", []string{"listValue", "sliceDelimiter"}, []interface{}{vList, vDelimiter})
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(Slice)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("listValue as read", zzgov.Same(obj.List(), vList))
	zzgov.Ensures("sliceDelimiter as read", zzgov.Same(obj.Delimiter(), vDelimiter))
}

//gov:lemma P04
//gov:depth 2
func zzReadListFetchElement(bitsize uint, vList TotalListValue, vIndex IndexValue) {
	zzgov.Requires(vList != nil && vIndex != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "listFetchElement", []string{"totalListValue", "listElementFetcher"}, []interface{}{vList, vIndex})
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(ListFetchElement)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("totalListValue as read", zzgov.Same(obj.List(), vList))
	zzgov.Ensures("listElementFetcher as read", zzgov.Same(obj.Index(), vIndex))
}

//gov:lemma P04
//gov:depth 2
func zzReadListAppend(bitsize uint, vList ListValue, vAssignable SingleAssignable) {
	zzgov.Requires(vList != nil && vAssignable != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "listAppend", []string{"listValue", "singleAssignable"}, []interface{}{vList, vAssignable})
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(Append)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("listValue as read", zzgov.Same(obj.List(), vList))
	zzgov.Ensures("singleAssignable as read", zzgov.Same(obj.Assignable(), vAssignable))
}

//gov:lemma P04
//gov:depth 2
func zzReadOperationSuffix(bitsize uint, vOperator uint16, vElement OperationElement) {
	zzgov.Requires(vOperator > 0 && vElement != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "operationSuffix", []string{"operator", "operationElement"}, []interface{}{vOperator, vElement})
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(OperationSuffix)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("operator as read", obj.Operator() == vOperator)
	zzgov.Ensures("operationElement as read", zzgov.Same(obj.Element(), vElement))
}

//gov:lemma P04
//gov:depth 2
func zzReadIntIncrement(bitsize uint, vVariableName string, vIncrement Value) {
	zzgov.Requires(vVariableName != "" && vIncrement != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "intIncrement", []string{"variableName", "intIncrementValue"}, []interface{}{vVariableName, vIncrement})
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(IntIncrement)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("variableName as read", obj.VariableName() == vVariableName)
	zzgov.Ensures("intIncrementValue as read", zzgov.Same(obj.Increment(), vIncrement))
}

//gov:lemma P04
//gov:depth 2
func zzReadVariableDeclaration(bitsize uint, vType Type, vName string) {
	zzgov.Requires(vType != nil && vName != "")
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "variableDeclaration", []string{"declarativeType", "variableName"}, []interface{}{vType, vName})
	zzgov.Ensures("read", err == nil)
	obj, ok := res.First().(VariableDeclaration)
	zzgov.Ensures("of its kind", ok)
	zzgov.Ensures("declarativeType as read", zzgov.Same(obj.Type(), vType))
	zzgov.Ensures("variableName as read", obj.Name() == vName)
}

//gov:lemma P04
//gov:depth 2
func zzPassLogFuncCallAssignable(bitsize uint, v Assignable) {
	zzgov.Requires(v != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "logFuncCall", []string{"assignable"}, []interface{}{v})
	zzgov.Ensures("read", err == nil)
	zzgov.Ensures("passed on", res.IsSingle() && zzgov.Same(res.First(), interface{}(v)))
}

//gov:lemma P04
//gov:depth 2
func zzPassIfOperationOperation(bitsize uint, v Operation) {
	zzgov.Requires(v != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "ifOperation", []string{"operation"}, []interface{}{v})
	zzgov.Ensures("read", err == nil)
	zzgov.Ensures("passed on", res.IsSingle() && zzgov.Same(res.First(), interface{}(v)))
}

//gov:lemma P04
//gov:depth 2
func zzPassIsNullFuncCallOperation(bitsize uint, v Operation) {
	zzgov.Requires(v != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "isNullFuncCall", []string{"operation"}, []interface{}{v})
	zzgov.Ensures("read", err == nil)
	zzgov.Ensures("passed on", res.IsSingle() && zzgov.Same(res.First(), interface{}(v)))
}

//gov:lemma P04
//gov:depth 2
func zzPassCommaAssigneeFirstAssigneeNameFirst(bitsize uint, v AssigneeNameFirst) {
	zzgov.Requires(v != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "commaAssigneeFirst", []string{"assigneeNameFirst"}, []interface{}{v})
	zzgov.Ensures("read", err == nil)
	zzgov.Ensures("passed on", res.IsSingle() && zzgov.Same(res.First(), interface{}(v)))
}

//gov:lemma P04
//gov:depth 2
func zzPassCommaAssigneeNameAssigneeName(bitsize uint, v AssigneeName) {
	zzgov.Requires(v != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "commaAssigneeName", []string{"assigneeName"}, []interface{}{v})
	zzgov.Ensures("read", err == nil)
	zzgov.Ensures("passed on", res.IsSingle() && zzgov.Same(res.First(), interface{}(v)))
}

//gov:lemma P04
//gov:depth 2
func zzPassCommaAssignableAssignable(bitsize uint, v Assignable) {
	zzgov.Requires(v != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "commaAssignable", []string{"assignable"}, []interface{}{v})
	zzgov.Ensures("read", err == nil)
	zzgov.Ensures("passed on", res.IsSingle() && zzgov.Same(res.First(), interface{}(v)))
}

//gov:lemma P04
//gov:depth 2
func zzPassCommaVariableDeclarationVariableDeclaration(bitsize uint, v VariableDeclaration) {
	zzgov.Requires(v != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "commaVariableDeclaration", []string{"variableDeclaration"}, []interface{}{v})
	zzgov.Ensures("read", err == nil)
	zzgov.Ensures("passed on", res.IsSingle() && zzgov.Same(res.First(), interface{}(v)))
}

//gov:lemma P04
//gov:depth 2
func zzPassListElementFetcherIndexValue(bitsize uint, v IndexValue) {
	zzgov.Requires(v != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "listElementFetcher", []string{"indexValue"}, []interface{}{v})
	zzgov.Ensures("read", err == nil)
	zzgov.Ensures("passed on", res.IsSingle() && zzgov.Same(res.First(), interface{}(v)))
}

//gov:lemma P04
//gov:depth 2
func zzPassListAssignableToAssignablesTotalListAssignable(bitsize uint, v TotalListAssignable) {
	zzgov.Requires(v != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "listAssignableToAssignables", []string{"totalListAssignable"}, []interface{}{v})
	zzgov.Ensures("read", err == nil)
	zzgov.Ensures("passed on", res.IsSingle() && zzgov.Same(res.First(), interface{}(v)))
}

//gov:lemma P04
//gov:depth 2
func zzPassListAssignableAssignables(bitsize uint, v Assignables) {
	zzgov.Requires(v != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "listAssignable", []string{"assignables"}, []interface{}{v})
	zzgov.Ensures("read", err == nil)
	zzgov.Ensures("passed on", res.IsSingle() && zzgov.Same(res.First(), interface{}(v)))
}

//gov:lemma P04
//gov:depth 2
func zzPassDeclarableValueComputableValue(bitsize uint, v Value) {
	zzgov.Requires(v != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "declarableValue", []string{"computableValue"}, []interface{}{v})
	zzgov.Ensures("read", err == nil)
	zzgov.Ensures("passed on", res.IsSingle() && zzgov.Same(res.First(), interface{}(v)))
}

//gov:lemma P04
//gov:depth 2
func zzPassDeclarableValuePrimitiveValue(bitsize uint, v Value) {
	zzgov.Requires(v != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "declarableValue", []string{"primitiveValue"}, []interface{}{v})
	zzgov.Ensures("read", err == nil)
	zzgov.Ensures("passed on", res.IsSingle() && zzgov.Same(res.First(), interface{}(v)))
}

//gov:lemma P04
//gov:depth 2
func zzPassComputableValueFloatValue(bitsize uint, v Value) {
	zzgov.Requires(v != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "computableValue", []string{"floatValue"}, []interface{}{v})
	zzgov.Ensures("read", err == nil)
	zzgov.Ensures("passed on", res.IsSingle() && zzgov.Same(res.First(), interface{}(v)))
}

//gov:lemma P04
//gov:depth 2
func zzPassComputableValueIntValue(bitsize uint, v Value) {
	zzgov.Requires(v != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "computableValue", []string{"intValue"}, []interface{}{v})
	zzgov.Ensures("read", err == nil)
	zzgov.Ensures("passed on", res.IsSingle() && zzgov.Same(res.First(), interface{}(v)))
}

//gov:lemma P04
//gov:depth 2
func zzPassPrimitiveValueBoolValue(bitsize uint, v Value) {
	zzgov.Requires(v != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "primitiveValue", []string{"boolValue"}, []interface{}{v})
	zzgov.Ensures("read", err == nil)
	zzgov.Ensures("passed on", res.IsSingle() && zzgov.Same(res.First(), interface{}(v)))
}

//gov:lemma P04
//gov:depth 2
func zzPassPrimitiveValueStringValue(bitsize uint, v Value) {
	zzgov.Requires(v != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "primitiveValue", []string{"stringValue"}, []interface{}{v})
	zzgov.Ensures("read", err == nil)
	zzgov.Ensures("passed on", res.IsSingle() && zzgov.Same(res.First(), interface{}(v)))
}

//gov:lemma P04
//gov:depth 2
func zzPassOperationOperationWithSuffix(bitsize uint, v Operation) {
	zzgov.Requires(v != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "operation", []string{"operationWithSuffix"}, []interface{}{v})
	zzgov.Ensures("read", err == nil)
	zzgov.Ensures("passed on", res.IsSingle() && zzgov.Same(res.First(), interface{}(v)))
}

//gov:lemma P04
//gov:depth 2
func zzPassForStatementForStatement(bitsize uint, v ForStatement) {
	zzgov.Requires(v != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "forStatement", []string{"forStatement"}, []interface{}{v})
	zzgov.Ensures("read", err == nil)
	zzgov.Ensures("passed on", res.IsSingle() && zzgov.Same(res.First(), interface{}(v)))
}

//gov:lemma P04
//gov:depth 2
func zzPassOperationOperation(bitsize uint, v Operation) {
	zzgov.Requires(v != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "operation", []string{"operation"}, []interface{}{v})
	zzgov.Ensures("read", err == nil)
	zzgov.Ensures("passed on", res.IsSingle() && zzgov.Same(res.First(), interface{}(v)))
}

//gov:lemma P04
//gov:depth 2
func zzPassListTypeDeclarativeType(bitsize uint, v Type) {
	zzgov.Requires(v != nil)
	zzgov.NoPanic()
	res, err := zzRead(bitsize, "listType", []string{"declarativeType"}, []interface{}{v})
	zzgov.Ensures("read", err == nil)
	zzgov.Ensures("passed on", res.IsSingle() && zzgov.Same(res.First(), interface{}(v)))
}
