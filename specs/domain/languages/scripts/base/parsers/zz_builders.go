//go:build go1.21

package parsers

import (
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops P03

//gov:lemma P03
func zzAppend(jList ListValue, jAssignable SingleAssignable, vList ListValue, vAssignable SingleAssignable) {
	zzgov.NoPanic()
	builder := NewAppendBuilder().WithList(jList).WithAssignable(jAssignable).Create()
	builder = builder.WithList(vList)
	builder = builder.WithAssignable(vAssignable)
	obj, err := builder.Now()
	ok := vList != nil && vAssignable != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("list as given", zzgov.Same(obj.List(), vList))
	zzgov.Ensures("assignable as given", zzgov.Same(obj.Assignable(), vAssignable))
}

//gov:lemma P03
func zzAssignable(jList TotalListAssignable, jSingle SingleAssignable, vList TotalListAssignable, vSingle SingleAssignable) {
	zzgov.NoPanic()
	builder := NewAssignableBuilder().WithList(jList).WithSingle(jSingle).Create()
	builder = builder.WithList(vList)
	builder = builder.WithSingle(vSingle)
	obj, err := builder.Now()
	ok := vList != nil || vSingle != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("list held only when given", !obj.IsList() || (vList != nil))
	zzgov.Ensures("list held when alone", obj.IsList() || !(vList != nil) || vSingle != nil)
	zzgov.Ensures("list as given", !obj.IsList() || zzgov.Same(obj.List(), vList))
	zzgov.Ensures("list absent unless held", obj.IsList() == (obj.List() != nil))
	zzgov.Ensures("single held only when given", !obj.IsSingle() || (vSingle != nil))
	zzgov.Ensures("single held when alone", obj.IsSingle() || !(vSingle != nil) || vList != nil)
	zzgov.Ensures("single as given", !obj.IsSingle() || zzgov.Same(obj.Single(), vSingle))
	zzgov.Ensures("single absent unless held", obj.IsSingle() == (obj.Single() != nil))
	zzgov.Ensures("one alternative at most", !(obj.IsList() && obj.IsSingle()))
}

//gov:lemma P03
func zzAssignee(jFirst AssigneeNameFirsts, jName AssigneeNames, vFirst AssigneeNameFirsts, vName AssigneeNames) {
	zzgov.NoPanic()
	builder := NewAssigneeBuilder().WithFirst(jFirst).WithName(jName).Create()
	builder = builder.WithFirst(vFirst)
	builder = builder.WithName(vName)
	obj, err := builder.Now()
	ok := vFirst != nil || vName != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("first held only when given", !obj.IsFirst() || (vFirst != nil))
	zzgov.Ensures("first held when alone", obj.IsFirst() || !(vFirst != nil) || vName != nil)
	zzgov.Ensures("first as given", !obj.IsFirst() || zzgov.Same(obj.First(), vFirst))
	zzgov.Ensures("first absent unless held", obj.IsFirst() == (obj.First() != nil))
	zzgov.Ensures("name held only when given", !obj.IsName() || (vName != nil))
	zzgov.Ensures("name held when alone", obj.IsName() || !(vName != nil) || vFirst != nil)
	zzgov.Ensures("name as given", !obj.IsName() || zzgov.Same(obj.Name(), vName))
	zzgov.Ensures("name absent unless held", obj.IsName() == (obj.Name() != nil))
	zzgov.Ensures("one alternative at most", !(obj.IsFirst() && obj.IsName()))
}

//gov:lemma P03
func zzAssigneeName(jVariable string, vVariable string, vIsSkip bool) {
	zzgov.NoPanic()
	builder := NewAssigneeNameBuilder().WithVariable(jVariable).IsSkip().Create()
	builder = builder.WithVariable(vVariable)
	if vIsSkip {
		builder = builder.IsSkip()
	}
	obj, err := builder.Now()
	ok := vVariable != "" || vIsSkip
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("variable held only when given", !obj.IsVariable() || (vVariable != ""))
	zzgov.Ensures("variable held when alone", obj.IsVariable() || !(vVariable != "") || vIsSkip)
	zzgov.Ensures("variable as given", !obj.IsVariable() || obj.Variable() == vVariable)
	zzgov.Ensures("isSkip held only when given", !obj.IsSkip() || vIsSkip)
	zzgov.Ensures("isSkip held when alone", obj.IsSkip() || !(vIsSkip) || vVariable != "")
	zzgov.Ensures("one alternative at most", !(obj.IsVariable() && obj.IsSkip()))
}

//gov:lemma P03
func zzAssigneeNameFirst(jDeclaration VariableDeclaration, jAssigneeName AssigneeName, vDeclaration VariableDeclaration, vAssigneeName AssigneeName) {
	zzgov.NoPanic()
	builder := NewAssigneeNameFirstBuilder().WithDeclaration(jDeclaration).WithAssigneeName(jAssigneeName).Create()
	builder = builder.WithDeclaration(vDeclaration)
	builder = builder.WithAssigneeName(vAssigneeName)
	obj, err := builder.Now()
	ok := vDeclaration != nil || vAssigneeName != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("declaration held only when given", !obj.IsDeclaration() || (vDeclaration != nil))
	zzgov.Ensures("declaration held when alone", obj.IsDeclaration() || !(vDeclaration != nil) || vAssigneeName != nil)
	zzgov.Ensures("declaration as given", !obj.IsDeclaration() || zzgov.Same(obj.Declaration(), vDeclaration))
	zzgov.Ensures("declaration absent unless held", obj.IsDeclaration() == (obj.Declaration() != nil))
	zzgov.Ensures("assigneeName held only when given", !obj.IsAssigneeName() || (vAssigneeName != nil))
	zzgov.Ensures("assigneeName held when alone", obj.IsAssigneeName() || !(vAssigneeName != nil) || vDeclaration != nil)
	zzgov.Ensures("assigneeName as given", !obj.IsAssigneeName() || zzgov.Same(obj.AssigneeName(), vAssigneeName))
	zzgov.Ensures("assigneeName absent unless held", obj.IsAssigneeName() == (obj.AssigneeName() != nil))
	zzgov.Ensures("one alternative at most", !(obj.IsDeclaration() && obj.IsAssigneeName()))
}

//gov:lemma P03
func zzAssigneeNameFirsts(jList []AssigneeNameFirst, vList []AssigneeNameFirst) {
	zzgov.NoPanic()
	builder := NewAssigneeNameFirstsBuilder().WithNames(jList).Create()
	builder = builder.WithNames(vList)
	obj, err := builder.Now()
	ok := len(vList) > 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("list as given", zzgov.Same(obj.All(), vList))
}

//gov:lemma P03
func zzAssigneeNames(jList []AssigneeName, vList []AssigneeName) {
	zzgov.NoPanic()
	builder := NewAssigneeNamesBuilder().WithNames(jList).Create()
	builder = builder.WithNames(vList)
	obj, err := builder.Now()
	ok := len(vList) > 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("list as given", zzgov.Same(obj.All(), vList))
}

//gov:lemma P03
func zzAssignment(jAssignee Assignee, jAssignables Assignables, vAssignee Assignee, vAssignables Assignables) {
	zzgov.NoPanic()
	builder := NewAssignmentBuilder().WithAssignee(jAssignee).WithAssignables(jAssignables).Create()
	builder = builder.WithAssignee(vAssignee)
	builder = builder.WithAssignables(vAssignables)
	obj, err := builder.Now()
	ok := vAssignee != nil && vAssignables != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("assignee as given", zzgov.Same(obj.Assignee(), vAssignee))
	zzgov.Ensures("assignables as given", zzgov.Same(obj.Assignables(), vAssignables))
}

//gov:lemma P03
func zzDirection(vIsBreak bool, vIsContinue bool) {
	zzgov.NoPanic()
	builder := NewDirectionBuilder().IsBreak().IsContinue().Create()
	if vIsBreak {
		builder = builder.IsBreak()
	}
	if vIsContinue {
		builder = builder.IsContinue()
	}
	obj, err := builder.Now()
	ok := vIsBreak || vIsContinue
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("isBreak held only when given", !obj.IsBreak() || vIsBreak)
	zzgov.Ensures("isBreak held when alone", obj.IsBreak() || !(vIsBreak) || vIsContinue)
	zzgov.Ensures("isContinue held only when given", !obj.IsContinue() || vIsContinue)
	zzgov.Ensures("isContinue held when alone", obj.IsContinue() || !(vIsContinue) || vIsBreak)
	zzgov.Ensures("one alternative at most", !(obj.IsBreak() && obj.IsContinue()))
}

//gov:lemma P03
func zzForDeclaration(jStatement ForStatement, jInstructions Instructions, vStatement ForStatement, vInstructions Instructions) {
	zzgov.NoPanic()
	builder := NewForDeclarationBuilder().WithStatement(jStatement).WithInstructions(jInstructions).Create()
	builder = builder.WithStatement(vStatement)
	builder = builder.WithInstructions(vInstructions)
	obj, err := builder.Now()
	ok := vStatement != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("statement as given", zzgov.Same(obj.Statement(), vStatement))
	zzgov.Ensures("instructions exactly when given", obj.HasInstructions() == (vInstructions != nil) && zzgov.Same(obj.Instructions(), vInstructions))
}

//gov:lemma P03
func zzForStatement(jIndex AssigneeName, jValue AssigneeName, jIterable TotalListValue, vIndex AssigneeName, vValue AssigneeName, vIterable TotalListValue) {
	zzgov.NoPanic()
	builder := NewForStatementBuilder().WithIndex(jIndex).WithValue(jValue).WithIterable(jIterable).Create()
	builder = builder.WithIndex(vIndex)
	builder = builder.WithValue(vValue)
	builder = builder.WithIterable(vIterable)
	obj, err := builder.Now()
	ok := vIndex != nil && vValue != nil && vIterable != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("index as given", zzgov.Same(obj.Index(), vIndex))
	zzgov.Ensures("value as given", zzgov.Same(obj.Value(), vValue))
	zzgov.Ensures("iterable as given", zzgov.Same(obj.Iterable(), vIterable))
}

//
//gov:lemma P03
func zzHeaderVariable(jDeclaration VariableDeclaration, jKeyname string, vDeclaration VariableDeclaration, vKeyname string, vIsMandatory bool, vIsInput bool) {
	zzgov.NoPanic()
	builder := NewHeaderVariableBuilder().WithDeclaration(jDeclaration).WithKeyname(jKeyname).IsMandatory().IsInput().Create()
	builder = builder.WithDeclaration(vDeclaration)
	builder = builder.WithKeyname(vKeyname)
	if vIsMandatory {
		builder = builder.IsMandatory()
	}
	if vIsInput {
		builder = builder.IsInput()
	}
	obj, err := builder.Now()
	ok := vDeclaration != nil && vKeyname != ""
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("declaration as given", zzgov.Same(obj.Declaration(), vDeclaration))
	zzgov.Ensures("keyname as given", obj.Keyname() == vKeyname)
	zzgov.Ensures("isMandatory exactly when asked", obj.IsMandatory() == vIsMandatory)
	zzgov.Ensures("isInput exactly when asked", obj.IsInput() == vIsInput)
}

//gov:lemma P03
func zzHeaderVariables(jList []HeaderVariable, vList []HeaderVariable) {
	zzgov.NoPanic()
	builder := NewHeaderVariablesBuilder().WithVariables(jList).Create()
	builder = builder.WithVariables(vList)
	obj, err := builder.Now()
	ok := len(vList) > 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("list as given", zzgov.Same(obj.All(), vList))
}

//gov:lemma P03
func zzIfDeclaration(jCondition Operation, jInstructions Instructions, vCondition Operation, vInstructions Instructions) {
	zzgov.NoPanic()
	builder := NewIfDeclarationBuilder().WithCondition(jCondition).WithInstructions(jInstructions).Create()
	builder = builder.WithCondition(vCondition)
	builder = builder.WithInstructions(vInstructions)
	obj, err := builder.Now()
	ok := vCondition != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("condition as given", zzgov.Same(obj.Condition(), vCondition))
	zzgov.Ensures("instructions exactly when given", obj.HasInstructions() == (vInstructions != nil) && zzgov.Same(obj.Instructions(), vInstructions))
}

//gov:lemma P03
func zzIndexValue(jValue Value, jVariableName string, vValue Value, vVariableName string) {
	zzgov.NoPanic()
	builder := NewIndexValueBuilder().WithValue(jValue).WithVariableName(jVariableName).Create()
	builder = builder.WithValue(vValue)
	builder = builder.WithVariableName(vVariableName)
	obj, err := builder.Now()
	ok := vValue != nil || vVariableName != ""
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("value held only when given", !obj.IsValue() || (vValue != nil))
	zzgov.Ensures("value held when alone", obj.IsValue() || !(vValue != nil) || vVariableName != "")
	zzgov.Ensures("value as given", !obj.IsValue() || zzgov.Same(obj.Value(), vValue))
	zzgov.Ensures("value absent unless held", obj.IsValue() == (obj.Value() != nil))
	zzgov.Ensures("variableName held only when given", !obj.IsVariableName() || (vVariableName != ""))
	zzgov.Ensures("variableName held when alone", obj.IsVariableName() || !(vVariableName != "") || vValue != nil)
	zzgov.Ensures("variableName as given", !obj.IsVariableName() || obj.VariableName() == vVariableName)
	zzgov.Ensures("one alternative at most", !(obj.IsValue() && obj.IsVariableName()))
}

//gov:lemma P03
func zzInstruction(jAssignment Assignment, jVariableDeclaration VariableDeclaration, jIfDeclaration IfDeclaration, jForDeclaration ForDeclaration, jVoidFuncCall VoidFuncCall, jDirection Direction, jIntIncrement IntIncrement, vAssignment Assignment, vVariableDeclaration VariableDeclaration, vIfDeclaration IfDeclaration, vForDeclaration ForDeclaration, vVoidFuncCall VoidFuncCall, vDirection Direction, vIntIncrement IntIncrement) {
	zzgov.NoPanic()
	builder := NewInstructionBuilder().WithAssignment(jAssignment).WithVariableDeclaration(jVariableDeclaration).WithIfDeclaration(jIfDeclaration).WithForDeclaration(jForDeclaration).WithFuncCall(jVoidFuncCall).WithDirection(jDirection).WithIntIncrement(jIntIncrement).Create()
	builder = builder.WithAssignment(vAssignment)
	builder = builder.WithVariableDeclaration(vVariableDeclaration)
	builder = builder.WithIfDeclaration(vIfDeclaration)
	builder = builder.WithForDeclaration(vForDeclaration)
	builder = builder.WithFuncCall(vVoidFuncCall)
	builder = builder.WithDirection(vDirection)
	builder = builder.WithIntIncrement(vIntIncrement)
	obj, err := builder.Now()
	ok := vAssignment != nil || vVariableDeclaration != nil || vIfDeclaration != nil || vForDeclaration != nil || vVoidFuncCall != nil || vDirection != nil || vIntIncrement != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("assignment held only when given", !obj.IsAssignment() || (vAssignment != nil))
	zzgov.Ensures("assignment held when alone", obj.IsAssignment() || !(vAssignment != nil) || vVariableDeclaration != nil || vIfDeclaration != nil || vForDeclaration != nil || vVoidFuncCall != nil || vDirection != nil || vIntIncrement != nil)
	zzgov.Ensures("assignment as given", !obj.IsAssignment() || zzgov.Same(obj.Assignment(), vAssignment))
	zzgov.Ensures("assignment absent unless held", obj.IsAssignment() == (obj.Assignment() != nil))
	zzgov.Ensures("variableDeclaration held only when given", !obj.IsVariableDeclaration() || (vVariableDeclaration != nil))
	zzgov.Ensures("variableDeclaration held when alone", obj.IsVariableDeclaration() || !(vVariableDeclaration != nil) || vAssignment != nil || vIfDeclaration != nil || vForDeclaration != nil || vVoidFuncCall != nil || vDirection != nil || vIntIncrement != nil)
	zzgov.Ensures("variableDeclaration as given", !obj.IsVariableDeclaration() || zzgov.Same(obj.VariableDeclaration(), vVariableDeclaration))
	zzgov.Ensures("variableDeclaration absent unless held", obj.IsVariableDeclaration() == (obj.VariableDeclaration() != nil))
	zzgov.Ensures("ifDeclaration held only when given", !obj.IsIfDeclaration() || (vIfDeclaration != nil))
	zzgov.Ensures("ifDeclaration held when alone", obj.IsIfDeclaration() || !(vIfDeclaration != nil) || vAssignment != nil || vVariableDeclaration != nil || vForDeclaration != nil || vVoidFuncCall != nil || vDirection != nil || vIntIncrement != nil)
	zzgov.Ensures("ifDeclaration as given", !obj.IsIfDeclaration() || zzgov.Same(obj.IfDeclaration(), vIfDeclaration))
	zzgov.Ensures("ifDeclaration absent unless held", obj.IsIfDeclaration() == (obj.IfDeclaration() != nil))
	zzgov.Ensures("forDeclaration held only when given", !obj.IsForDeclaration() || (vForDeclaration != nil))
	zzgov.Ensures("forDeclaration held when alone", obj.IsForDeclaration() || !(vForDeclaration != nil) || vAssignment != nil || vVariableDeclaration != nil || vIfDeclaration != nil || vVoidFuncCall != nil || vDirection != nil || vIntIncrement != nil)
	zzgov.Ensures("forDeclaration as given", !obj.IsForDeclaration() || zzgov.Same(obj.ForDeclaration(), vForDeclaration))
	zzgov.Ensures("forDeclaration absent unless held", obj.IsForDeclaration() == (obj.ForDeclaration() != nil))
	zzgov.Ensures("voidFuncCall held only when given", !obj.IsFuncCall() || (vVoidFuncCall != nil))
	zzgov.Ensures("voidFuncCall held when alone", obj.IsFuncCall() || !(vVoidFuncCall != nil) || vAssignment != nil || vVariableDeclaration != nil || vIfDeclaration != nil || vForDeclaration != nil || vDirection != nil || vIntIncrement != nil)
	zzgov.Ensures("voidFuncCall as given", !obj.IsFuncCall() || zzgov.Same(obj.FuncCall(), vVoidFuncCall))
	zzgov.Ensures("voidFuncCall absent unless held", obj.IsFuncCall() == (obj.FuncCall() != nil))
	zzgov.Ensures("direction held only when given", !obj.IsDirection() || (vDirection != nil))
	zzgov.Ensures("direction held when alone", obj.IsDirection() || !(vDirection != nil) || vAssignment != nil || vVariableDeclaration != nil || vIfDeclaration != nil || vForDeclaration != nil || vVoidFuncCall != nil || vIntIncrement != nil)
	zzgov.Ensures("direction as given", !obj.IsDirection() || zzgov.Same(obj.Direction(), vDirection))
	zzgov.Ensures("direction absent unless held", obj.IsDirection() == (obj.Direction() != nil))
	zzgov.Ensures("intIncrement held only when given", !obj.IsIntIncrement() || (vIntIncrement != nil))
	zzgov.Ensures("intIncrement held when alone", obj.IsIntIncrement() || !(vIntIncrement != nil) || vAssignment != nil || vVariableDeclaration != nil || vIfDeclaration != nil || vForDeclaration != nil || vVoidFuncCall != nil || vDirection != nil)
	zzgov.Ensures("intIncrement as given", !obj.IsIntIncrement() || zzgov.Same(obj.IntIncrement(), vIntIncrement))
	zzgov.Ensures("intIncrement absent unless held", obj.IsIntIncrement() == (obj.IntIncrement() != nil))
	zzgov.Ensures("one alternative at most", !(obj.IsAssignment() && obj.IsVariableDeclaration()) && !(obj.IsAssignment() && obj.IsIfDeclaration()) && !(obj.IsAssignment() && obj.IsForDeclaration()) && !(obj.IsAssignment() && obj.IsFuncCall()) && !(obj.IsAssignment() && obj.IsDirection()) && !(obj.IsAssignment() && obj.IsIntIncrement()) && !(obj.IsVariableDeclaration() && obj.IsIfDeclaration()) && !(obj.IsVariableDeclaration() && obj.IsForDeclaration()) && !(obj.IsVariableDeclaration() && obj.IsFuncCall()) && !(obj.IsVariableDeclaration() && obj.IsDirection()) && !(obj.IsVariableDeclaration() && obj.IsIntIncrement()) && !(obj.IsIfDeclaration() && obj.IsForDeclaration()) && !(obj.IsIfDeclaration() && obj.IsFuncCall()) && !(obj.IsIfDeclaration() && obj.IsDirection()) && !(obj.IsIfDeclaration() && obj.IsIntIncrement()) && !(obj.IsForDeclaration() && obj.IsFuncCall()) && !(obj.IsForDeclaration() && obj.IsDirection()) && !(obj.IsForDeclaration() && obj.IsIntIncrement()) && !(obj.IsFuncCall() && obj.IsDirection()) && !(obj.IsFuncCall() && obj.IsIntIncrement()) && !(obj.IsDirection() && obj.IsIntIncrement()))
}

//gov:lemma P03
func zzInstructions(jList []Instruction, vList []Instruction) {
	zzgov.NoPanic()
	builder := NewInstructionsBuilder().WithInstructions(jList).Create()
	builder = builder.WithInstructions(vList)
	obj, err := builder.Now()
	ok := len(vList) > 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("list as given", zzgov.Same(obj.All(), vList))
}

//gov:lemma P03
func zzIntIncrement(jVariableName string, jIncrement Value, vVariableName string, vIncrement Value) {
	zzgov.NoPanic()
	builder := NewIntIncrementBuilder().WithVariableName(jVariableName).WithIncrement(jIncrement).Create()
	builder = builder.WithVariableName(vVariableName)
	builder = builder.WithIncrement(vIncrement)
	obj, err := builder.Now()
	ok := vVariableName != "" && vIncrement != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("variableName as given", obj.VariableName() == vVariableName)
	zzgov.Ensures("increment as given", zzgov.Same(obj.Increment(), vIncrement))
}

//gov:lemma P03
func zzListFetchElement(jList TotalListValue, jIndex IndexValue, vList TotalListValue, vIndex IndexValue) {
	zzgov.NoPanic()
	builder := NewListFetchElementBuilder().WithList(jList).WithIndex(jIndex).Create()
	builder = builder.WithList(vList)
	builder = builder.WithIndex(vIndex)
	obj, err := builder.Now()
	ok := vList != nil && vIndex != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("list as given", zzgov.Same(obj.List(), vList))
	zzgov.Ensures("index as given", zzgov.Same(obj.Index(), vIndex))
}

//gov:lemma P03
func zzListValue(jAssignables Assignables, jVariableName string, vAssignables Assignables, vVariableName string) {
	zzgov.NoPanic()
	builder := NewListValueBuilder().WithAssignables(jAssignables).WithVariableName(jVariableName).Create()
	builder = builder.WithAssignables(vAssignables)
	builder = builder.WithVariableName(vVariableName)
	obj, err := builder.Now()
	ok := vAssignables != nil || vVariableName != ""
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("assignables held only when given", !obj.IsAssignables() || (vAssignables != nil))
	zzgov.Ensures("assignables held when alone", obj.IsAssignables() || !(vAssignables != nil) || vVariableName != "")
	zzgov.Ensures("assignables as given", !obj.IsAssignables() || zzgov.Same(obj.Assignables(), vAssignables))
	zzgov.Ensures("assignables absent unless held", obj.IsAssignables() == (obj.Assignables() != nil))
	zzgov.Ensures("variableName held only when given", !obj.IsVariableName() || (vVariableName != ""))
	zzgov.Ensures("variableName held when alone", obj.IsVariableName() || !(vVariableName != "") || vAssignables != nil)
	zzgov.Ensures("variableName as given", !obj.IsVariableName() || obj.VariableName() == vVariableName)
	zzgov.Ensures("one alternative at most", !(obj.IsAssignables() && obj.IsVariableName()))
}

//gov:lemma P03
func zzOperationElement(jBoolValue bool, jVariableName string, jComputableValue Value, jOperation Operation, jFnCall OperationFuncCall, withBoolValue bool, vBoolValue bool, withVariableName bool, vVariableName string, vComputableValue Value, vOperation Operation, vFnCall OperationFuncCall) {
	zzgov.NoPanic()
	builder := NewOperatonElementBuilder().WithBoolValue(jBoolValue).WithVariableName(jVariableName).WithComputableValue(jComputableValue).WithOperation(jOperation).WithFuncCall(jFnCall).Create()
	if withBoolValue {
		builder = builder.WithBoolValue(vBoolValue)
	}
	if withVariableName {
		builder = builder.WithVariableName(vVariableName)
	}
	builder = builder.WithComputableValue(vComputableValue)
	builder = builder.WithOperation(vOperation)
	builder = builder.WithFuncCall(vFnCall)
	obj, err := builder.Now()
	ok := withBoolValue || withVariableName || vComputableValue != nil || vOperation != nil || vFnCall != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("boolValue held only when given", !obj.IsBoolValue() || withBoolValue)
	zzgov.Ensures("boolValue held when alone", obj.IsBoolValue() || !(withBoolValue) || withVariableName || vComputableValue != nil || vOperation != nil || vFnCall != nil)
	zzgov.Ensures("boolValue as given", !obj.IsBoolValue() || *obj.BoolValue() == vBoolValue)
	zzgov.Ensures("boolValue absent unless held", obj.IsBoolValue() == (obj.BoolValue() != nil))
	zzgov.Ensures("variableName held only when given", !obj.IsVariableName() || withVariableName)
	zzgov.Ensures("variableName held when alone", obj.IsVariableName() || !(withVariableName) || withBoolValue || vComputableValue != nil || vOperation != nil || vFnCall != nil)
	zzgov.Ensures("variableName as given", !obj.IsVariableName() || *obj.VariableName() == vVariableName)
	zzgov.Ensures("variableName absent unless held", obj.IsVariableName() == (obj.VariableName() != nil))
	zzgov.Ensures("computableValue held only when given", !obj.IsComputableValue() || (vComputableValue != nil))
	zzgov.Ensures("computableValue held when alone", obj.IsComputableValue() || !(vComputableValue != nil) || withBoolValue || withVariableName || vOperation != nil || vFnCall != nil)
	zzgov.Ensures("computableValue as given", !obj.IsComputableValue() || zzgov.Same(obj.ComputableValue(), vComputableValue))
	zzgov.Ensures("computableValue absent unless held", obj.IsComputableValue() == (obj.ComputableValue() != nil))
	zzgov.Ensures("operation held only when given", !obj.IsOperation() || (vOperation != nil))
	zzgov.Ensures("operation held when alone", obj.IsOperation() || !(vOperation != nil) || withBoolValue || withVariableName || vComputableValue != nil || vFnCall != nil)
	zzgov.Ensures("operation as given", !obj.IsOperation() || zzgov.Same(obj.Operation(), vOperation))
	zzgov.Ensures("operation absent unless held", obj.IsOperation() == (obj.Operation() != nil))
	zzgov.Ensures("fnCall held only when given", !obj.IsFuncCall() || (vFnCall != nil))
	zzgov.Ensures("fnCall held when alone", obj.IsFuncCall() || !(vFnCall != nil) || withBoolValue || withVariableName || vComputableValue != nil || vOperation != nil)
	zzgov.Ensures("fnCall as given", !obj.IsFuncCall() || zzgov.Same(obj.FuncCall(), vFnCall))
	zzgov.Ensures("fnCall absent unless held", obj.IsFuncCall() == (obj.FuncCall() != nil))
	zzgov.Ensures("one alternative at most", !(obj.IsBoolValue() && obj.IsVariableName()) && !(obj.IsBoolValue() && obj.IsComputableValue()) && !(obj.IsBoolValue() && obj.IsOperation()) && !(obj.IsBoolValue() && obj.IsFuncCall()) && !(obj.IsVariableName() && obj.IsComputableValue()) && !(obj.IsVariableName() && obj.IsOperation()) && !(obj.IsVariableName() && obj.IsFuncCall()) && !(obj.IsComputableValue() && obj.IsOperation()) && !(obj.IsComputableValue() && obj.IsFuncCall()) && !(obj.IsOperation() && obj.IsFuncCall()))
}

//
//gov:lemma P03
func zzOperationFuncCall(jNull Operation, vNull Operation) {
	zzgov.NoPanic()
	builder := NewOperationFuncCallBuilder().WithNull(jNull).Create()
	builder = builder.WithNull(vNull)
	obj, err := builder.Now()
	ok := vNull != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("null held only when given", !obj.IsNull() || (vNull != nil))
	zzgov.Ensures("null held when alone", obj.IsNull() || !(vNull != nil))
	zzgov.Ensures("null as given", !obj.IsNull() || zzgov.Same(obj.Null(), vNull))
	zzgov.Ensures("null absent unless held", obj.IsNull() == (obj.Null() != nil))
}

//gov:lemma P03
func zzOperationSuffix(jOperator uint16, jElement OperationElement, withOperator bool, vOperator uint16, vElement OperationElement) {
	zzgov.NoPanic()
	builder := NewOperationSuffixBuilder().WithOperator(jOperator).WithElement(jElement).Create()
	if withOperator {
		builder = builder.WithOperator(vOperator)
	}
	builder = builder.WithElement(vElement)
	obj, err := builder.Now()
	ok := withOperator && vElement != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("operator as given", zzgov.Same(obj.Operator(), vOperator))
	zzgov.Ensures("element as given", zzgov.Same(obj.Element(), vElement))
}

//gov:lemma P03
func zzProgram(jInstructions Instructions, jVariables HeaderVariables, vInstructions Instructions, vVariables HeaderVariables) {
	zzgov.NoPanic()
	builder := NewProgramBuilder().WithInstructions(jInstructions).WithVariables(jVariables).Create()
	builder = builder.WithInstructions(vInstructions)
	builder = builder.WithVariables(vVariables)
	obj, err := builder.Now()
	ok := vInstructions != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("instructions as given", zzgov.Same(obj.Instructions(), vInstructions))
	zzgov.Ensures("variables exactly when given", obj.HasVariables() == (vVariables != nil) && zzgov.Same(obj.Variables(), vVariables))
}

//gov:lemma P03
func zzSingleAssignable(jDeclarableValue Value, jOperation Operation, jExtract TotalListAssignable, jListFetchElement ListFetchElement, vDeclarableValue Value, vOperation Operation, vExtract TotalListAssignable, vListFetchElement ListFetchElement) {
	zzgov.NoPanic()
	builder := NewSingleAssignableBuilder().WithDeclarableValue(jDeclarableValue).WithOperation(jOperation).WithExtract(jExtract).WithListFetchElement(jListFetchElement).Create()
	builder = builder.WithDeclarableValue(vDeclarableValue)
	builder = builder.WithOperation(vOperation)
	builder = builder.WithExtract(vExtract)
	builder = builder.WithListFetchElement(vListFetchElement)
	obj, err := builder.Now()
	ok := vDeclarableValue != nil || vOperation != nil || vExtract != nil || vListFetchElement != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("declarableValue held only when given", !obj.IsDeclarableValue() || (vDeclarableValue != nil))
	zzgov.Ensures("declarableValue held when alone", obj.IsDeclarableValue() || !(vDeclarableValue != nil) || vOperation != nil || vExtract != nil || vListFetchElement != nil)
	zzgov.Ensures("declarableValue as given", !obj.IsDeclarableValue() || zzgov.Same(obj.DeclarableValue(), vDeclarableValue))
	zzgov.Ensures("declarableValue absent unless held", obj.IsDeclarableValue() == (obj.DeclarableValue() != nil))
	zzgov.Ensures("operation held only when given", !obj.IsOperation() || (vOperation != nil))
	zzgov.Ensures("operation held when alone", obj.IsOperation() || !(vOperation != nil) || vDeclarableValue != nil || vExtract != nil || vListFetchElement != nil)
	zzgov.Ensures("operation as given", !obj.IsOperation() || zzgov.Same(obj.Operation(), vOperation))
	zzgov.Ensures("operation absent unless held", obj.IsOperation() == (obj.Operation() != nil))
	zzgov.Ensures("extract held only when given", !obj.IsExtract() || (vExtract != nil))
	zzgov.Ensures("extract held when alone", obj.IsExtract() || !(vExtract != nil) || vDeclarableValue != nil || vOperation != nil || vListFetchElement != nil)
	zzgov.Ensures("extract as given", !obj.IsExtract() || zzgov.Same(obj.Extract(), vExtract))
	zzgov.Ensures("extract absent unless held", obj.IsExtract() == (obj.Extract() != nil))
	zzgov.Ensures("listFetchElement held only when given", !obj.IsListFetchElement() || (vListFetchElement != nil))
	zzgov.Ensures("listFetchElement held when alone", obj.IsListFetchElement() || !(vListFetchElement != nil) || vDeclarableValue != nil || vOperation != nil || vExtract != nil)
	zzgov.Ensures("listFetchElement as given", !obj.IsListFetchElement() || zzgov.Same(obj.ListFetchElement(), vListFetchElement))
	zzgov.Ensures("listFetchElement absent unless held", obj.IsListFetchElement() == (obj.ListFetchElement() != nil))
	zzgov.Ensures("one alternative at most", !(obj.IsDeclarableValue() && obj.IsOperation()) && !(obj.IsDeclarableValue() && obj.IsExtract()) && !(obj.IsDeclarableValue() && obj.IsListFetchElement()) && !(obj.IsOperation() && obj.IsExtract()) && !(obj.IsOperation() && obj.IsListFetchElement()) && !(obj.IsExtract() && obj.IsListFetchElement()))
}

//gov:lemma P03
func zzSlice(jList ListValue, jDelimiter SliceDelimiter, vList ListValue, vDelimiter SliceDelimiter) {
	zzgov.NoPanic()
	builder := NewSliceBuilder().WithList(jList).WithDelimiter(jDelimiter).Create()
	builder = builder.WithList(vList)
	builder = builder.WithDelimiter(vDelimiter)
	obj, err := builder.Now()
	ok := vList != nil && vDelimiter != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("list as given", zzgov.Same(obj.List(), vList))
	zzgov.Ensures("delimiter as given", zzgov.Same(obj.Delimiter(), vDelimiter))
}

//gov:lemma P03
func zzSliceDelimiter(jIndex IndexValue, jAmount IndexValue, vIndex IndexValue, vAmount IndexValue) {
	zzgov.NoPanic()
	builder := NewSliceDelimiterBuilder().WithIndex(jIndex).WithAmount(jAmount).Create()
	builder = builder.WithIndex(vIndex)
	builder = builder.WithAmount(vAmount)
	obj, err := builder.Now()
	ok := vIndex != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("index as given", zzgov.Same(obj.Index(), vIndex))
	zzgov.Ensures("amount exactly when given", obj.HasAmount() == (vAmount != nil) && zzgov.Same(obj.Amount(), vAmount))
}

//gov:lemma P03
func zzTotalListAssignable(jListValue ListValue, jSlice Slice, jAppnd Append, vListValue ListValue, vSlice Slice, vAppnd Append) {
	zzgov.NoPanic()
	builder := NewTotalListAssignableBuilder().WithListValue(jListValue).WithSlice(jSlice).WithAppend(jAppnd).Create()
	builder = builder.WithListValue(vListValue)
	builder = builder.WithSlice(vSlice)
	builder = builder.WithAppend(vAppnd)
	obj, err := builder.Now()
	ok := vListValue != nil || vSlice != nil || vAppnd != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("listValue held only when given", !obj.IsListValue() || (vListValue != nil))
	zzgov.Ensures("listValue held when alone", obj.IsListValue() || !(vListValue != nil) || vSlice != nil || vAppnd != nil)
	zzgov.Ensures("listValue as given", !obj.IsListValue() || zzgov.Same(obj.ListValue(), vListValue))
	zzgov.Ensures("listValue absent unless held", obj.IsListValue() == (obj.ListValue() != nil))
	zzgov.Ensures("slice held only when given", !obj.IsSlice() || (vSlice != nil))
	zzgov.Ensures("slice held when alone", obj.IsSlice() || !(vSlice != nil) || vListValue != nil || vAppnd != nil)
	zzgov.Ensures("slice as given", !obj.IsSlice() || zzgov.Same(obj.Slice(), vSlice))
	zzgov.Ensures("slice absent unless held", obj.IsSlice() == (obj.Slice() != nil))
	zzgov.Ensures("appnd held only when given", !obj.IsAppend() || (vAppnd != nil))
	zzgov.Ensures("appnd held when alone", obj.IsAppend() || !(vAppnd != nil) || vListValue != nil || vSlice != nil)
	zzgov.Ensures("appnd as given", !obj.IsAppend() || zzgov.Same(obj.Append(), vAppnd))
	zzgov.Ensures("appnd absent unless held", obj.IsAppend() == (obj.Append() != nil))
	zzgov.Ensures("one alternative at most", !(obj.IsListValue() && obj.IsSlice()) && !(obj.IsListValue() && obj.IsAppend()) && !(obj.IsSlice() && obj.IsAppend()))
}

//gov:lemma P03
func zzTotalListValue(jAssignable TotalListAssignable, jVariableName string, vAssignable TotalListAssignable, vVariableName string) {
	zzgov.NoPanic()
	builder := NewTotalListValueBuilder().WithAssignable(jAssignable).WithVariableName(jVariableName).Create()
	builder = builder.WithAssignable(vAssignable)
	builder = builder.WithVariableName(vVariableName)
	obj, err := builder.Now()
	ok := vAssignable != nil || vVariableName != ""
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("assignable held only when given", !obj.IsAssignable() || (vAssignable != nil))
	zzgov.Ensures("assignable held when alone", obj.IsAssignable() || !(vAssignable != nil) || vVariableName != "")
	zzgov.Ensures("assignable as given", !obj.IsAssignable() || zzgov.Same(obj.Assignable(), vAssignable))
	zzgov.Ensures("assignable absent unless held", obj.IsAssignable() == (obj.Assignable() != nil))
	zzgov.Ensures("variableName held only when given", !obj.IsVariableName() || (vVariableName != ""))
	zzgov.Ensures("variableName held when alone", obj.IsVariableName() || !(vVariableName != "") || vAssignable != nil)
	zzgov.Ensures("variableName as given", !obj.IsVariableName() || obj.VariableName() == vVariableName)
	zzgov.Ensures("one alternative at most", !(obj.IsAssignable() && obj.IsVariableName()))
}

//
//gov:lemma P03
func zzType(jDept uint, jFlag uint8, vDept uint, withFlag bool, vFlag uint8) {
	zzgov.NoPanic()
	builder := NewTypeBuilder().WithDept(jDept).WithFlag(jFlag).Create()
	builder = builder.WithDept(vDept)
	if withFlag {
		builder = builder.WithFlag(vFlag)
	}
	obj, err := builder.Now()
	ok := withFlag
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("flag as given", obj.Flag() == vFlag)
	zzgov.Ensures("dept as given", obj.Dept() == vDept)
}

//gov:lemma P03
func zzVariableDeclaration(jTyp Type, jName string, vTyp Type, vName string) {
	zzgov.NoPanic()
	builder := NewVariableDeclarationBuilder().WithType(jTyp).WithName(jName).Create()
	builder = builder.WithType(vTyp)
	builder = builder.WithName(vName)
	obj, err := builder.Now()
	ok := vTyp != nil && vName != ""
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("typ as given", zzgov.Same(obj.Type(), vTyp))
	zzgov.Ensures("name as given", obj.Name() == vName)
}

//
//gov:lemma P03
func zzVoidFuncCall(jLog Assignable, vLog Assignable) {
	zzgov.NoPanic()
	builder := NewVoidFuncCallBuilder().WithLog(jLog).Create()
	builder = builder.WithLog(vLog)
	obj, err := builder.Now()
	ok := vLog != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("log held only when given", !obj.IsLog() || (vLog != nil))
	zzgov.Ensures("log held when alone", obj.IsLog() || !(vLog != nil))
	zzgov.Ensures("log as given", !obj.IsLog() || zzgov.Same(obj.Log(), vLog))
	zzgov.Ensures("log absent unless held", obj.IsLog() == (obj.Log() != nil))
}
