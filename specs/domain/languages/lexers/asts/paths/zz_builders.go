//go:build go1.21

package paths

import (
	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops B01

//gov:lemma B01
func zzAdapter(jTokens tokens.Tokens, jTokenNotFoundFn FetchTokenNotFoundFn, jTokenReplacementFn FetchElementReplacementFn, vTokens tokens.Tokens, vTokenNotFoundFn FetchTokenNotFoundFn, vTokenReplacementFn FetchElementReplacementFn) {
	zzgov.NoPanic()
	builder := NewAdapterBuilder().WithTokens(jTokens).WithTokenNotFoundFunc(jTokenNotFoundFn).WithTokenReplacementFunc(jTokenReplacementFn).Create()
	builder = builder.WithTokens(vTokens)
	builder = builder.WithTokenNotFoundFunc(vTokenNotFoundFn)
	builder = builder.WithTokenReplacementFunc(vTokenReplacementFn)
	obj, err := builder.Now()
	ok := vTokens != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
}

//gov:lemma B01
func zzContainer(jToken Token, jRule Rule, jRecursive RecursiveToken, jLines []Line, vToken Token, vRule Rule, vRecursive RecursiveToken, vLines []Line) {
	zzgov.NoPanic()
	builder := NewContainerBuilder().WithToken(jToken).WithRule(jRule).WithRecursive(jRecursive).WithLines(jLines).Create()
	builder = builder.WithToken(vToken)
	builder = builder.WithRule(vRule)
	builder = builder.WithRecursive(vRecursive)
	builder = builder.WithLines(vLines)
	obj, err := builder.Now()
	ok := vToken != nil || vRule != nil || vRecursive != nil || len(vLines) > 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("token held only when given", !obj.IsToken() || (vToken != nil))
	zzgov.Ensures("token held when alone", obj.IsToken() || !(vToken != nil) || vRule != nil || vRecursive != nil || len(vLines) > 0)
	zzgov.Ensures("token as given", !obj.IsToken() || zzgov.Same(obj.Token(), vToken))
	zzgov.Ensures("token absent unless held", obj.IsToken() == (obj.Token() != nil))
	zzgov.Ensures("rule held only when given", !obj.IsRule() || (vRule != nil))
	zzgov.Ensures("rule held when alone", obj.IsRule() || !(vRule != nil) || vToken != nil || vRecursive != nil || len(vLines) > 0)
	zzgov.Ensures("rule as given", !obj.IsRule() || zzgov.Same(obj.Rule(), vRule))
	zzgov.Ensures("rule absent unless held", obj.IsRule() == (obj.Rule() != nil))
	zzgov.Ensures("recursive held only when given", !obj.IsRecursive() || (vRecursive != nil))
	zzgov.Ensures("recursive held when alone", obj.IsRecursive() || !(vRecursive != nil) || vToken != nil || vRule != nil || len(vLines) > 0)
	zzgov.Ensures("recursive as given", !obj.IsRecursive() || zzgov.Same(obj.Recursive(), vRecursive))
	zzgov.Ensures("recursive absent unless held", obj.IsRecursive() == (obj.Recursive() != nil))
	zzgov.Ensures("lines held only when given", !obj.IsLines() || (len(vLines) > 0))
	zzgov.Ensures("lines held when alone", obj.IsLines() || !(len(vLines) > 0) || vToken != nil || vRule != nil || vRecursive != nil)
	zzgov.Ensures("lines as given", !obj.IsLines() || zzgov.Same(obj.Lines(), vLines))
	zzgov.Ensures("lines absent unless held", obj.IsLines() == (obj.Lines() != nil))
	zzgov.Ensures("one alternative at most", !(obj.IsToken() && obj.IsRule()) && !(obj.IsToken() && obj.IsRecursive()) && !(obj.IsToken() && obj.IsLines()) && !(obj.IsRule() && obj.IsRecursive()) && !(obj.IsRule() && obj.IsLines()) && !(obj.IsRecursive() && obj.IsLines()))
	if obj.IsLines() {
		return
	}
	zzgov.Ensures("cardinality of what it holds", obj.IsToken() && zzgov.Same(obj.Cardinality(), vToken.Cardinality()) || obj.IsRule() && zzgov.Same(obj.Cardinality(), vRule.Cardinality()) || obj.IsRecursive() && zzgov.Same(obj.Cardinality(), vRecursive.Cardinality()))
}

//gov:lemma B01
func zzElement(jName string, jMust []Line, jNot []Line, vName string, vMust []Line, vNot []Line) {
	zzgov.NoPanic()
	builder := NewElementBuilder().WithName(jName).WithMust(jMust).WithNot(jNot).Create()
	builder = builder.WithName(vName)
	builder = builder.WithMust(vMust)
	builder = builder.WithNot(vNot)
	obj, err := builder.Now()
	ok := vName != "" && len(vMust) > 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("name as given", obj.Name() == vName)
	zzgov.Ensures("must as given", zzgov.Same(obj.Must(), vMust))
	zzgov.Ensures("not exactly when given", obj.HasNot() == (len(vNot) > 0) && len(obj.Not()) == len(vNot) && (!(len(vNot) > 0) || zzgov.Same(obj.Not(), vNot)))
}

//gov:lemma B01
func zzInstruction(jContainer Container, vIsChannelSwitch bool, vContainer Container) {
	zzgov.NoPanic()
	builder := NewInstructionBuilder().IsChannelSwitch().WithContainer(jContainer).Create()
	if vIsChannelSwitch {
		builder = builder.IsChannelSwitch()
	}
	builder = builder.WithContainer(vContainer)
	obj, err := builder.Now()
	ok := vIsChannelSwitch || vContainer != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("isChannelSwitch held only when given", !obj.IsChannelSwitch() || vIsChannelSwitch)
	zzgov.Ensures("isChannelSwitch held when alone", obj.IsChannelSwitch() || !(vIsChannelSwitch) || vContainer != nil)
	zzgov.Ensures("container held only when given", !obj.IsContainer() || (vContainer != nil))
	zzgov.Ensures("container held when alone", obj.IsContainer() || !(vContainer != nil) || vIsChannelSwitch)
	zzgov.Ensures("container as given", !obj.IsContainer() || zzgov.Same(obj.Container(), vContainer))
	zzgov.Ensures("container absent unless held", obj.IsContainer() == (obj.Container() != nil))
	zzgov.Ensures("one alternative at most", !(obj.IsChannelSwitch() && obj.IsContainer()))
}

//gov:lemma B01
func zzLine(jInstructions []Instruction, vInstructions []Instruction) {
	zzgov.NoPanic()
	builder := NewLineBuilder().WithInstructions(jInstructions).Create()
	builder = builder.WithInstructions(vInstructions)
	obj, err := builder.Now()
	ok := len(vInstructions) > 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("instructions as given", zzgov.Same(obj.Instructions(), vInstructions))
}

//gov:lemma B01
func zzPath(jElement Element, jDep Dependencies, vElement Element, vDep Dependencies) {
	zzgov.NoPanic()
	builder := NewBuilder().WithElement(jElement).WithDependencies(jDep).Create()
	builder = builder.WithElement(vElement)
	builder = builder.WithDependencies(vDep)
	obj, err := builder.Now()
	ok := vElement != nil && vDep != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("element as given", zzgov.Same(obj.Element(), vElement))
	zzgov.Ensures("dep as given", zzgov.Same(obj.Dependencies(), vDep))
}

//gov:lemma B01
func zzRecursiveToken(jName string, jCardinality cardinality.Cardinality, jSpecifiers []Specifier, vName string, vCardinality cardinality.Cardinality, vSpecifiers []Specifier) {
	zzgov.NoPanic()
	builder := NewRecursiveTokenBuilder().WithName(jName).WithCardinality(jCardinality).WithSpecifiers(jSpecifiers).Create()
	builder = builder.WithName(vName)
	builder = builder.WithCardinality(vCardinality)
	builder = builder.WithSpecifiers(vSpecifiers)
	obj, err := builder.Now()
	ok := vName != "" && vCardinality != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("name as given", obj.Name() == vName)
	zzgov.Ensures("cardinality as given", zzgov.Same(obj.Cardinality(), vCardinality))
	zzgov.Ensures("specifiers exactly when given", obj.HasSpecifiers() == (len(vSpecifiers) > 0) && len(obj.Specifiers()) == len(vSpecifiers) && (!(len(vSpecifiers) > 0) || zzgov.Same(obj.Specifiers(), vSpecifiers)))
}

//gov:lemma B01
func zzRule(jBase rules.Rule, jCardinality cardinality.Cardinality, vBase rules.Rule, vCardinality cardinality.Cardinality) {
	zzgov.NoPanic()
	builder := NewRuleBuilder().WithBase(jBase).WithCardinality(jCardinality).Create()
	builder = builder.WithBase(vBase)
	builder = builder.WithCardinality(vCardinality)
	obj, err := builder.Now()
	ok := vBase != nil && vCardinality != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("base as given", zzgov.Same(obj.Base(), vBase))
	zzgov.Ensures("cardinality as given", zzgov.Same(obj.Cardinality(), vCardinality))
}

//gov:lemma B01
func zzSpecifier(jContainerName string, jCardinality cardinality.Specific, vContainerName string, vCardinality cardinality.Specific) {
	zzgov.NoPanic()
	builder := NewSpecifierBuilder().WithContainerName(jContainerName).WithCardinality(jCardinality).Create()
	builder = builder.WithContainerName(vContainerName)
	builder = builder.WithCardinality(vCardinality)
	obj, err := builder.Now()
	ok := vContainerName != "" && vCardinality != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("containerName as given", obj.ContainerName() == vContainerName)
	zzgov.Ensures("cardinality as given", zzgov.Same(obj.Cardinality(), vCardinality))
}

//gov:lemma B01
func zzToken(jPath TokenPath, jCardinality cardinality.Cardinality, vPath TokenPath, vCardinality cardinality.Cardinality) {
	zzgov.NoPanic()
	builder := NewTokenBuilder().WithPath(jPath).WithCardinality(jCardinality).Create()
	builder = builder.WithPath(vPath)
	builder = builder.WithCardinality(vCardinality)
	obj, err := builder.Now()
	ok := vPath != nil && vCardinality != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("path as given", zzgov.Same(obj.Path(), vPath))
	zzgov.Ensures("cardinality as given", zzgov.Same(obj.Cardinality(), vCardinality))
}

//gov:lemma B01
func zzTokenPath(jElement Element, jSpecifiers []Specifier, vElement Element, vSpecifiers []Specifier) {
	zzgov.NoPanic()
	builder := NewTokenPathBuilder().WithElement(jElement).WithSpecifiers(jSpecifiers).Create()
	builder = builder.WithElement(vElement)
	builder = builder.WithSpecifiers(vSpecifiers)
	obj, err := builder.Now()
	ok := vElement != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("element as given", zzgov.Same(obj.Element(), vElement))
	zzgov.Ensures("specifiers exactly when given", obj.HasSpecifiers() == (len(vSpecifiers) > 0) && len(obj.Specifiers()) == len(vSpecifiers) && (!(len(vSpecifiers) > 0) || zzgov.Same(obj.Specifiers(), vSpecifiers)))
}
