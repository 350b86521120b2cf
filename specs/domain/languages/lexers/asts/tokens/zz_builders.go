//go:build go1.21

package tokens

import (
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/results"
	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops B01

//gov:lemma B01
func zzLineMatch(jIndex uint, jMatches Matches, withIndex bool, vIndex uint, vMatches Matches) {
	zzgov.NoPanic()
	builder := NewLineMatchBuilder().WithIndex(jIndex).WithMatches(jMatches).Create()
	if withIndex {
		builder = builder.WithIndex(vIndex)
	}
	builder = builder.WithMatches(vMatches)
	obj, err := builder.Now()
	ok := withIndex && int(vIndex) >= 0 && vMatches != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("index as given", obj.Index() == vIndex)
	zzgov.Ensures("matches as given", zzgov.Same(obj.Matches(), vMatches))
}

//gov:lemma B01
func zzMatch(jToken TokenMatch, jRule RuleMatch, jSkip SkipMatch, jLine LineMatch, vToken TokenMatch, vRule RuleMatch, vSkip SkipMatch, vLine LineMatch) {
	zzgov.NoPanic()
	builder := NewMatchBuilder().WithToken(jToken).WithRule(jRule).WithSkip(jSkip).WithLine(jLine).Create()
	builder = builder.WithToken(vToken)
	builder = builder.WithRule(vRule)
	builder = builder.WithSkip(vSkip)
	builder = builder.WithLine(vLine)
	obj, err := builder.Now()
	ok := vToken != nil || vRule != nil || vSkip != nil || vLine != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("token held only when given", !obj.Content().IsToken() || (vToken != nil))
	zzgov.Ensures("token held when alone", obj.Content().IsToken() || !(vToken != nil) || vRule != nil || vSkip != nil || vLine != nil)
	zzgov.Ensures("token as given", !obj.Content().IsToken() || zzgov.Same(obj.Content().Token(), vToken))
	zzgov.Ensures("token absent unless held", obj.Content().IsToken() == (obj.Content().Token() != nil))
	zzgov.Ensures("rule held only when given", !obj.Content().IsRule() || (vRule != nil))
	zzgov.Ensures("rule held when alone", obj.Content().IsRule() || !(vRule != nil) || vToken != nil || vSkip != nil || vLine != nil)
	zzgov.Ensures("rule as given", !obj.Content().IsRule() || zzgov.Same(obj.Content().Rule(), vRule))
	zzgov.Ensures("rule absent unless held", obj.Content().IsRule() == (obj.Content().Rule() != nil))
	zzgov.Ensures("skip held only when given", !obj.Content().IsSkip() || (vSkip != nil))
	zzgov.Ensures("skip held when alone", obj.Content().IsSkip() || !(vSkip != nil) || vToken != nil || vRule != nil || vLine != nil)
	zzgov.Ensures("skip as given", !obj.Content().IsSkip() || zzgov.Same(obj.Content().Skip(), vSkip))
	zzgov.Ensures("skip absent unless held", obj.Content().IsSkip() == (obj.Content().Skip() != nil))
	zzgov.Ensures("line held only when given", !obj.Content().IsLine() || (vLine != nil))
	zzgov.Ensures("line held when alone", obj.Content().IsLine() || !(vLine != nil) || vToken != nil || vRule != nil || vSkip != nil)
	zzgov.Ensures("line as given", !obj.Content().IsLine() || zzgov.Same(obj.Content().Line(), vLine))
	zzgov.Ensures("line absent unless held", obj.Content().IsLine() == (obj.Content().Line() != nil))
	zzgov.Ensures("one alternative at most", !(obj.Content().IsToken() && obj.Content().IsRule()) && !(obj.Content().IsToken() && obj.Content().IsSkip()) && !(obj.Content().IsToken() && obj.Content().IsLine()) && !(obj.Content().IsRule() && obj.Content().IsSkip()) && !(obj.Content().IsRule() && obj.Content().IsLine()) && !(obj.Content().IsSkip() && obj.Content().IsLine()))
}

//gov:lemma B01
func zzMatches(jList []BlockMatch, vList []BlockMatch) {
	zzgov.NoPanic()
	builder := NewMatchesBuilder().WithList(jList).Create()
	builder = builder.WithList(vList)
	obj, err := builder.Now()
	ok := len(vList) > 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("list as given", zzgov.Same(obj.BlockMatches(), vList))
}

//gov:lemma B01
func zzNextElement(jConstant string, jPattern patterns.Pattern, vConstant string, vPattern patterns.Pattern) {
	zzgov.NoPanic()
	builder := NewNextElementBuilder().WithConstant(jConstant).WithPattern(jPattern).Create()
	builder = builder.WithConstant(vConstant)
	builder = builder.WithPattern(vPattern)
	obj, err := builder.Now()
	ok := vConstant != "" || vPattern != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("constant held only when given", !obj.IsConstant() || (vConstant != ""))
	zzgov.Ensures("constant held when alone", obj.IsConstant() || !(vConstant != "") || vPattern != nil)
	zzgov.Ensures("constant as given", !obj.IsConstant() || obj.Constant() == vConstant)
	zzgov.Ensures("pattern held only when given", !obj.IsPattern() || (vPattern != nil))
	zzgov.Ensures("pattern held when alone", obj.IsPattern() || !(vPattern != nil) || vConstant != "")
	zzgov.Ensures("pattern as given", !obj.IsPattern() || zzgov.Same(obj.Pattern(), vPattern))
	zzgov.Ensures("pattern absent unless held", obj.IsPattern() == (obj.Pattern() != nil))
	zzgov.Ensures("one alternative at most", !(obj.IsConstant() && obj.IsPattern()))
}

//gov:lemma B01
func zzResult(jList []results.Result, vList []results.Result) {
	zzgov.NoPanic()
	builder := NewResultBuilder().WithResults(jList).Create()
	builder = builder.WithResults(vList)
	obj, err := builder.Now()
	zzgov.Ensures("always obtained", err == nil && obj != nil)
	zzgov.Ensures("list exactly when given", obj.HasResults() == (len(vList) > 0) && len(obj.Results()) == len(vList) && (!(len(vList) > 0) || zzgov.Same(obj.Results(), vList)))
}

//gov:lemma B01
func zzRuleMatch(jRule paths.Rule, jResult RuleMatchResult, vCanContainPrefix bool, vRule paths.Rule, vResult RuleMatchResult) {
	zzgov.NoPanic()
	builder := NewRuleMatchBuilder().CanContainPrefix().WithRule(jRule).WithResult(jResult).Create()
	if vCanContainPrefix {
		builder = builder.CanContainPrefix()
	}
	builder = builder.WithRule(vRule)
	builder = builder.WithResult(vResult)
	obj, err := builder.Now()
	ok := vRule != nil && vResult != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("rule as given", zzgov.Same(obj.Rule(), vRule))
	zzgov.Ensures("result as given", zzgov.Same(obj.Result(), vResult))
	zzgov.Ensures("prefix allowed exactly when asked", obj.CanHavePrefix() == vCanContainPrefix)
}

//gov:lemma B01
func zzRuleMatchResult(jPath paths.Rule, jResult Result, vPath paths.Rule, vResult Result) {
	zzgov.NoPanic()
	builder := NewRuleMatchResultBuilder().WithPath(jPath).WithResult(jResult).Create()
	builder = builder.WithPath(vPath)
	builder = builder.WithResult(vResult)
	obj, err := builder.Now()
	ok := vPath != nil && vResult != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("path as given", zzgov.Same(obj.Path(), vPath))
	zzgov.Ensures("result as given", zzgov.Same(obj.Result(), vResult))
}

//gov:lemma B01
func zzSkipMatch(jToken TokenMatch, jRule RuleMatch, vToken TokenMatch, vRule RuleMatch) {
	zzgov.NoPanic()
	builder := NewSkipMatchBuilder().WithToken(jToken).WithRule(jRule).Create()
	builder = builder.WithToken(vToken)
	builder = builder.WithRule(vRule)
	obj, err := builder.Now()
	ok := vToken != nil || vRule != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("token held only when given", !obj.Content().IsToken() || (vToken != nil))
	zzgov.Ensures("token held when alone", obj.Content().IsToken() || !(vToken != nil) || vRule != nil)
	zzgov.Ensures("token as given", !obj.Content().IsToken() || zzgov.Same(obj.Content().Token(), vToken))
	zzgov.Ensures("token absent unless held", obj.Content().IsToken() == (obj.Content().Token() != nil))
	zzgov.Ensures("rule held only when given", !obj.Content().IsRule() || (vRule != nil))
	zzgov.Ensures("rule held when alone", obj.Content().IsRule() || !(vRule != nil) || vToken != nil)
	zzgov.Ensures("rule as given", !obj.Content().IsRule() || zzgov.Same(obj.Content().Rule(), vRule))
	zzgov.Ensures("rule absent unless held", obj.Content().IsRule() == (obj.Content().Rule() != nil))
	zzgov.Ensures("one alternative at most", !(obj.Content().IsToken() && obj.Content().IsRule()))
}

//gov:lemma B01
func zzSpecifier(jContainerName string, jCardinality cardinality.Specific, jResult TokenResult, vContainerName string, vCardinality cardinality.Specific, vResult TokenResult) {
	zzgov.NoPanic()
	builder := NewSpecifierBuilder().WithContainerName(jContainerName).WithCardinality(jCardinality).WithResult(jResult).Create()
	builder = builder.WithContainerName(vContainerName)
	builder = builder.WithCardinality(vCardinality)
	builder = builder.WithResult(vResult)
	obj, err := builder.Now()
	ok := vContainerName != "" && vCardinality != nil && vResult != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("containerName as given", obj.ContainerName() == vContainerName)
	zzgov.Ensures("cardinality as given", zzgov.Same(obj.Cardinality(), vCardinality))
	zzgov.Ensures("result as given", zzgov.Same(obj.Result(), vResult))
}

//gov:lemma B01
func zzToken(jName string, jPath paths.Path, jContent TokenContent, vName string, vPath paths.Path, vContent TokenContent) {
	zzgov.NoPanic()
	builder := NewBuilder().WithName(jName).WithPath(jPath).WithContent(jContent).Create()
	builder = builder.WithName(vName)
	builder = builder.WithPath(vPath)
	builder = builder.WithContent(vContent)
	obj, err := builder.Now()
	ok := vName != "" && vPath != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("name as given", obj.Name() == vName)
	zzgov.Ensures("path as given", zzgov.Same(obj.Path(), vPath))
	zzgov.Ensures("content exactly when given", obj.HasContent() == (vContent != nil) && zzgov.Same(obj.Content(), vContent))
}

//gov:lemma B01
func zzTokenContent(jMust LineMatch, jNot LineMatch, vMust LineMatch, vNot LineMatch) {
	zzgov.NoPanic()
	builder := NewTokenContentBuilder().WithMust(jMust).WithNot(jNot).Create()
	builder = builder.WithMust(vMust)
	builder = builder.WithNot(vNot)
	obj, err := builder.Now()
	ok := vMust != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("must as given", zzgov.Same(obj.Must(), vMust))
	zzgov.Ensures("not exactly when given", obj.HasNot() == (vNot != nil) && zzgov.Same(obj.Not(), vNot))
}

//gov:lemma B01
func zzTokenMatch(jPath paths.TokenPath, jResult TokenResult, jSpecifiers []Specifier, vPath paths.TokenPath, vResult TokenResult, vSpecifiers []Specifier) {
	zzgov.NoPanic()
	builder := NewTokenMatchBuilder().WithPath(jPath).WithResult(jResult).WithSpecifiers(jSpecifiers).Create()
	builder = builder.WithPath(vPath)
	builder = builder.WithResult(vResult)
	builder = builder.WithSpecifiers(vSpecifiers)
	obj, err := builder.Now()
	ok := vPath != nil && vResult != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("path as given", zzgov.Same(obj.Path(), vPath))
	zzgov.Ensures("result as given", zzgov.Same(obj.Result(), vResult))
	zzgov.Ensures("specifiers exactly when given", obj.HasSpecifiers() == (len(vSpecifiers) > 0) && len(obj.Specifiers()) == len(vSpecifiers) && (!(len(vSpecifiers) > 0) || zzgov.Same(obj.Specifiers(), vSpecifiers)))
}

//gov:lemma B01
func zzTokenResult(jInput string, jCardinality cardinality.Cardinality, jMatches TokenResultMatches, vInput string, vCardinality cardinality.Cardinality, vMatches TokenResultMatches) {
	zzgov.NoPanic()
	builder := NewTokenResultBuilder().WithInput(jInput).WithCardinality(jCardinality).WithMatches(jMatches).Create()
	builder = builder.WithInput(vInput)
	builder = builder.WithCardinality(vCardinality)
	builder = builder.WithMatches(vMatches)
	obj, err := builder.Now()
	ok := vInput != "" && vCardinality != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("input as given", obj.Input() == vInput)
	zzgov.Ensures("cardinality as given", zzgov.Same(obj.Cardinality(), vCardinality))
	zzgov.Ensures("matches exactly when given", obj.HasMatches() == (vMatches != nil) && zzgov.Same(obj.Matches(), vMatches))
}

//gov:lemma B01
func zzTokenResultMatches(jList []Token, vList []Token) {
	zzgov.NoPanic()
	builder := NewTokenResultMatchesBuilder().WithResults(jList).Create()
	builder = builder.WithResults(vList)
	obj, err := builder.Now()
	ok := len(vList) > 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("list as given", zzgov.Same(obj.All(), vList))
}
