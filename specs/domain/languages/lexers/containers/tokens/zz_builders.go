//go:build go1.21

package tokens

import (
	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops B01

//gov:lemma B01
func zzAdapter(jRules rules.Rules, vRules rules.Rules) {
	zzgov.NoPanic()
	builder := NewAdapterBuilder().WithRules(jRules).Create()
	builder = builder.WithRules(vRules)
	obj, err := builder.Now()
	ok := vRules != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
}

//gov:lemma B01
func zzBlock(jMust Lines, jNot Lines, vMust Lines, vNot Lines) {
	zzgov.NoPanic()
	builder := NewBlockBuilder().WithMust(jMust).WithNot(jNot).Create()
	builder = builder.WithMust(vMust)
	builder = builder.WithNot(vNot)
	obj, err := builder.Now()
	ok := vMust != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("must as given", zzgov.Same(obj.Must(), vMust))
	zzgov.Ensures("not exactly when given", obj.HasNot() == (vNot != nil) && zzgov.Same(obj.Not(), vNot))
}

//gov:lemma B01
func zzContent(jToken TokenReference, jRule rules.Rule, vToken TokenReference, vRule rules.Rule) {
	zzgov.NoPanic()
	builder := NewContentBuilder().WithToken(jToken).WithRule(jRule).Create()
	builder = builder.WithToken(vToken)
	builder = builder.WithRule(vRule)
	obj, err := builder.Now()
	ok := vToken != nil || vRule != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("token held only when given", !obj.IsToken() || (vToken != nil))
	zzgov.Ensures("token held when alone", obj.IsToken() || !(vToken != nil) || vRule != nil)
	zzgov.Ensures("token as given", !obj.IsToken() || zzgov.Same(obj.Token(), vToken))
	zzgov.Ensures("token absent unless held", obj.IsToken() == (obj.Token() != nil))
	zzgov.Ensures("rule held only when given", !obj.IsRule() || (vRule != nil))
	zzgov.Ensures("rule held when alone", obj.IsRule() || !(vRule != nil) || vToken != nil)
	zzgov.Ensures("rule as given", !obj.IsRule() || zzgov.Same(obj.Rule(), vRule))
	zzgov.Ensures("rule absent unless held", obj.IsRule() == (obj.Rule() != nil))
	zzgov.Ensures("one alternative at most", !(obj.IsToken() && obj.IsRule()))
	zzgov.Ensures("named after what it holds", !obj.IsToken() && !obj.IsRule() || obj.IsToken() && obj.Name() == obj.Token().Name() || obj.IsRule() && obj.Name() == obj.Rule().Name())
}

//gov:lemma B01
func zzElement(jContent Content, jCode string, jCardinality cardinality.Cardinality, vContent Content, vCode string, vCardinality cardinality.Cardinality) {
	zzgov.NoPanic()
	builder := NewElementBuilder().WithContent(jContent).WithCode(jCode).WithCardinality(jCardinality).Create()
	builder = builder.WithContent(vContent)
	builder = builder.WithCode(vCode)
	builder = builder.WithCardinality(vCardinality)
	obj, err := builder.Now()
	ok := vContent != nil && vCode != ""
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("content as given", zzgov.Same(obj.Content(), vContent))
	zzgov.Ensures("code as given", obj.Code() == vCode)
	zzgov.Ensures("cardinality exactly when given", obj.HasCardinality() == (vCardinality != nil) && zzgov.Same(obj.Cardinality(), vCardinality))
}

//gov:lemma B01
func zzInstruction(jElement Element, vIsChannelSwitch bool, vElement Element) {
	zzgov.NoPanic()
	builder := NewInstructionBuilder().IsChannelSwitch().WithElement(jElement).Create()
	if vIsChannelSwitch {
		builder = builder.IsChannelSwitch()
	}
	builder = builder.WithElement(vElement)
	obj, err := builder.Now()
	ok := vIsChannelSwitch || vElement != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("isChannelSwitch held only when given", !obj.IsChannelSwitch() || vIsChannelSwitch)
	zzgov.Ensures("isChannelSwitch held when alone", obj.IsChannelSwitch() || !(vIsChannelSwitch) || vElement != nil)
	zzgov.Ensures("element held only when given", !obj.IsElement() || (vElement != nil))
	zzgov.Ensures("element held when alone", obj.IsElement() || !(vElement != nil) || vIsChannelSwitch)
	zzgov.Ensures("element as given", !obj.IsElement() || zzgov.Same(obj.Element(), vElement))
	zzgov.Ensures("element absent unless held", obj.IsElement() == (obj.Element() != nil))
	zzgov.Ensures("one alternative at most", !(obj.IsChannelSwitch() && obj.IsElement()))
}

//gov:lemma B01
func zzLine(jInstructions []Instruction, vInstructions []Instruction) {
	zzgov.NoPanic()
	builder := NewLineBuilder().WithInstructions(jInstructions).Create()
	builder = builder.WithInstructions(vInstructions)
	obj, err := builder.Now()
	ok := len(vInstructions) > 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("instructions as given", zzgov.Same(obj.Instructions(), vInstructions))
}

//gov:lemma B01
func zzLines(jList []Line, vList []Line) {
	zzgov.NoPanic()
	builder := NewLinesBuilder().WithLines(jList).Create()
	builder = builder.WithLines(vList)
	obj, err := builder.Now()
	ok := len(vList) > 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("list as given", zzgov.Same(obj.All(), vList))
}

//gov:lemma B01
func zzTestSuite(jLines []string, vLines []string) {
	zzgov.NoPanic()
	builder := NewTestSuiteBuilder().WithLines(jLines).Create()
	builder = builder.WithLines(vLines)
	obj, err := builder.Now()
	ok := len(vLines) > 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("lines as given", zzgov.Same(obj.Lines(), vLines))
}

//gov:lemma B01
func zzToken(jName string, jBlock Block, jTestSuite TestSuite, vName string, vBlock Block, vTestSuite TestSuite) {
	zzgov.NoPanic()
	builder := NewTokenBuilder().WithName(jName).WithBlock(jBlock).WithTestSuite(jTestSuite).Create()
	builder = builder.WithName(vName)
	builder = builder.WithBlock(vBlock)
	builder = builder.WithTestSuite(vTestSuite)
	obj, err := builder.Now()
	ok := vName != "" && vBlock != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("name as given", obj.Name() == vName)
	zzgov.Ensures("block as given", zzgov.Same(obj.Block(), vBlock))
	zzgov.Ensures("testSuite exactly when given", obj.HasTestSuite() == (vTestSuite != nil) && zzgov.Same(obj.TestSuite(), vTestSuite))
}

//gov:lemma B01
func zzTokenReference(jName string, jSpecifiers TokenSpecifiers, vName string, vSpecifiers TokenSpecifiers) {
	zzgov.NoPanic()
	builder := NewTokenReferenceBuilder().WithName(jName).WithSpecifiers(jSpecifiers).Create()
	builder = builder.WithName(vName)
	builder = builder.WithSpecifiers(vSpecifiers)
	obj, err := builder.Now()
	ok := vName != ""
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("name as given", obj.Name() == vName)
	zzgov.Ensures("specifiers exactly when given", obj.HasSpecifiers() == (vSpecifiers != nil) && zzgov.Same(obj.Specifiers(), vSpecifiers))
}

//gov:lemma B01
func zzTokenSpecifier(jContent TokenSpecifierContent, jCardinality cardinality.Specific, vContent TokenSpecifierContent, vCardinality cardinality.Specific) {
	zzgov.NoPanic()
	builder := NewTokenSpecifierBuilder().WithContent(jContent).WithCardinality(jCardinality).Create()
	builder = builder.WithContent(vContent)
	builder = builder.WithCardinality(vCardinality)
	obj, err := builder.Now()
	ok := vContent != nil && vCardinality != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("content as given", zzgov.Same(obj.Content(), vContent))
	zzgov.Ensures("cardinality as given", zzgov.Same(obj.Cardinality(), vCardinality))
}

//gov:lemma B01
func zzTokenSpecifierContent(jRule rules.Rule, jToken string, vRule rules.Rule, vToken string) {
	zzgov.NoPanic()
	builder := NewTokenSpecifierContentBuilder().WithRule(jRule).WithToken(jToken).Create()
	builder = builder.WithRule(vRule)
	builder = builder.WithToken(vToken)
	obj, err := builder.Now()
	ok := vRule != nil || vToken != ""
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("rule held only when given", !obj.IsRule() || (vRule != nil))
	zzgov.Ensures("rule held when alone", obj.IsRule() || !(vRule != nil) || vToken != "")
	zzgov.Ensures("rule as given", !obj.IsRule() || zzgov.Same(obj.Rule(), vRule))
	zzgov.Ensures("rule absent unless held", obj.IsRule() == (obj.Rule() != nil))
	zzgov.Ensures("token held only when given", !obj.IsToken() || (vToken != ""))
	zzgov.Ensures("token held when alone", obj.IsToken() || !(vToken != "") || vRule != nil)
	zzgov.Ensures("token as given", !obj.IsToken() || obj.Token() == vToken)
	zzgov.Ensures("one alternative at most", !(obj.IsRule() && obj.IsToken()))
	zzgov.Ensures("named after what it holds", obj.IsToken() && obj.Name() == vToken || obj.IsRule() && obj.Name() == obj.Rule().Name())
}
