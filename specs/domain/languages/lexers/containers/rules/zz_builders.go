//go:build go1.21

package rules

import (
	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops B01

//gov:lemma B01
func zzContent(jConstant string, jPattern Pattern, vConstant string, vPattern Pattern) {
	zzgov.NoPanic()
	builder := NewContentBuilder().WithConstant(jConstant).WithPattern(jPattern).Create()
	builder = builder.WithConstant(vConstant)
	builder = builder.WithPattern(vPattern)
	obj, err := builder.Now()
	zzgov.Ensures("always obtained", err == nil && obj != nil)
	zzgov.Ensures("a pattern or the constant given", obj.IsConstant() == (vPattern == nil && vConstant != "") && (vPattern != nil || obj.Constant() == vConstant))
	zzgov.Ensures("pattern exactly when given", obj.IsPattern() == (vPattern != nil) && zzgov.Same(obj.Pattern(), vPattern))
}

//gov:lemma B01
func zzElement(jContent Content, jCode string, vContent Content, vCode string) {
	zzgov.NoPanic()
	builder := NewElementBuilder().WithContent(jContent).WithCode(jCode).Create()
	builder = builder.WithContent(vContent)
	builder = builder.WithCode(vCode)
	obj, err := builder.Now()
	ok := vContent != nil && vCode != ""
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("content as given", zzgov.Same(obj.Content(), vContent))
	zzgov.Ensures("code as given", obj.Code() == vCode)
}

//gov:lemma B01
func zzPattern(jSubPatterns patterns.Patterns, jCardinality cardinality.Cardinality, vSubPatterns patterns.Patterns, vCardinality cardinality.Cardinality) {
	zzgov.NoPanic()
	builder := NewPatternBuilder().WithSubPatterns(jSubPatterns).WithCardinality(jCardinality).Create()
	builder = builder.WithSubPatterns(vSubPatterns)
	builder = builder.WithCardinality(vCardinality)
	obj, err := builder.Now()
	ok := vSubPatterns != nil && vCardinality != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("subPatterns as given", zzgov.Same(obj.SubPatterns(), vSubPatterns))
	zzgov.Ensures("cardinality as given", zzgov.Same(obj.Cardinality(), vCardinality))
}

//gov:lemma B01
func zzRule(jName string, jCode string, jElement Element, vName string, vCode string, vElement Element) {
	zzgov.NoPanic()
	builder := NewRuleBuilder().WithName(jName).WithCode(jCode).WithElement(jElement).Create()
	builder = builder.WithName(vName)
	builder = builder.WithCode(vCode)
	builder = builder.WithElement(vElement)
	obj, err := builder.Now()
	ok := vName != "" && vCode != "" && vElement != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("name as given", obj.Name() == vName)
	zzgov.Ensures("code as given", obj.Code() == vCode)
	zzgov.Ensures("element as given", zzgov.Same(obj.Element(), vElement))
}
