//go:build go1.21

package asts

import (
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/mistakes"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops B01

//gov:lemma B01
func zzAST(jMistake mistakes.Mistake, jToken Token, vMistake mistakes.Mistake, vToken Token) {
	zzgov.NoPanic()
	builder := NewBuilder().WithMistake(jMistake).WithSuccess(jToken).Create()
	builder = builder.WithMistake(vMistake)
	builder = builder.WithSuccess(vToken)
	obj, err := builder.Now()
	ok := vMistake != nil || vToken != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("mistake held only when given", !obj.IsMistake() || (vMistake != nil))
	zzgov.Ensures("mistake held when alone", obj.IsMistake() || !(vMistake != nil) || vToken != nil)
	zzgov.Ensures("mistake as given", !obj.IsMistake() || zzgov.Same(obj.Mistake(), vMistake))
	zzgov.Ensures("mistake absent unless held", obj.IsMistake() == (obj.Mistake() != nil))
	zzgov.Ensures("token held only when given", !obj.IsSuccess() || (vToken != nil))
	zzgov.Ensures("token held when alone", obj.IsSuccess() || !(vToken != nil) || vMistake != nil)
	zzgov.Ensures("token as given", !obj.IsSuccess() || zzgov.Same(obj.Success(), vToken))
	zzgov.Ensures("token absent unless held", obj.IsSuccess() == (obj.Success() != nil))
	zzgov.Ensures("one alternative at most", !(obj.IsMistake() && obj.IsSuccess()))
}

//gov:lemma B01
func zzMatch(jToken TokenMatch, jRule RuleMatch, vToken TokenMatch, vRule RuleMatch) {
	zzgov.NoPanic()
	builder := NewMatchBuilder().WithToken(jToken).WithRule(jRule).Create()
	builder = builder.WithToken(vToken)
	builder = builder.WithRule(vRule)
	obj, err := builder.Now()
	ok := vToken != nil || vRule != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("token held only when given", !obj.IsToken() || (vToken != nil))
	zzgov.Ensures("token held when alone", obj.IsToken() || !(vToken != nil) || vRule != nil)
	zzgov.Ensures("token as given", !obj.IsToken() || zzgov.Same(obj.Token(), vToken))
	zzgov.Ensures("token absent unless held", obj.IsToken() == (obj.Token() != nil))
	zzgov.Ensures("rule held only when given", !obj.IsRule() || (vRule != nil))
	zzgov.Ensures("rule held when alone", obj.IsRule() || !(vRule != nil) || vToken != nil)
	zzgov.Ensures("rule as given", !obj.IsRule() || zzgov.Same(obj.Rule(), vRule))
	zzgov.Ensures("rule absent unless held", obj.IsRule() == (obj.Rule() != nil))
	zzgov.Ensures("one alternative at most", !(obj.IsToken() && obj.IsRule()))
}

//gov:lemma B01
func zzResult(jInput string, jDiscoveries patterns.Discoveries, jPrefix string, jSuffix string, vInput string, vDiscoveries patterns.Discoveries, vPrefix string, vSuffix string) {
	zzgov.NoPanic()
	builder := NewResultBuilder().WithInput(jInput).WithDiscoveries(jDiscoveries).WithPrefix(jPrefix).WithSuffix(jSuffix).Create()
	builder = builder.WithInput(vInput)
	builder = builder.WithDiscoveries(vDiscoveries)
	builder = builder.WithPrefix(vPrefix)
	builder = builder.WithSuffix(vSuffix)
	obj, err := builder.Now()
	ok := vInput != "" && vDiscoveries != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("input as given", obj.Input() == vInput)
	zzgov.Ensures("discoveries as given", zzgov.Same(obj.Discoveries(), vDiscoveries))
	zzgov.Ensures("prefix exactly when given", obj.HasPrefix() == (vPrefix != "") && obj.Prefix() == vPrefix)
	zzgov.Ensures("suffix exactly when given", obj.HasSuffix() == (vSuffix != "") && obj.Suffix() == vSuffix)
}

//gov:lemma B01
func zzRuleMatch(jRule string, jResult Result, vRule string, vResult Result) {
	zzgov.NoPanic()
	builder := NewRuleMatchBuilder().WithRule(jRule).WithResult(jResult).Create()
	builder = builder.WithRule(vRule)
	builder = builder.WithResult(vResult)
	obj, err := builder.Now()
	ok := vRule != "" && vResult != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("rule as given", obj.Rule() == vRule)
	zzgov.Ensures("result as given", zzgov.Same(obj.Result(), vResult))
}

//gov:lemma B01
func zzToken(jName string, jMatch LineMatch, vName string, vMatch LineMatch) {
	zzgov.NoPanic()
	builder := NewTokenBuilder().WithName(jName).WithMatch(jMatch).Create()
	builder = builder.WithName(vName)
	builder = builder.WithMatch(vMatch)
	obj, err := builder.Now()
	ok := vName != "" && vMatch != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("name as given", obj.Name() == vName)
	zzgov.Ensures("match as given", zzgov.Same(obj.Match(), vMatch))
}

//gov:lemma B01
func zzTokenMatch(jToken string, jMatches []Token, vToken string, vMatches []Token) {
	zzgov.NoPanic()
	builder := NewTokenMatchBuilder().WithToken(jToken).WithMatches(jMatches).Create()
	builder = builder.WithToken(vToken)
	builder = builder.WithMatches(vMatches)
	obj, err := builder.Now()
	ok := vToken != "" && len(vMatches) > 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("token as given", obj.Token() == vToken)
	zzgov.Ensures("matches as given", zzgov.Same(obj.Matches(), vMatches))
}
