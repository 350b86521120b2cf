//go:build go1.21

package suites

import (
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops B01

//gov:lemma B01
func zzApplication(jTokens tokens.Tokens, jChannels tokens.Tokens, jTokenNotFoundFn paths.FetchTokenNotFoundFn, jTokenReplacementFn paths.FetchElementReplacementFn, vTokens tokens.Tokens, vChannels tokens.Tokens, vTokenNotFoundFn paths.FetchTokenNotFoundFn, vTokenReplacementFn paths.FetchElementReplacementFn) {
	zzgov.NoPanic()
	builder := NewApplicationBuilder().WithTokens(jTokens).WithChannels(jChannels).WithTokenNotFoundFunc(jTokenNotFoundFn).WithTokenReplacementFunc(jTokenReplacementFn).Create()
	builder = builder.WithTokens(vTokens)
	builder = builder.WithChannels(vChannels)
	builder = builder.WithTokenNotFoundFunc(vTokenNotFoundFn)
	builder = builder.WithTokenReplacementFunc(vTokenReplacementFn)
	obj, err := builder.Now()
	ok := vTokens != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
}

//gov:lemma B01
func zzLine(jIndex uint, withIndex bool, vIndex uint, vIsSuccess bool) {
	zzgov.NoPanic()
	builder := NewLineBuilder().WithIndex(jIndex).IsSuccessful().Create()
	if withIndex {
		builder = builder.WithIndex(vIndex)
	}
	if vIsSuccess {
		builder = builder.IsSuccessful()
	}
	obj, err := builder.Now()
	ok := withIndex && int(vIndex) >= 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("index as given", obj.Index() == vIndex)
	zzgov.Ensures("successful exactly when said", obj.IsSuccess() == vIsSuccess)
}

//gov:lemma B01
func zzSuite(jName string, jLines []Line, vName string, vLines []Line) {
	zzgov.NoPanic()
	builder := NewBuilder().WithName(jName).WithLines(jLines).Create()
	builder = builder.WithName(vName)
	builder = builder.WithLines(vLines)
	obj, err := builder.Now()
	ok := vName != "" && len(vLines) > 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("name as given", obj.Name() == vName)
	zzgov.Ensures("lines as given", zzgov.Same(obj.Lines(), vLines))
}
