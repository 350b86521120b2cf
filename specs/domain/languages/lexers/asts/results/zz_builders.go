//go:build go1.21

package results

import (
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops B01

//gov:lemma B01
func zzResultOf(jInput rules.Rule, jMatches []patterns.Result, vInput rules.Rule, vMatches []patterns.Result) {
	zzgov.NoPanic()
	builder := NewBuilder().WithInput(jInput).WithMatches(jMatches).Create()
	builder = builder.WithInput(vInput)
	builder = builder.WithMatches(vMatches)
	obj, err := builder.Now()
	ok := vInput != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("input as given", zzgov.Same(obj.Input(), vInput))
	zzgov.Ensures("matches exactly when given", obj.HasMatches() == (vMatches != nil) && (obj.Matches() != nil) == (vMatches != nil))
	if vMatches == nil {
		zzgov.Ensures("nothing without matches", obj.Amount() == 0 && obj.Content() == "")
		return
	}
	zzgov.Ensures("matches as given", zzgov.Same(obj.Matches().List(), vMatches))
	zzgov.Ensures("one amount per match", obj.Amount() == uint(len(vMatches)))
}
