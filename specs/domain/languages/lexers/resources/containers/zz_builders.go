//go:build go1.21

package containers

import (
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops B01

//gov:lemma B01
func zzContainer(jPatterns string, jRules string, jTokens string, vPatterns string, vRules string, vTokens string) {
	zzgov.NoPanic()
	builder := NewBuilder().WithPatterns(jPatterns).WithRules(jRules).WithTokens(jTokens).Create()
	builder = builder.WithPatterns(vPatterns)
	builder = builder.WithRules(vRules)
	builder = builder.WithTokens(vTokens)
	obj, err := builder.Now()
	ok := vPatterns != "" && vRules != "" && vTokens != ""
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("patterns as given", obj.Patterns() == vPatterns)
	zzgov.Ensures("rules as given", obj.Rules() == vRules)
	zzgov.Ensures("tokens as given", obj.Tokens() == vTokens)
}
