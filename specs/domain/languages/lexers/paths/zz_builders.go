//go:build go1.21

package paths

import (
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops B01

//gov:lemma B01
func zzPaths(jRules string, jTokens string, jChannels string, vRules string, vTokens string, vChannels string) {
	zzgov.NoPanic()
	builder := NewBuilder().WithRules(jRules).WithTokens(jTokens).WithChannels(jChannels).Create()
	builder = builder.WithRules(vRules)
	builder = builder.WithTokens(vTokens)
	builder = builder.WithChannels(vChannels)
	obj, err := builder.Now()
	ok := vRules != "" && vTokens != ""
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("rules as given", obj.Rules() == vRules)
	zzgov.Ensures("tokens as given", obj.Tokens() == vTokens)
	zzgov.Ensures("channels exactly when given", obj.HasChannels() == (vChannels != "") && obj.Channels() == vChannels)
}
