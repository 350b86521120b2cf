//go:build go1.21

package mistakes

import (
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/tokens"
	"github.com/steve-care-software/steve/zzgov"
)

// ZZVerdict says whether a script has no mistake (0), one (1), or cannot be judged (2).
//
//gov:uninterpreted
func ZZVerdict(grammar int, script string, prefix bool) int {
	token := tokens.ZZToken(grammar, script)
	if token == nil {
		return 2
	}
	mistake, err := NewAdapter().ToMistake(token, prefix)
	if err != nil {
		return 2
	}
	if mistake != nil {
		return 1
	}
	return 0
}

//gov:contract Adapter.ToMistake
//gov:assumed judging the same token again gives the same outcome
func zzJudge(obj Adapter, token tokens.Token, prefix bool) func(mistake Mistake, err error) {
	zzgov.Requires(obj != nil && token != nil)
	return func(mistake Mistake, err error) {
		verdict := ZZVerdict(tokens.ZZReadWith(token), tokens.ZZScriptOf(token), prefix)
		zzgov.Ensures("judged", verdict >= 0 && verdict <= 2 && (err != nil) == (verdict == 2) && (mistake != nil) == (verdict == 1))
	}
}
