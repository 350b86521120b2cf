//go:build go1.21

package asts

import (
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops B01

//gov:lemma B01
func zzLineMatch(jIndex uint, jMatches []Match, withIndex bool, vIndex uint, vMatches []Match) {
	zzgov.NoPanic()
	builder := NewLineMatchBuilder().WithIndex(jIndex).WithMatches(jMatches).Create()
	if withIndex {
		builder = builder.WithIndex(vIndex)
	}
	builder = builder.WithMatches(vMatches)
	obj, err := builder.Now()
	ok := withIndex && int(vIndex) >= 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("index as given", obj.Index() == vIndex)
	zzgov.Ensures("matches exactly when given", obj.HasMatches() == (len(vMatches) > 0) && len(obj.Matches()) == len(vMatches) && (!(len(vMatches) > 0) || zzgov.Same(obj.Matches(), vMatches)))
}
