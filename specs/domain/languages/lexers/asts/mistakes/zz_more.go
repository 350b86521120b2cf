//go:build go1.21

package mistakes

import (
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops B01

//gov:lemma B01
func zzPath(jRule string, jToken string, jParents []string, vRule string, vToken string, vParents []string) {
	zzgov.NoPanic()
	builder := NewPathBuilder().WithRule(jRule).WithToken(jToken).WithParents(jParents).Create()
	builder = builder.WithRule(vRule)
	builder = builder.WithToken(vToken)
	builder = builder.WithParents(vParents)
	obj, err := builder.Now()
	ok := vRule != "" || vToken != ""
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	at := obj.Container()
	zzgov.Ensures("rule held only when given", !at.IsRule() || (vRule != "" && at.Rule() == vRule))
	zzgov.Ensures("rule held when alone", at.IsRule() || vRule == "" || vToken != "")
	zzgov.Ensures("token held only when given", !at.IsToken() || (vToken != "" && at.Token() == vToken))
	zzgov.Ensures("token held when alone", at.IsToken() || vToken == "" || vRule != "")
	zzgov.Ensures("one alternative at most", !(at.IsRule() && at.IsToken()))
	zzgov.Ensures("parents exactly when given", obj.HasParents() == (len(vParents) > 0) && len(obj.Parents()) == len(vParents) && (!(len(vParents) > 0) || zzgov.Same(obj.Parents(), vParents)))
}
