//go:build go1.21

package singles

import (
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/multiples"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops B01

//gov:lemma B01
func zzSingle(jRootToken string, jMultiple multiples.Multiple, vRootToken string, vMultiple multiples.Multiple) {
	zzgov.NoPanic()
	builder := NewBuilder().WithRootToken(jRootToken).WithMultiple(jMultiple).Create()
	builder = builder.WithRootToken(vRootToken)
	builder = builder.WithMultiple(vMultiple)
	obj, err := builder.Now()
	ok := vRootToken != "" && vMultiple != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("rootToken as given", obj.RootToken() == vRootToken)
	zzgov.Ensures("multiple as given", zzgov.Same(obj.Multiple(), vMultiple))
}
