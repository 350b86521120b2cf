//go:build go1.21

package contents

import (
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops B01

//gov:lemma B01
func zzContent(jContent string, vContent string, vIsPrefixLegal bool, vIsSuffixLegal bool) {
	zzgov.NoPanic()
	builder := NewBuilder().WithContent(jContent).IsPrefixLegal().IsSuffixLegal().Create()
	builder = builder.WithContent(vContent)
	if vIsPrefixLegal {
		builder = builder.IsPrefixLegal()
	}
	if vIsSuffixLegal {
		builder = builder.IsSuffixLegal()
	}
	obj, err := builder.Now()
	ok := vContent != ""
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("content as given", obj.Content() == vContent)
	zzgov.Ensures("isPrefixLegal exactly when asked", obj.IsPrefixLegal() == vIsPrefixLegal)
	zzgov.Ensures("isSuffixLegal exactly when asked", obj.IsSuffixLegal() == vIsSuffixLegal)
}
