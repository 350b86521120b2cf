//go:build go1.21

package links

import (
	"github.com/steve-care-software/steve/domain/languages/lexers/paths"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops B01

//gov:lemma B01
func zzInclude(jName string, jPaths paths.Paths, vName string, vPaths paths.Paths) {
	zzgov.NoPanic()
	builder := NewIncludeBuilder().WithName(jName).WithPaths(jPaths).Create()
	builder = builder.WithName(vName)
	builder = builder.WithPaths(vPaths)
	obj, err := builder.Now()
	ok := vName != "" && vPaths != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("name as given", obj.Name() == vName)
	zzgov.Ensures("paths as given", zzgov.Same(obj.Paths(), vPaths))
}

//gov:lemma B01
func zzLink(jLocalToken string, jReferenceToken string, jInclude Include, vLocalToken string, vReferenceToken string, vInclude Include) {
	zzgov.NoPanic()
	builder := NewLinkBuilder().WithLocalToken(jLocalToken).WithReferenceToken(jReferenceToken).WithInclude(jInclude).Create()
	builder = builder.WithLocalToken(vLocalToken)
	builder = builder.WithReferenceToken(vReferenceToken)
	builder = builder.WithInclude(vInclude)
	obj, err := builder.Now()
	ok := vLocalToken != "" && vReferenceToken != "" && vInclude != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("localToken as given", obj.LocalToken() == vLocalToken)
	zzgov.Ensures("referenceToken as given", obj.ReferenceToken() == vReferenceToken)
	zzgov.Ensures("include as given", zzgov.Same(obj.Include(), vInclude))
}
