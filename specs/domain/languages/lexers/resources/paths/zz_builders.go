//go:build go1.21

package paths

import (
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/containers"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops B01

//gov:lemma B01
func zzPath(jRootToken string, jContainer containers.Container, vRootToken string, vContainer containers.Container) {
	zzgov.NoPanic()
	builder := NewBuilder().WithRootToken(jRootToken).WithContainer(jContainer).Create()
	builder = builder.WithRootToken(vRootToken)
	builder = builder.WithContainer(vContainer)
	obj, err := builder.Now()
	ok := vRootToken != "" && vContainer != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("rootToken as given", obj.RootToken() == vRootToken)
	zzgov.Ensures("container as given", zzgov.Same(obj.Container(), vContainer))
}
