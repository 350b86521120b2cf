//go:build go1.21

package multiples

import (
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/containers"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops B01

//gov:lemma B01
func zzMultiple(jContainer containers.Container, jChannels string, vContainer containers.Container, vChannels string) {
	zzgov.NoPanic()
	builder := NewBuilder().WithContainer(jContainer).WithChannels(jChannels).Create()
	builder = builder.WithContainer(vContainer)
	builder = builder.WithChannels(vChannels)
	obj, err := builder.Now()
	ok := vContainer != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("container as given", zzgov.Same(obj.Container(), vContainer))
	zzgov.Ensures("channels exactly when given", obj.HasChannels() == (vChannels != "") && obj.Channels() == vChannels)
}
