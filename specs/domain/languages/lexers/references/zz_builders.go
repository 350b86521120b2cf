//go:build go1.21

package references

import (
	"github.com/steve-care-software/steve/domain/languages/lexers/references/links"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops B01

//gov:lemma B01
func zzReferences(jReferences links.Links, jReplacements links.Links, vReferences links.Links, vReplacements links.Links) {
	zzgov.NoPanic()
	builder := NewBuilder().WithReferences(jReferences).WithReplacements(jReplacements).Create()
	builder = builder.WithReferences(vReferences)
	builder = builder.WithReplacements(vReplacements)
	obj, err := builder.Now()
	zzgov.Ensures("always obtained", err == nil && obj != nil)
	zzgov.Ensures("references exactly when given", obj.HasReferences() == (vReferences != nil) && zzgov.Same(obj.References(), vReferences))
	zzgov.Ensures("replacements exactly when given", obj.HasReplacements() == (vReplacements != nil) && zzgov.Same(obj.Replacements(), vReplacements))
}
