//go:build go1.21

package tokens

import (
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops B01

//gov:lemma B01
func zzBlockMatch(jContainer Match, jBlock BlockMatch, jNext NextElement, jPrefix LineMatch, vContainer Match, vBlock BlockMatch, vNext NextElement, vPrefix LineMatch) {
	zzgov.NoPanic()
	builder := NewBlockMatchBuilder().WithContainer(jContainer).WithBlock(jBlock).WithNextElement(jNext).WithChannelPrefix(jPrefix).Create()
	builder = builder.WithContainer(vContainer)
	builder = builder.WithBlock(vBlock)
	builder = builder.WithNextElement(vNext)
	builder = builder.WithChannelPrefix(vPrefix)
	obj, err := builder.Now()
	ok := vContainer != nil || vBlock != nil || vNext != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	at := obj.Content()
	zzgov.Ensures("container held only when given", at.IsContainer() == (at.Container() != nil) && (!at.IsContainer() || zzgov.Same(at.Container(), vContainer)))
	zzgov.Ensures("container held when alone", at.IsContainer() || vContainer == nil || vBlock != nil || vNext != nil)
	zzgov.Ensures("block held only when given", at.IsBlock() == (at.Block() != nil) && (!at.IsBlock() || zzgov.Same(at.Block(), vBlock)))
	zzgov.Ensures("block held when alone", at.IsBlock() || vBlock == nil || vContainer != nil || vNext != nil)
	zzgov.Ensures("next element held only when given", at.IsNextElement() == (at.NextElement() != nil) && (!at.IsNextElement() || zzgov.Same(at.NextElement(), vNext)))
	zzgov.Ensures("next element held when alone", at.IsNextElement() || vNext == nil || vContainer != nil || vBlock != nil)
	zzgov.Ensures("exactly one alternative", (at.IsContainer() && !at.IsBlock() && !at.IsNextElement()) || (!at.IsContainer() && at.IsBlock() && !at.IsNextElement()) || (!at.IsContainer() && !at.IsBlock() && at.IsNextElement()))
	zzgov.Ensures("channel prefix exactly when given", obj.HasChannelPrefix() == (vPrefix != nil) && zzgov.Same(obj.ChannelPrefix(), vPrefix))
}
