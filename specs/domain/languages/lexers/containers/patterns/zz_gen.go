//go:build go1.21

package patterns

import "github.com/steve-care-software/steve/zzgov"

// Well-formed patterns over a small alphabet, for the search of failing inputs.
func init() {
	texts := []string{"a", "b", "ab", "ba", "aab", "c", "\n"}
	groupOf := func(g *zzgov.Gen) Group {
		list := []string{}
		for i := 0; i <= g.R.Intn(2); i++ {
			list = append(list, texts[g.R.Intn(len(texts))])
		}
		group, _ := NewGroupBuilder().Create().WithName("$G").WithList(list).Now()
		return group
	}
	zzgov.GenFor(groupOf)
	choiceOf := func(g *zzgov.Gen) Choice {
		list := []Group{}
		for i := 0; i <= g.R.Intn(2); i++ {
			list = append(list, groupOf(g))
		}
		serie, _ := NewSerieBuilder().Create().WithName("S").WithList(list).Now()
		builder := NewChoiceBuilder().Create().WithSerie(serie)
		if g.R.Intn(3) == 0 {
			builder.IsReverse()
		}
		choice, _ := builder.Now()
		return choice
	}
	zzgov.GenFor(choiceOf)
	zzgov.GenFor(func(g *zzgov.Gen) Pattern {
		list := []Choice{}
		for i := 0; i <= g.R.Intn(3); i++ {
			list = append(list, choiceOf(g))
		}
		pattern, _ := NewPatternBuilder().Create().WithName("p").WithList(list).Now()
		return pattern
	})
	zzgov.GenFor(func(g *zzgov.Gen) Adapter { return NewAdapter() })
	zzgov.GenFor(func(g *zzgov.Gen) *adapter { return NewAdapter().(*adapter) })
}
