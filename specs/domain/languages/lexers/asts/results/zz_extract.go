//go:build go1.21

package results

import (
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops L04

// zzTimes is how many times one of the patterns is found at the very start of what remains of a text.
//
//gov:ghost
func zzTimes(list []patterns.Pattern, text string, left int) int {
	if text == "" || left == 0 {
		return 0
	}
	p := patterns.ZZBest(list, text)
	if p < 0 || p >= len(list) || patterns.ZZFirstAt(list[p], text) != 0 {
		return 0
	}
	n := patterns.ZZMatched(list[p], text)
	if n <= 0 || n > len(text) {
		return 0
	}
	return 1 + zzTimes(list, text[n:], left-1)
}

// zzLimit is the most times a pattern may be found, negative when there is no limit.
//
//gov:ghost
func zzLimit(input rules.Rule) int {
	c := input.Element().Content().Pattern().Cardinality()
	if cardinality.ZZUnbounded(c) || cardinality.ZZHighest(c) > 1<<60 {
		return -1
	}
	return int(cardinality.ZZHighest(c))
}

func zzReady(app Adapter) bool {
	a := app.(*adapter)
	return a.patternAdapter != nil && patterns.ZZReady(a.patternAdapter) && a.groupBuilder != nil && a.builder != nil
}

func zzWellRule(input rules.Rule) bool {
	if input == nil || input.Element() == nil || input.Element().Content() == nil {
		return false
	}
	content := input.Element().Content()
	if content.IsConstant() {
		return !content.IsPattern()
	}
	if content.Pattern() == nil {
		return false
	}
	return cardinality.ZZWell(content.Pattern().Cardinality()) && patterns.ZZWellPatterns(content.Pattern().SubPatterns())
}

func zzInvTimes(input rules.Rule, script string, list []patterns.Result, remaining string) bool {
	all := input.Element().Content().Pattern().SubPatterns().All()
	limit := zzLimit(input)
	n := len(list)
	return (limit < 0 || n <= limit) && zzTimes(all, script, limit) == n+zzTimes(all, remaining, limit-n)
}

func zzTexts(list []patterns.Result) string {
	return zzgov.ConcatS(len(list), func(i int) string { return patterns.ZZText(list[i]) })
}

func zzInvEach(list []patterns.Result) bool {
	return zzgov.ForAll(0, len(list), func(i int) bool { return zzEach(list[i]) })
}

//gov:ghost
func zzEach(one patterns.Result) bool {
	return one != nil && one.Discoveries() != nil && one.Discoveries().Index() == 0 && one.Input() == patterns.ZZText(one)+one.Remaining()
}

func zzInvChain(script string, list []patterns.Result, remaining string) bool {
	n := len(list)
	if n == 0 {
		return remaining == script
	}
	return list[0].Input() == script && list[n-1].Remaining() == remaining && zzgov.ForAll(0, n-1, func(i int) bool { return list[i].Remaining() == list[i+1].Input() })
}

//gov:contract Adapter.ToResult
//gov:use
//gov:inv zzInvTimes zzInvEach zzInvChain
func zzToResult(app Adapter, input rules.Rule, script string) func(res Result, err error) {
	zzgov.Requires(app != nil && zzReady(app) && zzWellRule(input))
	zzgov.NoPanic()
	return func(res Result, err error) {
		zzgov.Ensures("no failure", err == nil && res != nil)
		zzgov.Ensures("of the rule", zzgov.Same(res.Input(), input))
		content := input.Element().Content()
		if !res.HasMatches() {
			zzgov.Ensures("nothing is told", res.Amount() == 0)
		} else {
			zzgov.Ensures("something is told", len(res.Matches().List()) > 0 && int(res.Amount()) == len(res.Matches().List()))
		}
		if content.IsConstant() {
			constant := content.Constant()
			if !res.HasMatches() {
				zzgov.Ensures("a constant is missed only when it occurs nowhere", zzgov.ForAll(0, len(script), func(j int) bool { return !strings.HasPrefix(script[j:], constant) }))
				return
			}
			list := res.Matches().List()
			zzgov.Ensures("a constant is found once", len(list) == 1 && list[0] != nil)
			ds := list[0].Discoveries()
			at := int(ds.Index())
			zzgov.Ensures("within the script", 0 <= at && at < len(script) && list[0].Input() == script)
			zzgov.Ensures("nowhere earlier", zzgov.ForAll(0, at, func(j int) bool { return !strings.HasPrefix(script[j:], constant) }))
			zzgov.Ensures("it is the constant", len(ds.All()) == 1 && ds.All()[0].Content() == constant)
			zzgov.Ensures("prefix, constant and remainder are the script", script[:at]+constant+list[0].Remaining() == script)
			return
		}
		all := content.Pattern().SubPatterns().All()
		zzgov.Ensures("as many times as the patterns repeat, within the limit", int(res.Amount()) == zzTimes(all, script, zzLimit(input)))
		if !res.HasMatches() {
			return
		}
		list := res.Matches().List()
		n := len(list)
		zzgov.Ensures("each is found at once", zzgov.ForAll(0, n, func(i int) bool { return zzEach(list[i]) }))
		zzgov.Ensures("from the start of the script", list[0].Input() == script)
		zzgov.Ensures("each where the previous ended", zzgov.ForAll(0, n-1, func(i int) bool { return list[i].Remaining() == list[i+1].Input() }))
	}
}

func zzInvContent(iter zzgov.Iter, obj Matches, cell_discoveries []string) bool {
	list := obj.List()
	return len(cell_discoveries) == int(iter) && zzgov.ForAll(0, int(iter), func(i int) bool { return cell_discoveries[i] == patterns.ZZText(list[i]) })
}

func zzInvContentReg(iter zzgov.Iter, obj Matches, discoveries []string) bool {
	list := obj.List()
	return len(discoveries) == int(iter) && zzgov.ForAll(0, int(iter), func(i int) bool { return discoveries[i] == patterns.ZZText(list[i]) })
}

//gov:contract Matches.Content
//gov:use
//gov:inv zzInvContent zzInvContentReg
func zzContent(obj Matches) func(text string) {
	zzgov.Requires(obj != nil && zzgov.ForAll(0, len(obj.List()), func(i int) bool { return obj.List()[i] != nil && obj.List()[i].Discoveries() != nil }))
	zzgov.Requires(zzgov.ForAll(0, len(obj.List()), func(i int) bool { return patterns.ZZFilled(obj.List()[i]) }))
	zzgov.NoPanic()
	return func(text string) {
		zzgov.Ensures("what is found, laid end to end", text == zzTexts(obj.List()))
	}
}

// ZZFilled says a result's matches can be read.
//
//gov:ghost
//gov:opaque
func ZZFilled(obj Result) bool {
	if obj == nil {
		return false
	}
	if !obj.HasMatches() {
		return true
	}
	list := obj.Matches().List()
	return len(list) > 0 && zzgov.ForAll(0, len(list), func(i int) bool {
		return list[i] != nil && list[i].Discoveries() != nil && len(list[i].Discoveries().All()) > 0 && list[i].Discoveries().All()[0] != nil && patterns.ZZFilled(list[i])
	})
}

// ZZText is the text a result found, laid end to end.
//
//gov:ghost
//gov:opaque
func ZZText(obj Result) string {
	if !obj.HasMatches() {
		return ""
	}
	return zzTexts(obj.Matches().List())
}

//gov:contract Result.Content
//gov:use
func zzResultContent(obj Result) func(text string) {
	zzgov.Requires(ZZFilled(obj))
	zzgov.NoPanic()
	return func(text string) {
		zzgov.Ensures("what its matches found, if any", text == ZZText(obj))
	}
}
