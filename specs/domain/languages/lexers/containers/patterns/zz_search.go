//go:build go1.21

package patterns

import (
	"strings"

	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops L03

// zzLongest is the length of the longest of the first n alternatives that stands at the start of a text.
//
//gov:ghost
func zzLongest(list []string, text string, n int) int {
	if n <= 0 {
		return 0
	}
	prev := zzLongest(list, text, n-1)
	if strings.HasPrefix(text, list[n-1]) && len(list[n-1]) >= prev {
		return len(list[n-1])
	}
	return prev
}

// zzAt is the length a group matches at the start of a text.
func zzAt(group Group, text string) int {
	list := group.Content().List()
	return zzLongest(list, text, len(list))
}

func zzInvLongest(iter zzgov.Iter, obj GroupContent, content string, longest int) bool {
	return longest == zzLongest(obj.List(), content, int(iter)) && 0 <= longest && longest <= len(content)
}

func zzInvNoLonger(iter zzgov.Iter, obj GroupContent, content string, longest int) bool {
	list := obj.List()
	return zzgov.ForAll(0, int(iter), func(i int) bool {
		return !strings.HasPrefix(content, list[i]) || len(list[i]) <= longest
	})
}

func zzInvOfOne(iter zzgov.Iter, obj GroupContent, content string, longest int) bool {
	list := obj.List()
	return longest == 0 || zzgov.Exists(0, int(iter), func(i int) bool {
		return strings.HasPrefix(content, list[i]) && len(list[i]) == longest
	})
}

//gov:contract GroupContent.Contains
//gov:use
//gov:inv zzInvLongest zzInvNoLonger zzInvOfOne
func zzContains(obj GroupContent, content string) func(amount uint) {
	zzgov.NoPanic()
	zzgov.Requires(obj != nil)
	return func(amount uint) {
		list := obj.List()
		n := int(amount)
		zzgov.Ensures("at most the text", 0 <= n && n <= len(content))
		zzgov.Ensures("no alternative that matches is longer", zzgov.ForAll(0, len(list), func(i int) bool {
			return !strings.HasPrefix(content, list[i]) || len(list[i]) <= n
		}))
		zzgov.Ensures("it is the length of an alternative that matches, if any", n == 0 || zzgov.Exists(0, len(list), func(i int) bool {
			return strings.HasPrefix(content, list[i]) && len(list[i]) == n
		}))
		zzgov.Ensures("longest", n == zzLongest(list, content, len(list)))
	}
}

func zzReady(app Adapter) bool {
	a := app.(*adapter)
	return a.containerBuilder != nil && a.discoveryBuilder != nil && a.discoveriesBuilder != nil && a.resultBuilder != nil && a.nextBuilder != nil
}

func zzInvGroup(i int, group Group, content string) bool {
	return zzgov.ForAll(0, i, func(j int) bool { return zzAt(group, content[j:]) == 0 })
}

//gov:contract Adapter.FromGroupToResult
//gov:use
//gov:inv zzInvGroup
func zzFromGroup(app Adapter, group Group, content string) func(res Result, err error) {
	zzgov.Requires(app != nil && zzReady(app) && group != nil && group.Content() != nil)
	zzgov.NoPanic()
	return func(res Result, err error) {
		if err != nil {
			zzgov.Ensures("nothing is found only when it occurs nowhere", res == nil && zzgov.ForAll(0, len(content), func(j int) bool {
				return zzAt(group, content[j:]) == 0
			}))
			return
		}
		zzgov.Ensures("something is found", res != nil)
		ds := res.Discoveries()
		at := int(ds.Index())
		zzgov.Ensures("within the text", 0 <= at && at < len(content))
		zzgov.Ensures("nowhere earlier", zzgov.ForAll(0, at, func(j int) bool { return zzAt(group, content[j:]) == 0 }))
		n := zzAt(group, content[at:])
		zzgov.Ensures("one discovery", len(ds.All()) == 1 && ds.All()[0].Container().IsGroup() && zzgov.Same(ds.All()[0].Container().Group(), group))
		zzgov.Ensures("of the longest alternative there", n > 0 && ds.All()[0].Content() == content[at:at+n])
		alternatives := group.Content().List()
		zzgov.Ensures("it is an alternative", zzgov.Exists(0, len(alternatives), func(i int) bool { return strings.HasPrefix(content[at:], alternatives[i]) && len(alternatives[i]) == n }))
		zzgov.Ensures("of the text given", res.Input() == content && !res.HasNext())
		zzgov.Ensures("prefix, discovery and remainder are the text", content[:at]+ds.All()[0].Content()+res.Remaining() == content)
		zzgov.Ensures("a remainder is told", res.HasRemaining() == (res.Remaining() != ""))
	}
}

// zzUntil is how far a text goes before a group matches, or to its end.
//
//gov:ghost
func zzUntil(group Group, text string) int {
	if text == "" || zzAt(group, text) > 0 {
		return 0
	}
	return 1 + zzUntil(group, text[1:])
}

// zzGroups is the length groups match one after another from the k-th on, negative when one does not.
//
//gov:ghost
func zzGroups(groups []Group, text string, k int) int {
	if k >= len(groups) {
		return 0
	}
	n := zzAt(groups[k], text)
	if n <= 0 {
		return -1
	}
	rest := zzGroups(groups, text[n:], k+1)
	if rest < 0 || rest > len(text)-n {
		return -1
	}
	return n + rest
}

// zzChosen is the length a choice matches at the start of a text, negative when it does not.
//
//gov:ghost
func zzChosen(choice Choice, text string) int {
	groups := choice.Serie().Content().List()
	if choice.IsReverse() {
		n := zzUntil(groups[0], text)
		if n <= 0 {
			return -1
		}
		return n
	}
	return zzGroups(groups, text, 0)
}

// zzChoices is the length matched by the choices from the k-th on, up to the first that does not match.
//
//gov:ghost
func zzChoices(choices []Choice, text string, k int) int {
	if k >= len(choices) {
		return 0
	}
	n := zzChosen(choices[k], text)
	if n < 0 {
		return 0
	}
	return n + zzChoices(choices, text[n:], k+1)
}

func zzWellGroup(group Group) bool { return group != nil && group.Content() != nil }

//gov:ghost
func zzWellChoice(choice Choice) bool {
	if choice == nil || choice.Serie() == nil || choice.Serie().Content() == nil {
		return false
	}
	groups := choice.Serie().Content().List()
	return len(groups) > 0 && zzgov.ForAll(0, len(groups), func(i int) bool { return zzWellGroup(groups[i]) })
}

//gov:ghost
func zzWellPattern(pattern Pattern) bool {
	if pattern == nil || pattern.Content() == nil {
		return false
	}
	choices := pattern.Content().List()
	return len(choices) > 0 && zzgov.ForAll(0, len(choices), func(i int) bool { return zzWellChoice(choices[i]) })
}

func zzInvUntil(group Group, content string, amount uint, remaining string) bool {
	n := int(amount)
	return 0 <= n && n <= len(content) && content == content[:n]+remaining && zzUntil(group, content) == n+zzUntil(group, remaining)
}

//gov:contract adapter.matchesGroup
//gov:use
//gov:inv zzInvUntil
func zzMatchesGroup(app *adapter, group Group, content string, isReverse bool) func(amount uint, err error) {
	zzgov.Requires(app != nil && zzWellGroup(group))
	zzgov.NoPanic()
	return func(amount uint, err error) {
		zzgov.Ensures("no failure", err == nil)
		zzgov.Ensures("within the text", 0 <= int(amount) && int(amount) <= len(content))
		if isReverse {
			zzgov.Ensures("up to where the group matches", int(amount) == zzUntil(group, content))
			return
		}
		zzgov.Ensures("the longest alternative", int(amount) == zzAt(group, content))
		alternatives := group.Content().List()
		zzgov.Ensures("an alternative", amount == 0 || zzgov.Exists(0, len(alternatives), func(i int) bool {
			return strings.HasPrefix(content, alternatives[i]) && len(alternatives[i]) == int(amount)
		}))
	}
}

func zzInvLaid(content string, matchedDiscoveriesList []Discovery, remaining string) bool {
	return zzJoined(matchedDiscoveriesList)+remaining == content
}

func zzInvSerie(iter zzgov.Iter, choice Choice, content string, matchedDiscoveriesList []Discovery, remaining string) bool {
	groups := choice.Serie().Content().List()
	n := len(content) - len(remaining)
	rest := zzGroups(groups, remaining, int(iter))
	whole := zzGroups(groups, content, 0)
	return n >= 0 && len(matchedDiscoveriesList) == int(iter) && (rest < 0 && whole < 0 || rest >= 0 && whole == n+rest)
}

func zzInvFirst(index uint, matchedDiscoveriesList []Discovery) bool {
	return len(matchedDiscoveriesList) == 0 || matchedDiscoveriesList[0].Index() == index
}

func zzInvFilled(matchedDiscoveriesList []Discovery) bool { return zzFilled(matchedDiscoveriesList) }

func zzHeld(c Container) bool { return c != nil && (c.Reverse() != nil || c.Group() != nil) }

//gov:ghost
func zzFilled(list []Discovery) bool {
	return zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil && zzHeld(list[i].Container()) })
}

func zzJoined(list []Discovery) string {
	return zzgov.ConcatS(len(list), func(i int) string { return list[i].Content() })
}

func zzInvJoin(iter zzgov.Iter, obj Discoveries, cell_list []string) bool {
	all := obj.All()
	return len(cell_list) == int(iter) && zzgov.ForAll(0, int(iter), func(i int) bool { return cell_list[i] == all[i].Content() })
}

func zzInvJoinReg(iter zzgov.Iter, obj Discoveries, list []string) bool {
	all := obj.All()
	return len(list) == int(iter) && zzgov.ForAll(0, int(iter), func(i int) bool { return list[i] == all[i].Content() })
}

//gov:contract Discoveries.Content
//gov:use
//gov:inv zzInvJoin zzInvJoinReg
func zzContent(obj Discoveries) func(text string) {
	zzgov.Requires(obj != nil && zzgov.ForAll(0, len(obj.All()), func(i int) bool { return obj.All()[i] != nil }))
	zzgov.NoPanic()
	return func(text string) {
		zzgov.Ensures("the texts discovered, laid end to end", text == zzJoined(obj.All()))
	}
}

//gov:contract adapter.matchChoice
//gov:use
//gov:inv zzInvLaid zzInvSerie zzInvFirst zzInvFilled
func zzMatchChoice(app *adapter, choice Choice, content string, index uint) func(ok bool, list []Discovery, group Group, remaining string, err error) {
	zzgov.Requires(app != nil && zzReady(app) && zzWellChoice(choice))
	zzgov.NoPanic()
	return func(ok bool, list []Discovery, group Group, remaining string, err error) {
		n := zzChosen(choice, content)
		zzgov.Ensures("no failure", err == nil)
		zzgov.Ensures("it matches exactly when its groups do", ok == (n >= 0))
		if !ok {
			return
		}
		text := zzgov.ConcatS(len(list), func(i int) string { return list[i].Content() })
		zzgov.Ensures("something is discovered", len(list) > 0 && list[0].Index() == index)
		zzgov.Ensures("each is a discovery", zzFilled(list))
		zzgov.Ensures("as long as its groups", n > 0 && len(text) == n)
		zzgov.Ensures("discoveries and remainder are the text", text+remaining == content)
		zzgov.Ensures("the remainder follows", n <= len(content) && remaining == content[n:])
	}
}

func zzInvFirstChosen(iter zzgov.Iter, pattern Pattern, content string) bool {
	return iter == 0 || zzChosen(pattern.Content().List()[0], content) >= 0
}

func zzInvStart(iter zzgov.Iter, content string, remaining string) bool {
	return iter > 0 || remaining == content
}

func zzInvSome(discoveriesList []Discovery) bool {
	return len(discoveriesList) == 0 || zzJoined(discoveriesList) != ""
}

func zzInvChoicesLaid(content string, discoveriesList []Discovery, remaining string) bool {
	return zzJoined(discoveriesList)+remaining == content
}

func zzInvChoices(iter zzgov.Iter, pattern Pattern, content string, remaining string) bool {
	choices := pattern.Content().List()
	n := len(content) - len(remaining)
	return n >= 0 && zzChoices(choices, content, 0) == n+zzChoices(choices, remaining, int(iter))
}

func zzInvChoicesAny(iter zzgov.Iter, discoveriesList []Discovery) bool {
	return (len(discoveriesList) > 0) == (iter > 0)
}

func zzInvFirstOfAll(nextIndex uint, discoveriesList []Discovery) bool {
	return len(discoveriesList) == 0 || discoveriesList[0].Index() == nextIndex
}

func zzInvAllFilled(discoveriesList []Discovery) bool {
	return zzFilled(discoveriesList)
}

//gov:contract adapter.matchPattern
//gov:use
//gov:inv zzInvChoicesAny zzInvStart zzInvFirstChosen zzInvSome zzInvChoicesLaid zzInvChoices zzInvFirstOfAll zzInvAllFilled
func zzMatchPattern(app *adapter, pattern Pattern, content string, nextIndex uint) func(res Result, err error) {
	zzgov.Requires(app != nil && zzReady(app) && zzWellPattern(pattern) && content != "")
	zzgov.NoPanic()
	return func(res Result, err error) {
		choices := pattern.Content().List()
		zzgov.Ensures("no failure", err == nil)
		zzgov.Ensures("it matches exactly when its first choice does", (res != nil) == (zzChosen(choices[0], content) >= 0))
		if res == nil {
			return
		}
		zzgov.Ensures("its discoveries are told", res.Discoveries() != nil && zzFilled(res.Discoveries().All()))
		zzgov.Ensures("at the position told", len(res.Discoveries().All()) > 0 && res.Discoveries().Index() == nextIndex)
		zzgov.Ensures("what the choices match one after another", len(zzJoined(res.Discoveries().All())) == zzChoices(choices, content, 0))
		zzgov.Ensures("something", zzJoined(res.Discoveries().All()) != "")
		zzgov.Ensures("the text it was found in starts there", res.Input() == content)
		zzgov.Ensures("discovery and remainder are the text", zzJoined(res.Discoveries().All())+res.Remaining() == content)
		zzgov.Ensures("a remainder is told", res.HasRemaining() == (res.Remaining() != ""))
	}
}

// zzFirstAt is the first place, from k on, where the first choice of a pattern matches, or the end of the text.
//
//gov:ghost
func zzFirstAt(pattern Pattern, text string, k int) int {
	if k < 0 || k >= len(text) {
		return len(text)
	}
	if zzChosen(pattern.Content().List()[0], text[k:]) >= 0 {
		return k
	}
	return zzFirstAt(pattern, text, k+1)
}

// zzBest is the first, among the first n patterns, of those found the earliest, negative when none is found.
//
//gov:ghost
func zzBest(patterns []Pattern, text string, n int) int {
	if n <= 0 {
		return -1
	}
	prev := zzBest(patterns, text, n-1)
	at := zzFirstAt(patterns[n-1], text, 0)
	if at >= len(text) {
		return prev
	}
	if prev < 0 || prev >= n-1 || at < zzFirstAt(patterns[prev], text, 0) {
		return n - 1
	}
	return prev
}

func zzInvFirstAt(i int, pattern Pattern, content string) bool {
	return zzFirstAt(pattern, content, 0) == zzFirstAt(pattern, content, i)
}

func zzInvPattern(i int, pattern Pattern, content string) bool {
	return zzgov.ForAll(0, i, func(j int) bool { return zzChosen(pattern.Content().List()[0], content[j:]) < 0 })
}

//gov:contract Adapter.FromPatternToResult
//gov:use
//gov:inv zzInvPattern zzInvFirstAt
func zzFromPattern(app Adapter, pattern Pattern, content string) func(res Result, err error) {
	zzgov.Requires(app != nil && zzReady(app) && zzWellPattern(pattern))
	zzgov.NoPanic()
	return func(res Result, err error) {
		choices := pattern.Content().List()
		if err != nil {
			zzgov.Ensures("nothing is found only when it occurs nowhere", res == nil && zzgov.ForAll(0, len(content), func(j int) bool {
				return zzChosen(choices[0], content[j:]) < 0
			}))
			zzgov.Ensures("nowhere", zzFirstAt(pattern, content, 0) == len(content))
			return
		}
		zzgov.Ensures("something is found", res != nil && res.Discoveries() != nil && len(res.Discoveries().All()) > 0 && zzFilled(res.Discoveries().All()))
		at := int(res.Discoveries().Index())
		zzgov.Ensures("within the text", 0 <= at && at < len(content))
		zzgov.Ensures("nowhere earlier", zzgov.ForAll(0, at, func(j int) bool { return zzChosen(choices[0], content[j:]) < 0 }))
		zzgov.Ensures("the first place", at == zzFirstAt(pattern, content, 0))
		zzgov.Ensures("found there", zzIsFound(res, content) && zzIsAt(res, pattern, content))
		zzgov.Ensures("its discoveries are told", zzFilled(res.Discoveries().All()))
		zzgov.Ensures("what the choices match one after another", zzIsMatch(res, pattern, content))
		zzgov.Ensures("prefix, discovery and remainder are the text", zzIsWhole(res, content))
	}
}

// zzIsFound tells that a result is found in a text, at the place it tells.
//
//gov:ghost
func zzIsFound(res Result, content string) bool {
	if res == nil || res.Discoveries() == nil || len(res.Discoveries().All()) == 0 {
		return false
	}
	at := int(res.Discoveries().Index())
	return at >= 0 && at < len(content) && res.Input() == content[at:]
}

// zzIsAt tells that a result is at the first place where a pattern matches.
//
//gov:ghost
func zzIsAt(res Result, pattern Pattern, content string) bool {
	return int(res.Discoveries().Index()) == zzFirstAt(pattern, content, 0)
}


//gov:ghost
func zzIsWhole(res Result, content string) bool {
	at := int(res.Discoveries().Index())
	text := ZZText(res)
	return text+res.Remaining() == res.Input() && at <= len(content) && content[:at]+text+res.Remaining() == content && text != "" && res.HasRemaining() == (res.Remaining() != "")
}


//gov:ghost
func zzIsMatch(res Result, pattern Pattern, content string) bool {
	at := int(res.Discoveries().Index())
	return len(ZZText(res)) == zzChoices(pattern.Content().List(), content[at:], 0)
}

func zzInvBest(iter zzgov.Iter, patterns Patterns, content string, res Result) bool {
	p := zzBest(patterns.All(), content, int(iter))
	return p < int(iter) && (res == nil) == (p < 0)
}

func zzInvBestFound(content string, res Result) bool { return res == nil || zzIsFound(res, content) }

func zzInvBestFilled(res Result) bool {
	return res == nil || res.Discoveries() == nil || zzFilled(res.Discoveries().All())
}

func zzInvBestAt(iter zzgov.Iter, patterns Patterns, content string, res Result) bool {
	list := patterns.All()
	return res == nil || zzIsAt(res, list[zzBest(list, content, int(iter))], content)
}

func zzInvBestWhole(content string, res Result) bool { return res == nil || zzIsWhole(res, content) }

func zzInvBestMatch(iter zzgov.Iter, patterns Patterns, content string, res Result) bool {
	list := patterns.All()
	p := zzBest(list, content, int(iter))
	return res == nil || zzIsMatch(res, list[p], content)
}

func zzInvBestIndex(content string, res Result, index int) bool {
	if res == nil {
		return index >= len(content)
	}
	return index == int(res.Discoveries().Index())
}

func zzInvEarliest(iter zzgov.Iter, patterns Patterns, content string, index int) bool {
	list := patterns.All()
	return zzgov.ForAll(0, int(iter), func(i int) bool {
		at := zzFirstAt(list[i], content, 0)
		return at >= index || at >= len(content)
	})
}

func zzWellPatterns(patterns Patterns) bool {
	if patterns == nil {
		return false
	}
	list := patterns.All()
	return zzgov.ForAll(0, len(list), func(i int) bool { return zzWellPattern(list[i]) })
}

//gov:contract Adapter.FromPatternsToResult
//gov:use
//gov:inv zzInvBest zzInvBestFound zzInvBestFilled zzInvBestAt zzInvBestWhole zzInvBestMatch zzInvBestIndex zzInvEarliest
func zzFromPatterns(app Adapter, patterns Patterns, content string) func(res Result, err error) {
	zzgov.Requires(app != nil && zzReady(app) && zzWellPatterns(patterns))
	zzgov.NoPanic()
	return func(res Result, err error) {
		list := patterns.All()
		if err != nil {
			zzgov.Ensures("nothing is found only when no pattern occurs anywhere", res == nil && zzgov.ForAll(0, len(list), func(i int) bool {
				return zzFirstAt(list[i], content, 0) >= len(content)
			}))
			return
		}
		p := zzBest(list, content, len(list))
		zzgov.Ensures("what a pattern finds", p >= 0 && p < len(list) && zzIsFound(res, content) && zzIsAt(res, list[p], content))
		zzgov.Ensures("its discoveries are told", zzFilled(res.Discoveries().All()))
		at := int(res.Discoveries().Index())
		zzgov.Ensures("no pattern is found earlier", zzgov.ForAll(0, len(list), func(i int) bool { return zzFirstAt(list[i], content, 0) >= at }))
		zzgov.Ensures("what the choices of that pattern match there", zzIsMatch(res, list[p], content))
		zzgov.Ensures("prefix, discovery and remainder are the text", zzIsWhole(res, content))
		zzgov.Ensures("the remainder follows the discovery", at <= len(content) && int(res.Discoveries().Amount()) == len(ZZText(res)) && len(ZZText(res)) <= len(res.Input()) && res.Remaining() == res.Input()[len(ZZText(res)):])
		zzgov.Ensures("its input starts where it is found", res.Input() == content[at:])
	}
}

// What other packages say about searches.

//gov:helper
func ZZReady(app Adapter) bool { return zzReady(app) }

//gov:helper
func ZZWellPatterns(patterns Patterns) bool { return zzWellPatterns(patterns) }

//gov:helper
func ZZBest(list []Pattern, text string) int { return zzBest(list, text, len(list)) }

//gov:helper
func ZZFirstAt(pattern Pattern, text string) int { return zzFirstAt(pattern, text, 0) }

//gov:helper
func ZZMatched(pattern Pattern, text string) int { return zzChoices(pattern.Content().List(), text, 0) }

// ZZText is the text a result discovered.
//
//gov:ghost
func ZZText(res Result) string { return zzJoined(res.Discoveries().All()) }

//gov:helper
func ZZFilled(res Result) bool { return res != nil && res.Discoveries() != nil && zzFilled(res.Discoveries().All()) }

//gov:helper
func ZZIsWhole(res Result, content string) bool { return zzIsWhole(res, content) }
