//go:build go1.21

package tokens

import (
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/results"
	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops L06

// What can be read: nothing in it is missing.

//gov:ghost
func zzTokenOk(t Token) bool {
	if t == nil || !t.HasContent() {
		return t != nil
	}
	c := t.Content()
	return zzContentOk(c) && c.Must() != nil && c.Must().Matches() != nil && zzBlocksOk(c.Must().Matches().BlockMatches())
}

func zzBlocksOk(list []BlockMatch) bool {
	return zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil && zzBlockOk(list[i]) })
}

func zzTokensOk(list []Token) bool {
	return zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil && zzTokenOk(list[i]) })
}

//gov:ghost
func zzContentOk(c TokenContent) bool {
	if c == nil || c.Must() == nil || c.Must().Matches() == nil || !zzLineOk(c.Must().Matches()) {
		return false
	}
	return !c.HasNot() || (c.Not().Matches() != nil && zzLineOk(c.Not().Matches()))
}

//gov:ghost
func zzLineOk(m Matches) bool {
	if m == nil {
		return false
	}
	list := m.BlockMatches()
	return zzgov.ForAll(0, len(list), func(i int) bool { return zzBlockOk(list[i]) })
}

//gov:ghost
func zzBlockOk(b BlockMatch) bool {
	if b == nil || b.Content() == nil {
		return false
	}
	if b.HasChannelPrefix() && (b.ChannelPrefix().Matches() == nil || !zzLineOk(b.ChannelPrefix().Matches())) {
		return false
	}
	if b.Content().IsContainer() {
		return b.Content().Container().Content() != nil && zzElementOk(b.Content().Container())
	}
	return !b.Content().IsBlock() || zzBlockOk(b.Content().Block())
}

//gov:ghost
func zzElementOk(m Match) bool {
	if m == nil || m.Content() == nil {
		return false
	}
	if r := m.Content().Rule(); r != nil && (r.Rule() == nil || r.Rule().Base() == nil || r.Result() == nil || r.Result().Result() == nil || !zzResultsOk(r.Result().Result()) || !zzRuleOk(r)) {
		return false
	}
	t := m.Content().Token()
	return t == nil || (t.Path() != nil && t.Path().Element() != nil && t.Result() != nil && zzRepeatedOk(t.Result()) && zzTokenMatchOk(t))
}

//gov:ghost
func zzTokenMatchOk(t TokenMatch) bool {
	if t == nil || t.Path() == nil || t.Path().Element() == nil || t.Result() == nil || !zzRepeatedOk(t.Result()) {
		return false
	}
	list := t.Specifiers()
	return zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil && zzSpecifierOk(list[i]) })
}

//gov:ghost
func zzSpecifierOk(s Specifier) bool {
	return s != nil && s.Cardinality() != nil && (s.Cardinality().IsAmount() || s.Cardinality().IsRange()) && zzRepeatedOk(s.Result())
}

//gov:ghost
func zzRepeatedOk(r TokenResult) bool {
	return r != nil && cardinality.ZZWell(r.Cardinality()) && (!r.HasMatches() || (zzAllOk(r.Matches()) && zzTokensOk(r.Matches().All())))
}

//gov:ghost
func zzAllOk(m TokenResultMatches) bool {
	if m == nil {
		return false
	}
	list := m.All()
	return zzgov.ForAll(0, len(list), func(i int) bool { return zzTokenOk(list[i]) })
}

//gov:ghost
func zzRuleOk(r RuleMatch) bool {
	return r != nil && r.Rule() != nil && r.Rule().Base() != nil && r.Result() != nil && r.Result().Path() != nil && cardinality.ZZWell(r.Result().Path().Cardinality()) && zzResultsOk(r.Result().Result()) && zzFirstOk(r.Result().Result().Results())
}

func zzFirstOk(list []results.Result) bool {
	if len(list) == 0 {
		return true
	}
	if list[0] == nil {
		return false
	}
	if !list[0].HasMatches() {
		return true
	}
	all := list[0].Matches().List()
	return len(all) > 0 && all[0] != nil && all[0].Discoveries() != nil && len(all[0].Discoveries().All()) > 0 && all[0].Discoveries().All()[0] != nil
}

//gov:ghost
func zzResultsOk(r Result) bool {
	if r == nil {
		return false
	}
	list := r.Results()
	return r.HasResults() == (len(list) > 0) && zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil && results.ZZFilled(list[i]) })
}

// What is valid.

func zzWithin(c cardinality.Cardinality, amount uint) bool {
	return amount >= cardinality.ZZLowest(c) && (cardinality.ZZUnbounded(c) || amount <= cardinality.ZZHighest(c))
}

// a token without content never is; one that must not match is valid exactly when that does not match
//
//gov:ghost
func zzTokenValid(t Token) bool { return t.HasContent() && zzContentValid(t.Content()) }

//gov:ghost
func zzContentValid(c TokenContent) bool {
	if c.HasNot() {
		return !zzLineValid(c.Not().Matches())
	}
	return zzLineValid(c.Must().Matches())
}

// a line is valid exactly when all its elements are
//
//gov:ghost
func zzLineValid(m Matches) bool {
	list := m.BlockMatches()
	return zzgov.ForAll(0, len(list), func(i int) bool { return zzBlockValid(list[i]) })
}

// an element that expected a following one never is
//
//gov:ghost
func zzBlockValid(b BlockMatch) bool {
	if b.Content().IsContainer() {
		return zzElementValid(b.Content().Container())
	}
	return b.Content().IsBlock() && zzBlockValid(b.Content().Block())
}

// a skipped element always is
//
//gov:ghost
func zzElementValid(m Match) bool {
	if m.Content().IsRule() {
		return zzRuleValid(m.Content().Rule())
	}
	return !m.Content().IsToken() || zzTokenMatchValid(m.Content().Token())
}

//gov:ghost
func zzTokenMatchValid(t TokenMatch) bool {
	list := t.Specifiers()
	return zzRepeatedValid(t.Result()) && zzgov.ForAll(0, len(list), func(i int) bool { return zzSpecifierValid(list[i]) })
}

// within its cardinality, every repetition valid
//
//gov:ghost
func zzRepeatedValid(r TokenResult) bool {
	if !r.HasMatches() {
		return zzWithin(r.Cardinality(), 0)
	}
	return zzWithin(r.Cardinality(), uint(len(r.Matches().All()))) && zzAllValid(r.Matches())
}

//gov:ghost
func zzAllValid(m TokenResultMatches) bool {
	list := m.All()
	return zzgov.ForAll(0, len(list), func(i int) bool { return zzTokenValid(list[i]) })
}

// within its cardinality and, unless it can have a prefix, found at the very start
//
//gov:ghost
func zzRuleValid(r RuleMatch) bool {
	list := r.Result().Result().Results()
	if !zzWithin(r.Result().Path().Cardinality(), uint(len(list))) {
		return false
	}
	if len(list) == 0 || r.CanHavePrefix() {
		return true
	}
	return list[0].HasMatches() && list[0].Matches().List()[0].Discoveries().Index() == 0
}

// What is discovered.

//gov:ghost
func zzTokenText(t Token) string {
	if !t.HasContent() {
		return ""
	}
	return zzContentText(t.Content())
}

//gov:ghost
func zzContentText(c TokenContent) string {
	if c.HasNot() && zzLineValid(c.Not().Matches()) {
		return ""
	}
	return zzLineText(c.Must().Matches())
}

//gov:ghost
func zzLineText(m Matches) string {
	if !zzLineValid(m) {
		return ""
	}
	list := m.BlockMatches()
	return zzgov.ConcatS(len(list), func(i int) string { return zzBlockText(list[i]) })
}

func zzPrefixText(b BlockMatch) string {
	if !b.HasChannelPrefix() {
		return ""
	}
	return zzLineText(b.ChannelPrefix().Matches())
}

//gov:ghost
func zzBlockText(b BlockMatch) string {
	if b.Content().IsContainer() {
		return zzPrefixText(b) + zzElementText(b.Content().Container())
	}
	if b.Content().IsBlock() {
		return zzPrefixText(b) + zzBlockText(b.Content().Block())
	}
	return zzPrefixText(b)
}

//gov:ghost
func zzElementText(m Match) string {
	if m.Content().IsRule() {
		return zzResultsText(m.Content().Rule().Result().Result())
	}
	if m.Content().IsToken() {
		return zzRepeatedText(m.Content().Token().Result())
	}
	return ""
}

//gov:ghost
func zzRepeatedText(r TokenResult) string {
	if !r.HasMatches() {
		return ""
	}
	return zzAllText(r.Matches())
}

//gov:ghost
func zzAllText(m TokenResultMatches) string {
	list := m.All()
	return zzgov.ConcatS(len(list), func(i int) string { return zzTokenText(list[i]) })
}

//gov:ghost
func zzResultsText(r Result) string {
	list := r.Results()
	return zzgov.ConcatS(len(list), func(i int) string { return results.ZZText(list[i]) })
}

// The functions.

//gov:contract Token.IsValid
//gov:use
func zzTokenIsValid(obj Token) func(ok bool) {
	zzgov.Requires(zzTokenOk(obj))
	zzgov.NoPanic()
	return func(ok bool) { zzgov.Ensures("valid", ok == zzTokenValid(obj)) }
}

//gov:contract Token.Discoveries
//gov:use
func zzTokenDiscoveries(obj Token) func(text string) {
	zzgov.Requires(zzTokenOk(obj))
	zzgov.NoPanic()
	return func(text string) { zzgov.Ensures("text", text == zzTokenText(obj)) }
}

//gov:contract TokenContent.IsValid
//gov:use
func zzContentIsValid(obj TokenContent) func(ok bool) {
	zzgov.Requires(zzContentOk(obj))
	zzgov.NoPanic()
	return func(ok bool) { zzgov.Ensures("valid", ok == zzContentValid(obj)) }
}

//gov:contract TokenContent.Discoveries
//gov:use
func zzContentDiscoveries(obj TokenContent) func(text string) {
	zzgov.Requires(zzContentOk(obj))
	zzgov.NoPanic()
	return func(text string) { zzgov.Ensures("text", text == zzContentText(obj)) }
}

func zzInvLineValid(iter zzgov.Iter, obj Matches) bool {
	list := obj.BlockMatches()
	return zzgov.ForAll(0, int(iter), func(i int) bool { return zzBlockValid(list[i]) })
}

//gov:contract Matches.IsValid
//gov:use
//gov:inv zzInvLineValid
func zzLineIsValid(obj Matches) func(ok bool) {
	zzgov.Requires(zzLineOk(obj))
	zzgov.NoPanic()
	return func(ok bool) { zzgov.Ensures("valid", ok == zzLineValid(obj)) }
}

func zzInvLineText(iter zzgov.Iter, obj Matches, cell_list []string) bool {
	list := obj.BlockMatches()
	return len(cell_list) == int(iter) && zzgov.ForAll(0, int(iter), func(i int) bool { return cell_list[i] == zzBlockText(list[i]) })
}

//gov:contract Matches.Discoveries
//gov:use
//gov:inv zzInvLineText
func zzLineDiscoveries(obj Matches) func(text string) {
	zzgov.Requires(zzLineOk(obj))
	zzgov.NoPanic()
	return func(text string) { zzgov.Ensures("text", text == zzLineText(obj)) }
}

//gov:contract BlockMatch.IsValid
//gov:use
func zzBlockIsValid(obj BlockMatch) func(ok bool) {
	zzgov.Requires(zzBlockOk(obj))
	zzgov.NoPanic()
	return func(ok bool) { zzgov.Ensures("valid", ok == zzBlockValid(obj)) }
}

//gov:contract BlockMatch.Discoveries
//gov:use
func zzBlockDiscoveries(obj BlockMatch) func(text string) {
	zzgov.Requires(zzBlockOk(obj))
	zzgov.NoPanic()
	return func(text string) { zzgov.Ensures("text", text == zzBlockText(obj)) }
}

//gov:contract Match.IsValid
//gov:use
func zzElementIsValid(obj Match) func(ok bool) {
	zzgov.Requires(zzElementOk(obj))
	zzgov.NoPanic()
	return func(ok bool) { zzgov.Ensures("valid", ok == zzElementValid(obj)) }
}

//gov:contract Match.Discoveries
//gov:use
func zzElementDiscoveries(obj Match) func(text string) {
	zzgov.Requires(zzElementOk(obj))
	zzgov.NoPanic()
	return func(text string) { zzgov.Ensures("text", text == zzElementText(obj)) }
}

func zzInvSpecifiers(iter zzgov.Iter, obj TokenMatch) bool {
	list := obj.Specifiers()
	return zzgov.ForAll(0, int(iter), func(i int) bool { return zzSpecifierValid(list[i]) })
}

//gov:contract TokenMatch.IsValid
//gov:use
//gov:inv zzInvSpecifiers
func zzTokenMatchIsValid(obj TokenMatch) func(ok bool) {
	zzgov.Requires(zzTokenMatchOk(obj))
	zzgov.NoPanic()
	return func(ok bool) { zzgov.Ensures("valid", ok == zzTokenMatchValid(obj)) }
}

//gov:contract TokenResult.IsValid
//gov:use
func zzRepeatedIsValid(obj TokenResult) func(ok bool) {
	zzgov.Requires(zzRepeatedOk(obj))
	zzgov.NoPanic()
	return func(ok bool) { zzgov.Ensures("valid", ok == zzRepeatedValid(obj)) }
}

//gov:contract TokenResult.Discoveries
//gov:use
func zzRepeatedDiscoveries(obj TokenResult) func(text string) {
	zzgov.Requires(zzRepeatedOk(obj))
	zzgov.NoPanic()
	return func(text string) { zzgov.Ensures("text", text == zzRepeatedText(obj)) }
}

func zzInvAllValid(iter zzgov.Iter, obj TokenResultMatches) bool {
	list := obj.All()
	return zzgov.ForAll(0, int(iter), func(i int) bool { return zzTokenValid(list[i]) })
}

//gov:contract TokenResultMatches.IsValid
//gov:use
//gov:inv zzInvAllValid
func zzAllIsValid(obj TokenResultMatches) func(ok bool) {
	zzgov.Requires(zzAllOk(obj))
	zzgov.NoPanic()
	return func(ok bool) { zzgov.Ensures("valid", ok == zzAllValid(obj)) }
}

func zzInvAllText(iter zzgov.Iter, obj TokenResultMatches, cell_list []string) bool {
	list := obj.All()
	return len(cell_list) == int(iter) && zzgov.ForAll(0, int(iter), func(i int) bool { return cell_list[i] == zzTokenText(list[i]) })
}

//gov:contract TokenResultMatches.Discoveries
//gov:use
//gov:inv zzInvAllText
func zzAllDiscoveries(obj TokenResultMatches) func(text string) {
	zzgov.Requires(zzAllOk(obj))
	zzgov.NoPanic()
	return func(text string) { zzgov.Ensures("text", text == zzAllText(obj)) }
}

//gov:contract RuleMatch.IsValid
//gov:use
func zzRuleIsValid(obj RuleMatch) func(ok bool) {
	zzgov.Requires(zzRuleOk(obj))
	zzgov.NoPanic()
	return func(ok bool) { zzgov.Ensures("valid", ok == zzRuleValid(obj)) }
}

func zzInvResultsText(iter zzgov.Iter, obj Result, cell_discoveries []string) bool {
	list := obj.Results()
	return len(cell_discoveries) == int(iter) && zzgov.ForAll(0, int(iter), func(i int) bool { return cell_discoveries[i] == results.ZZText(list[i]) })
}

//gov:contract Result.Discoveries
//gov:use
//gov:inv zzInvResultsText
func zzResultsDiscoveries(obj Result) func(text string) {
	zzgov.Requires(zzResultsOk(obj))
	zzgov.NoPanic()
	return func(text string) { zzgov.Ensures("text", text == zzResultsText(obj)) }
}

// What a specifier counts.

//gov:ghost
func zzSpecifierValid(s Specifier) bool {
	n := zzCounted(s.ContainerName(), s.Result())
	c := s.Cardinality()
	if c.IsAmount() {
		return n == *c.Amount()
	}
	return n >= c.Range().Min() && (c.Range().Max() == nil || n <= *c.Range().Max())
}

// zzCounted is how many times elements of a name occur in the valid repetitions of a token.
//
//gov:ghost
func zzCounted(name string, r TokenResult) uint {
	if !r.HasMatches() {
		return 0
	}
	return zzCountTokens(name, r.Matches().All(), 0)
}

//gov:ghost
func zzCountTokens(name string, list []Token, k int) uint {
	if k >= len(list) {
		return 0
	}
	if !zzTokenValid(list[k]) {
		return zzCountTokens(name, list, k+1)
	}
	return zzCountBlocks(name, list[k].Content().Must().Matches().BlockMatches(), 0) + zzCountTokens(name, list, k+1)
}

//gov:ghost
func zzCountBlocks(name string, list []BlockMatch, k int) uint {
	if k >= len(list) {
		return 0
	}
	if !zzBlockValid(list[k]) {
		return zzCountBlocks(name, list, k+1)
	}
	return zzCountBlock(name, list[k]) + zzCountBlocks(name, list, k+1)
}

//gov:ghost
func zzCountBlock(name string, b BlockMatch) uint {
	if b.Content().IsContainer() {
		return zzCountElement(name, b.Content().Container())
	}
	if b.Content().IsBlock() {
		return zzCountBlock(name, b.Content().Block())
	}
	return 0
}

//gov:ghost
func zzCountElement(name string, m Match) uint {
	if m.Content().IsToken() {
		t := m.Content().Token()
		if t.Path().Element().Name() != name || !t.Result().HasMatches() {
			return 0
		}
		return uint(len(t.Result().Matches().All()))
	}
	if m.Content().IsRule() && m.Content().Rule().Rule().Base().Name() == name {
		return uint(len(m.Content().Rule().Result().Result().Results()))
	}
	return 0
}

//gov:contract Specifier.IsValid
//gov:use
func zzSpecifierIsValid(obj Specifier) func(ok bool) {
	zzgov.Requires(zzSpecifierOk(obj))
	zzgov.NoPanic()
	return func(ok bool) { zzgov.Ensures("valid", ok == zzSpecifierValid(obj)) }
}

func zzInvCounted(iter zzgov.Iter, containerName string, result TokenResult, total uint) bool {
	return zzCounted(containerName, result) == total+zzCountTokens(containerName, result.Matches().All(), int(iter))
}

func zzInvBlocks(iter zzgov.Iter, containerName string, fix_blockMatches []BlockMatch, total uint, fix_total uint) bool {
	return zzCountBlocks(containerName, fix_blockMatches, 0)+fix_total == total+zzCountBlocks(containerName, fix_blockMatches, int(iter))
}

//gov:contract specifier.fetchAmountResultsFromContainerName
//gov:use
//gov:inv zzInvCounted zzInvBlocks
func zzFetchAmount(obj *specifier, containerName string, result TokenResult) func(amount uint) {
	zzgov.Requires(obj != nil && zzRepeatedOk(result))
	zzgov.NoPanic()
	return func(amount uint) { zzgov.Ensures("counted", amount == zzCounted(containerName, result)) }
}

//gov:contract specifier.fetchAmountResultsFromContainerNameAndBlockMatch
//gov:use
func zzFetchBlock(obj *specifier, containerName string, blockMatch BlockMatch) func(amount uint) {
	zzgov.Requires(obj != nil && zzBlockOk(blockMatch))
	zzgov.NoPanic()
	return func(amount uint) { zzgov.Ensures("counted", amount == zzCountBlock(containerName, blockMatch)) }
}

//gov:contract specifier.fetchAmountResultsFromContainerNameAndMatch
//gov:use
func zzFetchElement(obj *specifier, containerName string, match Match) func(amount uint) {
	zzgov.Requires(obj != nil && zzElementOk(match))
	zzgov.NoPanic()
	return func(amount uint) { zzgov.Ensures("counted", amount == zzCountElement(containerName, match)) }
}
