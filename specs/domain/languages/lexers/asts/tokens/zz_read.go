//go:build go1.21

package tokens

import (
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/results"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/zzgov"
)

// What was read, ready to be turned into a tree: nothing in it is missing.

// ZZWhole says nothing is missing in a token.
//
//gov:ghost
func ZZWhole(t Token) bool {
	return t != nil && t.HasContent() && t.Content().Must() != nil && t.Content().Must().Matches() != nil && ZZLineWhole(t.Content().Must().Matches())
}

// ZZLineWhole says nothing is missing in a line.
//
//gov:ghost
func ZZLineWhole(m Matches) bool { return m != nil && ZZBlocksWhole(m.BlockMatches()) }

// ZZBlocksWhole says nothing is missing in the elements of a line.
//
//gov:helper
func ZZBlocksWhole(list []BlockMatch) bool {
	return zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil && ZZBlockWhole(list[i]) })
}

// ZZBlockWhole says nothing is missing in an element.
//
//gov:ghost
func ZZBlockWhole(b BlockMatch) bool {
	if b == nil || b.Content() == nil {
		return false
	}
	if b.HasChannelPrefix() && (b.ChannelPrefix().Matches() == nil || !ZZLineWhole(b.ChannelPrefix().Matches())) {
		return false
	}
	if b.Content().IsContainer() {
		return !b.Content().IsBlock() && ZZElementWhole(b.Content().Container())
	}
	return !b.Content().IsBlock() || ZZBlockWhole(b.Content().Block())
}

// ZZElementWhole says nothing is missing in a match.
//
//gov:ghost
func ZZElementWhole(m Match) bool {
	if m == nil || m.Content() == nil {
		return false
	}
	if m.Content().IsToken() {
		return !m.Content().IsRule() && !m.Content().IsSkip() && ZZTokenMatchWhole(m.Content().Token())
	}
	if m.Content().IsRule() {
		return !m.Content().IsSkip() && ZZRuleWhole(m.Content().Rule())
	}
	return true
}

// ZZTokenMatchWhole says nothing is missing in a repeated token.
//
//gov:ghost
func ZZTokenMatchWhole(t TokenMatch) bool {
	if t == nil || t.Path() == nil || t.Path().Element() == nil || t.Result() == nil {
		return false
	}
	if !t.Result().HasMatches() {
		return true
	}
	list := t.Result().Matches().All()
	return zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil && ZZWhole(list[i]) })
}

// ZZRuleWhole says nothing is missing in a matched rule.
//
//gov:helper
func ZZRuleWhole(r RuleMatch) bool {
	return r != nil && r.Rule() != nil && r.Rule().Base() != nil && r.Result() != nil && ZZResultWhole(r.Result().Result(), r.Result().Input())
}

// ZZResultWhole says nothing is missing in what a rule found in a text.
//
//gov:ghost
func ZZResultWhole(r Result, input string) bool {
	if r == nil || !zzResultsOk(r) {
		return false
	}
	list := r.Results()
	if len(list) == 0 {
		return true
	}
	return zzgov.ForAll(0, len(list), func(i int) bool {
		return list[i] != nil && list[i].HasMatches() && list[i].Matches() != nil && len(list[i].Matches().List()) > 0 && ZZFoundWhole(list[i])
	}) && zzFirstOk(list) && ZZFound(r)+len(zzResultsText(r)) <= len(input) && ZZFound(r) >= 0
}

// ZZFoundWhole says what was found can be read.
//
//gov:ghost
//gov:opaque
func ZZFoundWhole(r results.Result) bool {
	list := r.Matches().List()
	return len(list) > 0 && zzgov.ForAll(0, len(list), func(i int) bool {
		return list[i] != nil && list[i].Discoveries() != nil && len(list[i].Discoveries().All()) > 0 && list[i].Discoveries().All()[0] != nil && patterns.ZZFilled(list[i])
	})
}

// ZZFound is where the first repetition was found.
//
//gov:helper
func ZZFound(r Result) int { return int(r.Results()[0].Matches().List()[0].Discoveries().Index()) }

// ZZResultText is what all repetitions of a rule found.
//
//gov:helper
func ZZResultText(r Result) string { return zzResultsText(r) }

// Everything is named and no element expected another one after it.

// ZZClean says a token turns into a tree without failure.
//
//gov:ghost
func ZZClean(t Token) bool {
	return t.Name() != "" && int(t.Content().Must().Index()) >= 0 && ZZLineClean(t.Content().Must().Matches())
}

// ZZLineClean says the same of a line.
//
//gov:ghost
func ZZLineClean(m Matches) bool { return ZZBlocksClean(m.BlockMatches()) }

// ZZBlocksClean says the same of its elements.
//
//gov:helper
func ZZBlocksClean(list []BlockMatch) bool {
	return zzgov.ForAll(0, len(list), func(i int) bool { return ZZBlockClean(list[i]) })
}

// ZZBlockClean says the same of an element.
//
//gov:ghost
func ZZBlockClean(b BlockMatch) bool {
	if b.HasChannelPrefix() && !ZZLineClean(b.ChannelPrefix().Matches()) {
		return false
	}
	if b.Content().IsContainer() {
		return !b.Content().IsNextElement() && ZZElementClean(b.Content().Container())
	}
	return !b.Content().IsNextElement() && (!b.Content().IsBlock() || ZZBlockClean(b.Content().Block()))
}

// ZZElementClean says the same of a match.
//
//gov:ghost
func ZZElementClean(m Match) bool {
	if m.Content().IsToken() {
		return ZZTokenMatchClean(m.Content().Token())
	}
	if m.Content().IsRule() {
		return ZZRuleClean(m.Content().Rule())
	}
	return m.Content().IsSkip()
}

// ZZTokenMatchClean says the same of a repeated token.
//
//gov:ghost
func ZZTokenMatchClean(t TokenMatch) bool {
	if !t.Result().HasMatches() {
		return true
	}
	list := t.Result().Matches().All()
	return t.Path().Element().Name() != "" && len(list) > 0 && zzgov.ForAll(0, len(list), func(i int) bool { return ZZClean(list[i]) })
}

// ZZRuleClean says the same of a matched rule.
//
//gov:helper
func ZZRuleClean(r RuleMatch) bool {
	return r.Rule().Base().Name() != "" && (len(r.Result().Result().Results()) == 0 || r.Result().Input() != "")
}

// The text that was read.

// ZZRead is the text of a token.
//
//gov:ghost
func ZZRead(t Token) string { return ZZLineRead(t.Content().Must().Matches()) }

// ZZLineRead is the text of a line.
//
//gov:ghost
func ZZLineRead(m Matches) string { return ZZBlocksRead(m.BlockMatches()) }

// ZZBlocksRead is the text of its elements.
//
//gov:helper
func ZZBlocksRead(list []BlockMatch) string {
	return zzgov.ConcatS(len(list), func(i int) string { return ZZBlockRead(list[i]) })
}

// ZZBlockRead is the text of an element, after that of the channels before it.
//
//gov:ghost
func ZZBlockRead(b BlockMatch) string {
	prefix := ""
	if b.HasChannelPrefix() {
		prefix = ZZLineRead(b.ChannelPrefix().Matches())
	}
	if b.Content().IsContainer() {
		return prefix + ZZElementRead(b.Content().Container())
	}
	if b.Content().IsBlock() {
		return prefix + ZZBlockRead(b.Content().Block())
	}
	return prefix
}

// ZZElementRead is the text of a match: a skipped one has none.
//
//gov:ghost
func ZZElementRead(m Match) string {
	if m.Content().IsToken() {
		return ZZTokenMatchRead(m.Content().Token())
	}
	if m.Content().IsRule() {
		return zzResultsText(m.Content().Rule().Result().Result())
	}
	return ""
}

// ZZTokenMatchRead is the text of a repeated token.
//
//gov:ghost
func ZZTokenMatchRead(t TokenMatch) string {
	if !t.Result().HasMatches() {
		return ""
	}
	list := t.Result().Matches().All()
	return zzgov.ConcatS(len(list), func(i int) string { return ZZRead(list[i]) })
}

// Reading a script: the same grammar gives the same outcome for the same script.

type zzGrammar struct {
	root     tokens.Token
	tokens   tokens.Tokens
	channels tokens.Tokens
	notFound paths.FetchTokenNotFoundFn
	replace  paths.FetchElementReplacementFn
	prefix   bool
	suffix   bool
}

var zzGrammars []zzGrammar

// ZZGrammar numbers the grammars read with.
//
//gov:uninterpreted
func ZZGrammar(root tokens.Token, toks tokens.Tokens, channels tokens.Tokens, notFound paths.FetchTokenNotFoundFn, replace paths.FetchElementReplacementFn, prefix bool, suffix bool) int {
	zzGrammars = append(zzGrammars, zzGrammar{root, toks, channels, notFound, replace, prefix, suffix})
	return len(zzGrammars) - 1
}

func zzReader(grammar int) (Adapter, error) {
	g := zzGrammars[grammar]
	builder := NewAdapterBuilder().Create()
	if g.root != nil {
		builder.WithToken(g.root)
	}
	if g.tokens != nil {
		builder.WithTokens(g.tokens)
	}
	if g.channels != nil {
		builder.WithChannels(g.channels)
	}
	if g.notFound != nil {
		builder.WithTokenNotFoundFunc(g.notFound)
	}
	if g.replace != nil {
		builder.WithTokenReplacementFunc(g.replace)
	}
	if g.prefix {
		builder.CanContainPrefix()
	}
	if g.suffix {
		builder.CanContainSuffix()
	}
	return builder.Now()
}

// ZZResolves says the grammar's root and channels can be resolved.
//
//gov:uninterpreted
func ZZResolves(grammar int) bool {
	_, err := zzReader(grammar)
	return err == nil
}

// ZZReads says a script can be read with a grammar.
//
//gov:uninterpreted
func ZZReads(grammar int, script string) bool {
	adapter, err := zzReader(grammar)
	if err != nil {
		return false
	}
	_, err = adapter.ToToken(script)
	return err == nil
}

// ZZSpotless says what is read from a script turns into a tree without failure.
//
//gov:uninterpreted
func ZZSpotless(grammar int, script string) bool {
	adapter, err := zzReader(grammar)
	if err != nil {
		return false
	}
	token, err := adapter.ToToken(script)
	return err == nil && ZZWhole(token) && ZZClean(token)
}

// ZZToken reads a script.
//
//gov:helper
func ZZToken(grammar int, script string) Token {
	adapter, err := zzReader(grammar)
	if err != nil {
		return nil
	}
	token, _ := adapter.ToToken(script)
	return token
}

// ZZGrammarOf is the grammar an adapter reads with.
//
//gov:uninterpreted
func ZZGrammarOf(adapter Adapter) int { return -1 }

// ZZScriptOf and ZZReadWith tell where a token came from.
//
//gov:uninterpreted
func ZZScriptOf(token Token) string { return "" }

// ZZReadWith is the grammar a token was read with.
//
//gov:uninterpreted
func ZZReadWith(token Token) int { return -1 }

//gov:contract AdapterBuilder.Now
//gov:assumed resolving the same grammar again gives the same outcome
func zzReaderNow(obj AdapterBuilder) func(adapter Adapter, err error) {
	zzgov.Requires(obj != nil)
	return func(adapter Adapter, err error) {
		app := obj.(*adapterBuilder)
		grammar := ZZGrammar(app.rootToken, app.tokens, app.channels, app.tokenNotFoundFn, app.tokenReplacementFn, app.canContainPrefix, app.canContainSuffix)
		zzgov.Ensures("resolved", (err == nil) == (app.rootToken != nil && app.tokens != nil && ZZResolves(grammar)))
		zzgov.Ensures("told", (adapter != nil) == (err == nil))
		zzgov.Ensures("the grammar", err != nil || ZZGrammarOf(adapter) == grammar)
	}
}

//gov:contract Adapter.ToToken
//gov:assumed reading the same script again with the same grammar gives the same outcome, with nothing missing in it
func zzReadToken(obj Adapter, script string) func(token Token, err error) {
	zzgov.Requires(obj != nil)
	return func(token Token, err error) {
		grammar := ZZGrammarOf(obj)
		zzgov.Ensures("read", (err == nil) == ZZReads(grammar, script))
		zzgov.Ensures("told", (token != nil) == (err == nil))
		zzgov.Ensures("the grammar", err != nil || ZZReadWith(token) == grammar && ZZScriptOf(token) == script)
		zzgov.Ensures("whole", err != nil || ZZWhole(token) && ZZClean(token) == ZZSpotless(grammar, script))
	}
}
