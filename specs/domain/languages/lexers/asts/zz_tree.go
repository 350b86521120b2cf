//go:build go1.21

package asts

import (
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/mistakes"
	ast_tokens "github.com/steve-care-software/steve/domain/languages/lexers/asts/tokens"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops L10

// The text of a tree: that of its matches, in order.

//gov:ghost
func zzTreeText(t Token) string { return zzLineText(t.Match()) }

//gov:ghost
func zzLineText(line LineMatch) string { return zzMatchesText(line.Matches()) }

func zzMatchesText(list []Match) string {
	return zzgov.ConcatS(len(list), func(i int) string { return zzMatchText(list[i]) })
}

//gov:ghost
func zzMatchText(m Match) string {
	if m.IsRule() {
		return zzResultText(m.Rule().Result())
	}
	return zzRepeatedText(m.Token())
}

//gov:ghost
func zzRepeatedText(t TokenMatch) string { return zzTreesText(t.Matches()) }

//gov:ghost
func zzResultText(r Result) string { return zzFoundText(r.Discoveries().All()) }

func zzTreesText(list []Token) string {
	return zzgov.ConcatS(len(list), func(i int) string { return zzTreeText(list[i]) })
}

func zzFoundText(list []patterns.Discovery) string {
	return zzgov.ConcatS(len(list), func(i int) string { return list[i].Content() })
}

// A tree with nothing missing in it.

//gov:ghost
func zzTreeOk(t Token) bool { return t != nil && t.Match() != nil && zzMatchesOk(t.Match()) }

//gov:ghost
func zzMatchesOk(line LineMatch) bool {
	list := line.Matches()
	return line.HasMatches() == (len(list) > 0) && zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil && zzMatchOk(list[i]) })
}

//gov:ghost
func zzMatchOk(m Match) bool {
	if m == nil || m.IsRule() == m.IsToken() {
		return false
	}
	if m.IsRule() {
		return m.Rule().Result() != nil && zzResultOk(m.Rule().Result())
	}
	return zzRepeatedOk(m.Token())
}

//gov:ghost
func zzRepeatedOk(t TokenMatch) bool { return zzTreesOk(t.Matches()) }

func zzTreesOk(list []Token) bool {
	return zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil && list[i].Match() != nil && zzTreeOk(list[i]) })
}

//gov:ghost
func zzResultOk(r Result) bool {
	return r.Discoveries() != nil && zzgov.ForAll(0, len(r.Discoveries().All()), func(i int) bool { return r.Discoveries().All()[i] != nil })
}

// The text of a token is that of its matches.

func zzInvTexts(iter zzgov.Iter, obj TokenMatch, cell_out []string) bool {
	list := obj.Matches()
	return len(cell_out) == int(iter) && zzgov.ForAll(0, int(iter), func(i int) bool { return cell_out[i] == zzTreeText(list[i]) })
}

//gov:contract TokenMatch.Discoveries
//gov:use
//gov:inv zzInvTexts
func zzTokenMatchTexts(obj TokenMatch) func(texts []string) {
	zzgov.Requires(obj != nil && zzRepeatedOk(obj))
	zzgov.NoPanic()
	return func(texts []string) {
		list := obj.Matches()
		zzgov.Ensures("one for each", len(texts) == len(list))
		zzgov.Ensures("all of it", zzgov.ConcatS(len(texts), func(i int) string { return texts[i] }) == zzRepeatedText(obj))
	}
}

//gov:contract Token.Discovery
//gov:fuel 3
func zzTokenTextSafe(obj Token) func(text string) {
	zzgov.Requires(zzTreeOk(obj))
	zzgov.NoPanic()
	return func(text string) {
		zzgov.Ensures("nothing without matches", obj.Match().HasMatches() || text == "")
	}
}

//gov:contract Token.Discovery
//gov:use
//gov:bounded up to 400000 parts of texts read with 4 small languages, chosen by the seed
func zzTokenText(obj Token) func(text string) {
	zzgov.Requires(zzTreeOk(obj))
	zzgov.NoPanic()
	return func(text string) { zzgov.Ensures("that of its matches, in order", text == zzTreeText(obj)) }
}

// Turning what was read into a tree.

func zzReady(app *adapter) bool {
	return app != nil && app.builder != nil && app.tokenBuilder != nil && app.lineMatchBuilder != nil && app.matchBuilder != nil && app.tokenMatchBuilder != nil && app.ruleMatchBuilder != nil && app.resultBuilder != nil && app.discoveriesBuilder != nil
}

//gov:contract adapter.toToken
//gov:use
func zzToToken(app *adapter, token ast_tokens.Token) func(tree Token, err error) {
	zzgov.Requires(zzReady(app) && ast_tokens.ZZWhole(token))
	zzgov.NoPanic()
	return func(tree Token, err error) {
		zzgov.Ensures("obtained when everything is named", !ast_tokens.ZZClean(token) || err == nil)
		if err != nil {
			zzgov.Ensures("nothing otherwise", tree == nil)
			return
		}
		zzgov.Ensures("a tree", tree != nil && tree.Match() != nil && zzTreeOk(tree))
		zzgov.Ensures("its name", tree.Name() == token.Name())
		zzgov.Ensures("its line", tree.Match().Index() == token.Content().Must().Index())
		zzgov.Ensures("its text", zzTreeText(tree) == ast_tokens.ZZRead(token))
	}
}

//gov:contract adapter.lineMatch
//gov:use
//gov:helper
func zzToLine(app *adapter, name string, line ast_tokens.LineMatch) func(out LineMatch, err error) {
	zzgov.Requires(zzReady(app) && line != nil && line.Matches() != nil && ast_tokens.ZZLineWhole(line.Matches()))
	zzgov.NoPanic()
	return func(out LineMatch, err error) {
		zzgov.Ensures("obtained when everything is named", !(int(line.Index()) >= 0 && ast_tokens.ZZLineClean(line.Matches())) || err == nil)
		if err != nil {
			zzgov.Ensures("nothing otherwise", out == nil)
			return
		}
		zzgov.Ensures("a line", out != nil && zzMatchesOk(out))
		zzgov.Ensures("its position", out.Index() == line.Index())
		zzgov.Ensures("its text", zzLineText(out) == ast_tokens.ZZLineRead(line.Matches()))
	}
}

func zzListOk(list []Match) bool {
	return zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil && zzMatchOk(list[i]) })
}

//gov:contract adapter.matches
//gov:use
//gov:helper
func zzToMatches(app *adapter, name string, matches ast_tokens.Matches) func(out []Match, err error) {
	zzgov.Requires(zzReady(app) && matches != nil && ast_tokens.ZZLineWhole(matches))
	zzgov.NoPanic()
	return func(out []Match, err error) {
		zzgov.Ensures("obtained when everything is named", !ast_tokens.ZZLineClean(matches) || err == nil)
		if err != nil {
			return
		}
		zzgov.Ensures("matches", zzListOk(out))
		zzgov.Ensures("their text", zzMatchesText(out) == ast_tokens.ZZLineRead(matches))
	}
}

func zzInvBlocks(iter zzgov.Iter, blockMatches []ast_tokens.BlockMatch, out []Match) bool {
	return zzMatchesText(out) == zzgov.ConcatS(int(iter), func(i int) string { return ast_tokens.ZZBlockRead(blockMatches[i]) })
}

func zzInvListOk(out []Match) bool { return zzListOk(out) }

//gov:contract adapter.blockMatches
//gov:use
//gov:helper
//gov:inv zzInvBlocks zzInvListOk
//gov:folded ZZBlockRead ZZBlockClean ZZBlockWhole zzMatchOk zzMatchText
func zzToBlocks(app *adapter, name string, blockMatches []ast_tokens.BlockMatch) func(out []Match, err error) {
	zzgov.Requires(zzReady(app) && ast_tokens.ZZBlocksWhole(blockMatches))
	zzgov.NoPanic()
	return func(out []Match, err error) {
		zzgov.Ensures("obtained when everything is named", !ast_tokens.ZZBlocksClean(blockMatches) || err == nil)
		if err != nil {
			return
		}
		zzgov.Ensures("matches", zzListOk(out))
		zzgov.Ensures("their text", zzMatchesText(out) == ast_tokens.ZZBlocksRead(blockMatches))
	}
}

// zzLook mentions what is known of a line, so that it is at hand.
func zzLook(m ast_tokens.Matches) {
	_, _, _ = ast_tokens.ZZLineWhole(m), ast_tokens.ZZLineClean(m), ast_tokens.ZZLineRead(m)
}

//gov:contract adapter.blockMatch
//gov:use
//gov:helper
//gov:folded ZZElementRead ZZElementClean ZZElementWhole zzMatchOk zzMatchText
func zzToBlock(app *adapter, name string, block ast_tokens.BlockMatch) func(out []Match, err error) {
	zzgov.Requires(zzReady(app) && ast_tokens.ZZBlockWhole(block))
	if block.HasChannelPrefix() {
		zzLook(block.ChannelPrefix().Matches())
	}
	zzgov.NoPanic()
	return func(out []Match, err error) {
		prefix := ""
		if block.HasChannelPrefix() {
			prefix = ast_tokens.ZZLineRead(block.ChannelPrefix().Matches())
		}
		zzgov.Ensures("obtained when everything is named", !ast_tokens.ZZBlockClean(block) || err == nil)
		zzgov.Ensures("refused when another was expected", !block.Content().IsNextElement() || err != nil)
		if err != nil {
			return
		}
		zzgov.Ensures("matches", zzListOk(out))
		rest := ""
		if block.Content().IsContainer() {
			rest = ast_tokens.ZZElementRead(block.Content().Container())
		} else if block.Content().IsBlock() {
			rest = ast_tokens.ZZBlockRead(block.Content().Block())
		}
		zzgov.Ensures("the text of the channels, then that of the element", zzMatchesText(out) == prefix+rest)
		zzgov.Ensures("their text", zzMatchesText(out) == ast_tokens.ZZBlockRead(block))
	}
}

//gov:contract adapter.match
//gov:use
//gov:helper
func zzToMatch(app *adapter, match ast_tokens.Match) func(out Match, err error) {
	zzgov.Requires(zzReady(app) && ast_tokens.ZZElementWhole(match))
	zzgov.NoPanic()
	return func(out Match, err error) {
		zzgov.Ensures("obtained when everything is named", !ast_tokens.ZZElementClean(match) || err == nil)
		if err != nil {
			zzgov.Ensures("nothing otherwise", out == nil)
			return
		}
		c := match.Content()
		some := c.IsToken() && c.Token().Result().HasMatches() || c.IsRule() && len(c.Rule().Result().Result().Results()) > 0
		zzgov.Ensures("unless there is none", (out != nil) == some)
		if !some {
			zzgov.Ensures("none has no text", ast_tokens.ZZElementRead(match) == "")
			return
		}
		zzgov.Ensures("a match", zzMatchOk(out) && out.IsToken() == c.IsToken())
		zzgov.Ensures("a token's name", !c.IsToken() || out.Token().Token() == c.Token().Path().Element().Name())
		zzgov.Ensures("a rule's name", !c.IsRule() || out.Rule().Rule() == c.Rule().Rule().Base().Name())
		zzgov.Ensures("its text", zzMatchText(out) == ast_tokens.ZZElementRead(match))
	}
}

func zzInvTokens(iter zzgov.Iter, tokenMatch ast_tokens.TokenMatch, out []Token) bool {
	list := tokenMatch.Result().Matches().All()
	return len(out) == int(iter) && zzgov.ForAll(0, int(iter), func(i int) bool { return out[i].Name() == list[i].Name() })
}

func zzInvTokensText(iter zzgov.Iter, tokenMatch ast_tokens.TokenMatch, out []Token) bool {
	list := tokenMatch.Result().Matches().All()
	return len(out) == int(iter) && zzgov.ForAll(0, int(iter), func(i int) bool { return zzTreeText(out[i]) == ast_tokens.ZZRead(list[i]) })
}

func zzInvTokensOk(out []Token) bool { return zzTreesOk(out) }

//gov:contract adapter.tokenMatch
//gov:use
//gov:helper
//gov:inv zzInvTokensOk zzInvTokens zzInvTokensText
func zzToTokenMatch(app *adapter, tokenMatch ast_tokens.TokenMatch) func(out TokenMatch, err error) {
	zzgov.Requires(zzReady(app) && ast_tokens.ZZTokenMatchWhole(tokenMatch))
	zzgov.NoPanic()
	return func(out TokenMatch, err error) {
		zzgov.Ensures("obtained when everything is named", !ast_tokens.ZZTokenMatchClean(tokenMatch) || err == nil)
		if err != nil {
			zzgov.Ensures("nothing otherwise", out == nil)
			return
		}
		zzgov.Ensures("unless there is none", (out != nil) == tokenMatch.Result().HasMatches())
		if out == nil {
			return
		}
		list, all := tokenMatch.Result().Matches().All(), out.Matches()
		zzgov.Ensures("its name", out.Token() == tokenMatch.Path().Element().Name())
		zzgov.Ensures("each repetition", len(all) == len(list) && zzRepeatedOk(out))
		zzgov.Ensures("their names", zzgov.ForAll(0, len(all), func(i int) bool { return all[i].Name() == list[i].Name() }))
		zzgov.Ensures("the text of each", zzgov.ForAll(0, len(all), func(i int) bool { return zzTreeText(all[i]) == ast_tokens.ZZRead(list[i]) }))
		zzgov.Ensures("their text", zzRepeatedText(out) == ast_tokens.ZZTokenMatchRead(tokenMatch))
	}
}

//gov:contract adapter.ruleMatch
//gov:use
//gov:helper
func zzToRuleMatch(app *adapter, ruleMatch ast_tokens.RuleMatch) func(out RuleMatch, err error) {
	zzgov.Requires(zzReady(app) && ast_tokens.ZZRuleWhole(ruleMatch))
	zzgov.NoPanic()
	return func(out RuleMatch, err error) {
		found := ruleMatch.Result().Result()
		zzgov.Ensures("obtained when everything is named", !ast_tokens.ZZRuleClean(ruleMatch) || err == nil)
		if err != nil {
			zzgov.Ensures("nothing otherwise", out == nil)
			return
		}
		zzgov.Ensures("unless there is none", (out != nil) == (len(found.Results()) > 0))
		if out == nil {
			return
		}
		zzgov.Ensures("its name", out.Rule() == ruleMatch.Rule().Base().Name())
		zzgov.Ensures("a result", out.Result() != nil && zzResultOk(out.Result()))
		zzgov.Ensures("its text", zzResultText(out.Result()) == ast_tokens.ZZResultText(found))
		input, at, n := ruleMatch.Result().Input(), ast_tokens.ZZFound(found), len(ast_tokens.ZZResultText(found))
		zzgov.Ensures("what it was read from", out.Result().Input() == input)
		zzgov.Ensures("what comes before it", out.Result().Prefix() == input[:at])
		zzgov.Ensures("what comes after it", out.Result().Suffix() == input[at+n:])
	}
}

//gov:contract adapter.ruleResult
//gov:use
//gov:helper
//gov:bounded up to 400000 parts of texts read with 4 small languages, chosen by the seed
func zzToResult(app *adapter, rule string, ruleResult ast_tokens.Result, input string) func(out Result, err error) {
	zzgov.Requires(zzReady(app) && ast_tokens.ZZResultWhole(ruleResult, input))
	zzgov.NoPanic()
	return func(out Result, err error) {
		some := len(ruleResult.Results()) > 0
		zzgov.Ensures("obtained unless read from nothing", (err == nil) == (!some || input != ""))
		zzgov.Ensures("unless there is none", (out != nil) == (some && err == nil))
		if out == nil {
			return
		}
		at, n := ast_tokens.ZZFound(ruleResult), len(ast_tokens.ZZResultText(ruleResult))
		zzgov.Ensures("a result", zzResultOk(out))
		zzgov.Ensures("its text", zzResultText(out) == ast_tokens.ZZResultText(ruleResult))
		zzgov.Ensures("what it was read from", out.Input() == input)
		zzgov.Ensures("what comes before it", out.Prefix() == input[:at] && out.HasPrefix() == (at > 0))
		zzgov.Ensures("what comes after it", out.Suffix() == input[at+n:] && out.HasSuffix() == (at+n < len(input)))
	}
}

// Reading a script.

//gov:contract Adapter.ToAST
//gov:use
func zzToAST(obj Adapter, script string) func(ast AST, err error) {
	app := obj.(*adapter)
	zzgov.Requires(obj != nil && zzReady(app) && app.astTokenAdapter != nil && app.mistakeAdapter != nil)
	zzgov.NoPanic()
	return func(ast AST, err error) {
		grammar := ast_tokens.ZZGrammarOf(app.astTokenAdapter)
		verdict := mistakes.ZZVerdict(grammar, script, app.canContainPrefix)
		reads := ast_tokens.ZZReads(grammar, script)
		zzgov.Ensures("refused when it cannot be read or judged", reads && verdict != 2 || err != nil)
		zzgov.Ensures("obtained when it has a mistake, or none and everything is named", !reads || verdict != 1 && (verdict != 0 || !ast_tokens.ZZSpotless(grammar, script)) || err == nil)
		zzgov.Ensures("nothing otherwise", (ast != nil) == (err == nil))
		if err != nil {
			return
		}
		zzgov.Ensures("a success exactly when there is no mistake", ast.IsSuccess() == (verdict == 0) && ast.IsMistake() == (verdict == 1))
		zzgov.Ensures("with its tree", verdict != 0 || ast.Success() != nil && ast.Success().Match() != nil && zzTreeOk(ast.Success()))
		zzgov.Ensures("or its mistake", verdict != 1 || ast.Mistake() != nil)
	}
}

// ZZReady says a builder of readers has all it builds with.
//
//gov:helper
func ZZReady(builder AdapterBuilder) bool {
	app, ok := builder.(*adapterBuilder)
	return ok && app != nil && app.builder != nil && app.tokenBuilder != nil && app.lineMatchBuilder != nil && app.matchBuilder != nil && app.tokenMatchBuilder != nil && app.ruleMatchBuilder != nil && app.resultBuilder != nil && app.discoveriesBuilder != nil && app.astTokensAdapterBuilder != nil && app.mistakeAdapter != nil
}

// ZZTreeText is the text of a tree.
func ZZTreeText(t Token) string { return zzTreeText(t) }

// ZZTreeOk says a tree has nothing missing in it.
func ZZTreeOk(t Token) bool { return zzTreeOk(t) }

// ZZMatchOk says so of a match.
func ZZMatchOk(m Match) bool { return zzMatchOk(m) }

// ZZResultText is the text a rule was found in.
func ZZResultText(r Result) string { return zzResultText(r) }

// ZZLineOk says so of a line.
func ZZLineOk(line LineMatch) bool { return zzMatchesOk(line) }

// ZZMatchWhole says so of a match, and of what is repeated or found in it.
func ZZMatchWhole(m Match) bool {
	if m == nil || !zzMatchOk(m) {
		return false
	}
	if m.IsRule() {
		return zzResultOk(m.Rule().Result())
	}
	return zzRepeatedOk(m.Token())
}
