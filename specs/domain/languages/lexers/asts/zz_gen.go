//go:build go1.21

package asts

import (
	ast_tokens "github.com/steve-care-software/steve/domain/languages/lexers/asts/tokens"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/zzgov"
)

// Small languages and texts written in them, for the search of failing inputs.

const zzPatterns = `
	whitespace: WHITESPACE;
	digits: DIGITS;
	letters: LETTERS;

	WHITESPACE: $WHITESPACE;
	DIGITS: $DIGITS;
	LETTERS: $LETTERS;

	$WHITESPACE: " ";
	$DIGITS: "0,1,2";
	$LETTERS: "a,b,c";
`

const zzRules = `
	SPACES: [whitespace]+;
	NUMBER: [digits]+;
	WORD: [letters]+;
	PAIR: [letters]{2};
	PLUS: "+";
	OPEN: "<";
	CLOSE: ">";
	COMMA: ",";
`

const zzChannels = `
	spaces
		: SPACES
		;
`

var zzLanguages = []string{`
	root
		: value PLUS value
		| value
		| OPEN value CLOSE
		;

	value
		: NUMBER
		| WORD
		;
`, `
	root
		: PLUS* value{2}
		| value COMMA*
		;

	value
		: # WORD NUMBER #
		| OPEN NUMBER CLOSE
		;
`, `
	root
		: pair PLUS{1}
		| pair
		;

	pair
		: PAIR COMMA PAIR
		;
`, `
	root
		: OPEN+ NUMBER CLOSE+
		| OPEN WORD CLOSE
		;
`}

type zzSample struct {
	adapter *adapter
	script  string
	token   ast_tokens.Token
	tree    Token
}

var zzReaders = map[int]*adapter{}

func zzReaderOf(number int) *adapter {
	if app, ok := zzReaders[number]; ok {
		return app
	}
	zzReaders[number] = nil
	ptrns, err := patterns.NewAdapter().ToPatterns(zzPatterns)
	if err != nil {
		return nil
	}
	rls, err := rules.NewAdapter().Rules(zzRules, ptrns)
	if err != nil {
		return nil
	}
	reader, err := tokens.NewAdapterBuilder().Create().WithRules(rls).Now()
	if err != nil {
		return nil
	}
	toks, err := reader.ToTokens(zzLanguages[number%len(zzLanguages)])
	if err != nil {
		return nil
	}
	root, err := toks.Find("root")
	if err != nil {
		return nil
	}
	builder := NewAdapterBuilder().Create().WithTokens(toks).WithRoot(root)
	number = number / len(zzLanguages)
	if number%2 == 1 {
		channels, err := reader.ToTokens(zzChannels)
		if err != nil {
			return nil
		}
		builder.WithChannels(channels)
	}
	if number/2%2 == 1 {
		builder.CanContainPrefix()
	}
	if number/4%2 == 1 {
		builder.CanContainSuffix()
	}
	out, err := builder.Now()
	if err != nil {
		return nil
	}
	app := out.(*adapter)
	zzReaders[number] = app
	return app
}

func zzSampleOf(g *zzgov.Gen) (out *zzSample) {
	defer func() {
		if recover() != nil {
			out = &zzSample{}
		}
	}()
	out = &zzSample{}
	number := g.R.Intn(len(zzLanguages) * 8)
	out.adapter = zzReaderOf(number)
	if out.adapter == nil {
		return out
	}
	pieces := []string{"+", "<", ">", ",", "0", "12", "a", "bc", "ab", "1", "2", "cab"}
	shapes := [][]int{{4, 0, 4}, {6}, {1, 4, 2}, {0, 0, 6, 4, 8, 5}, {8, 4, 3, 3}, {1, 5, 2, 3}, {8, 3, 7}, {8, 3, 8, 0}, {1, 1, 5, 2}, {1, 6, 2}, {1, 5, 2, 1, 4, 2}}
	shape := shapes[g.R.Intn(len(shapes))]
	for i := 0; i < len(shape); i++ {
		if g.R.Intn(4) == 0 {
			out.script += " "
		}
		k := shape[i]
		if g.R.Intn(12) == 0 {
			k = g.R.Intn(len(pieces))
		}
		out.script += pieces[k]
	}
	if g.R.Intn(8) == 0 {
		out.script += pieces[g.R.Intn(len(pieces))]
	}
	out.token, _ = out.adapter.astTokenAdapter.ToToken(out.script)
	if out.token != nil {
		out.tree, _ = out.adapter.toToken(out.token)
	}
	return out
}

func zzBlocksOf(token ast_tokens.Token) []ast_tokens.BlockMatch {
	if token == nil || !token.HasContent() || token.Content().Must() == nil {
		return nil
	}
	return token.Content().Must().Matches().BlockMatches()
}

func zzMatchOfBlock(block ast_tokens.BlockMatch) ast_tokens.Match {
	for block != nil && block.Content().IsBlock() {
		block = block.Content().Block()
	}
	if block == nil || !block.Content().IsContainer() {
		return nil
	}
	return block.Content().Container()
}

// a token read from a text, or one of those in it
func zzSomeToken(g *zzgov.Gen, token ast_tokens.Token) ast_tokens.Token {
	for token != nil && g.R.Intn(2) == 0 {
		below := []ast_tokens.Token{}
		for _, one := range zzBlocksOf(token) {
			match := zzMatchOfBlock(one)
			if match != nil && match.Content().IsToken() && match.Content().Token().Result().HasMatches() {
				below = append(below, match.Content().Token().Result().Matches().All()...)
			}
		}
		if len(below) == 0 {
			break
		}
		token = below[g.R.Intn(len(below))]
	}
	return token
}

func zzSomeBlock(g *zzgov.Gen) ast_tokens.BlockMatch {
	list := zzBlocksOf(zzSomeToken(g, zzSampleOf(g).token))
	if len(list) == 0 {
		return nil
	}
	return list[g.R.Intn(len(list))]
}

func init() {
	zzgov.GenFor(func(g *zzgov.Gen) *adapter {
		for i := 0; i < 9; i++ {
			if app := zzReaderOf(g.R.Intn(len(zzLanguages) * 8)); app != nil {
				return app
			}
		}
		return nil
	})
	zzgov.GenFor(func(g *zzgov.Gen) Adapter {
		if app := zzReaderOf(g.R.Intn(len(zzLanguages) * 8)); app != nil {
			return app
		}
		return nil
	})
	zzgov.GenFor(func(g *zzgov.Gen) ast_tokens.Token { return zzSomeToken(g, zzSampleOf(g).token) })
	zzgov.GenFor(func(g *zzgov.Gen) ast_tokens.BlockMatch { return zzSomeBlock(g) })
	zzgov.GenFor(func(g *zzgov.Gen) []ast_tokens.BlockMatch { return zzBlocksOf(zzSomeToken(g, zzSampleOf(g).token)) })
	zzgov.GenFor(func(g *zzgov.Gen) ast_tokens.Match { return zzMatchOfBlock(zzSomeBlock(g)) })
	zzgov.GenFor(func(g *zzgov.Gen) ast_tokens.TokenMatch {
		if match := zzMatchOfBlock(zzSomeBlock(g)); match != nil && match.Content().IsToken() {
			return match.Content().Token()
		}
		return nil
	})
	zzgov.GenFor(func(g *zzgov.Gen) ast_tokens.RuleMatch {
		if match := zzMatchOfBlock(zzSomeBlock(g)); match != nil && match.Content().IsRule() {
			return match.Content().Rule()
		}
		return nil
	})
	zzgov.GenFor(func(g *zzgov.Gen) ast_tokens.Result {
		for i := 0; i < 20; i++ {
			if match := zzMatchOfBlock(zzSomeBlock(g)); match != nil && match.Content().IsRule() {
				g.Strs = append(g.Strs[:0:0], match.Content().Rule().Result().Input(), match.Content().Rule().Result().Input()+"a")
				return match.Content().Rule().Result().Result()
			}
		}
		return nil
	})
	zzgov.GenFor(func(g *zzgov.Gen) Token {
		tree := zzSampleOf(g).tree
		for tree != nil && g.R.Intn(2) == 0 {
			below := []Token{}
			for _, one := range tree.Match().Matches() {
				if one.IsToken() {
					below = append(below, one.Token().Matches()...)
				}
			}
			if len(below) == 0 {
				break
			}
			tree = below[g.R.Intn(len(below))]
		}
		return tree
	})
}
