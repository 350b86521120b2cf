//go:build go1.21

package suites

import (
	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/mistakes"
	ast_tokens "github.com/steve-care-software/steve/domain/languages/lexers/asts/tokens"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops L12

func zzReady(app *application) bool {
	return app != nil && app.builder != nil && app.lineBuilder != nil && app.astAdapterBuilder != nil && asts.ZZReady(app.astAdapterBuilder) && app.tokens != nil
}

// The grammar the lines of a token are read with: the token of that name is its root.

func zzGrammarOf(app *application, name string) int {
	root, _ := app.tokens.Find(name)
	return ast_tokens.ZZGrammar(root, app.tokens, app.channels, app.tokenNotFoundFn, app.tokenReplacementFn, false, false)
}

func zzDeclared(app *application, name string) bool {
	root, err := app.tokens.Find(name)
	return err == nil && root != nil
}

//gov:ghost
func zzPasses(app *application, name string, line string) bool {
	return mistakes.ZZVerdict(zzGrammarOf(app, name), line, false) == 0
}

//gov:ghost
func zzReadable(app *application, name string, line string) bool {
	grammar := zzGrammarOf(app, name)
	verdict := mistakes.ZZVerdict(grammar, line, false)
	return ast_tokens.ZZResolves(grammar) && ast_tokens.ZZReads(grammar, line) && (verdict == 1 || verdict == 0 && ast_tokens.ZZSpotless(grammar, line))
}

//gov:contract application.toLine
//gov:use
//gov:helper
func zzLineRun(app *application, rootToken string, index uint, testLine string, tokens tokens.Tokens, channels tokens.Tokens) func(out Line, err error) {
	zzgov.Requires(zzReady(app) && tokens == app.tokens && channels == app.channels && int(index) >= 0)
	zzgov.Requires(zzDeclared(app, rootToken))
	zzgov.NoPanic()
	return func(out Line, err error) {
		zzgov.Ensures("obtained when the line can be read", !zzReadable(app, rootToken, testLine) || err == nil)
		zzgov.Ensures("nothing otherwise", (out != nil) == (err == nil))
		if err != nil {
			return
		}
		zzgov.Ensures("its position", out.Index() == index)
		zzgov.Ensures("successful when there is no mistake", out.IsSuccess() == zzPasses(app, rootToken, testLine))
	}
}

func zzLinesReported(app *application, name string, testLines []string, lines []Line) bool {
	return zzgov.ForAll(0, len(lines), func(i int) bool {
		return lines[i] != nil && lines[i].Index() == uint(i) && lines[i].IsSuccess() == zzPasses(app, name, testLines[i])
	})
}

//gov:ghost
func zzReport(app *application, name string, testLines []string, suite Suite) bool {
	return suite.Name() == name && len(suite.Lines()) == len(testLines) && zzLinesReported(app, name, testLines, suite.Lines())
}

func zzInvLines(iter zzgov.Iter, lines []Line) bool { return len(lines) == int(iter) }

func zzInvReported(iter zzgov.Iter, app *application, name string, testLines []string, lines []Line) bool {
	return zzgov.ForAll(0, int(iter), func(i int) bool {
		return lines[i] != nil && lines[i].Index() == uint(i) && lines[i].IsSuccess() == zzPasses(app, name, testLines[i])
	})
}

//gov:ghost
func zzAllReadable(app *application, name string, testLines []string) bool {
	return name != "" && len(testLines) > 0 && zzgov.ForAll(0, len(testLines), func(i int) bool { return zzReadable(app, name, testLines[i]) })
}

//gov:contract application.toSuite
//gov:use
//gov:helper
//gov:inv zzInvLines zzInvReported
func zzSuiteRun(app *application, name string, testLines []string, tokens tokens.Tokens, channels tokens.Tokens) func(out Suite, err error) {
	zzgov.Requires(zzReady(app) && tokens == app.tokens && channels == app.channels)
	zzgov.Requires(zzDeclared(app, name))
	zzgov.NoPanic()
	return func(out Suite, err error) {
		zzgov.Ensures("obtained when its lines can be read", !zzAllReadable(app, name, testLines) || err == nil)
		zzgov.Ensures("nothing otherwise", (out != nil) == (err == nil))
		if err != nil {
			return
		}
		zzgov.Ensures("its name", out.Name() == name)
		zzgov.Ensures("each line", len(out.Lines()) == len(testLines))
		zzgov.Ensures("its position and whether it parses", zzLinesReported(app, name, testLines, out.Lines()))
		zzgov.Ensures("a report of them", zzReport(app, name, testLines, out))
	}
}

// The number of tokens with a suite among the first ones.
//
//gov:ghost
func zzCount(list []tokens.Token, n int) int {
	if n <= 0 || n > len(list) {
		return 0
	}
	before := zzCount(list, n-1)
	if before < 0 || before >= n {
		return 0
	}
	if list[n-1].HasTestSuite() {
		return before + 1
	}
	return before
}


func zzInvCount(iter zzgov.Iter, obj Application, suites []Suite) bool {
	return len(suites) == zzCount(obj.(*application).tokens.All(), int(iter))
}

func zzInvReport(iter zzgov.Iter, obj Application, suites []Suite) bool {
	app := obj.(*application)
	list := app.tokens.All()
	return zzgov.ForAll(0, int(iter), func(i int) bool {
		return !list[i].HasTestSuite() || zzCount(list, i) >= 0 && zzCount(list, i) < len(suites) && zzReport(app, list[i].Name(), list[i].TestSuite().Lines(), suites[zzCount(list, i)])
	})
}

//gov:contract Application.Execute
//gov:inv zzInvCount zzInvReport
//gov:folded zzReport
func zzExecute(obj Application) func(suites []Suite, err error) {
	app := obj.(*application)
	zzgov.Requires(obj != nil && zzReady(app))
	list := app.tokens.All()
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool {
		return list[i] != nil && zzDeclared(app, list[i].Name()) && (!list[i].HasTestSuite() || list[i].TestSuite() != nil)
	}))
	zzgov.NoPanic()
	return func(suites []Suite, err error) {
		zzgov.Ensures("obtained when every line can be read", !zzgov.ForAll(0, len(list), func(i int) bool {
			return !list[i].HasTestSuite() || zzAllReadable(app, list[i].Name(), list[i].TestSuite().Lines())
		}) || err == nil)
		if err != nil {
			return
		}
		zzgov.Ensures("one report for each token with a suite", len(suites) == zzCount(list, len(list)))
		zzgov.Ensures("in order, under its name, line by line", zzgov.ForAll(0, len(list), func(i int) bool {
			return !list[i].HasTestSuite() || zzReport(app, list[i].Name(), list[i].TestSuite().Lines(), suites[zzCount(list, i)])
		}))
	}
}
