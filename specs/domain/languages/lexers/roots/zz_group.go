//go:build go1.21

package roots

import (
	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops L11

//gov:ghost
func zzName(m asts.Match) string {
	if m.IsRule() {
		return m.Rule().Rule()
	}
	return m.Token().Token()
}

// The number of occurrences in a match.
//
//gov:ghost
func zzGot(m asts.Match) int {
	if m.IsRule() {
		return 1
	}
	return len(m.Token().Matches())
}

// The number of occurrences under a name in the first n matches.
//
//gov:ghost
func zzCount(list []asts.Match, n int, name string) int {
	if n <= 0 || n > len(list) {
		return 0
	}
	before := zzCount(list, n-1, name)
	if zzName(list[n-1]) != name {
		return before
	}
	if before < 0 || before+zzGot(list[n-1]) < before {
		return 0
	}
	return before + zzGot(list[n-1])
}

// Containers hold the occurrences in a match: its name, the text of each, and what is below each.

//gov:ghost
func zzNamed(list []Container, at int, m asts.Match, n int) bool {
	return at >= 0 && at+n <= len(list) && zzgov.ForAll(0, n, func(j int) bool { return list[at+j] != nil && list[at+j].Name() == zzName(m) })
}

//gov:ghost
func zzText(m asts.Match, j int) string {
	if m.IsRule() {
		return asts.ZZResultText(m.Rule().Result())
	}
	return asts.ZZTreeText(m.Token().Matches()[j])
}

//gov:ghost
func zzTexts(list []Container, at int, m asts.Match, n int) bool {
	return zzgov.ForAll(0, n, func(j int) bool { return list[at+j].Content() == zzText(m, j) })
}

//gov:ghost
func zzBelow(m asts.Match, j int, root Root) bool {
	if m.IsRule() {
		return root == nil
	}
	return zzShows(root, m.Token().Matches()[j])
}

//gov:ghost
func zzRoots(list []Container, at int, m asts.Match, n int) bool {
	return zzgov.ForAll(0, n, func(j int) bool { return list[at+j].HasRoot() == (list[at+j].Root() != nil) && zzBelow(m, j, list[at+j].Root()) })
}

func zzHeld(list []Container, at int, m asts.Match, n int) bool {
	return zzNamed(list, at, m, n) && zzTexts(list, at, m, n) && zzRoots(list, at, m, n)
}

//gov:ghost
func zzGrouped(nodes Nodes, list []asts.Match) bool {
	return zzgov.EachKey(nodes.All(), func(k string, n Node) bool { return n != nil && zzNodeOf(n, list, k) }) &&
		zzgov.ForAll(0, len(list), func(i int) bool { return zzIn(nodes, list, i) })
}

//gov:ghost
func zzNodeOf(n Node, list []asts.Match, k string) bool {
	return n.Name() == k && n.Containers() != nil && len(n.Containers().List()) > 0 && len(n.Containers().List()) == zzCount(list, len(list), k)
}

//gov:ghost
func zzIn(nodes Nodes, list []asts.Match, i int) bool {
	n, ok := nodes.All()[zzName(list[i])]
	if !ok {
		return zzGot(list[i]) == 0
	}
	return n != nil && n.Containers() != nil && zzHeld(n.Containers().List(), zzCount(list, i, zzName(list[i])), list[i], zzGot(list[i]))
}

// The node tree of a token.
//
//gov:ghost
func zzShows(root Root, token asts.Token) bool {
	if !token.Match().HasMatches() {
		return root == nil
	}
	return root != nil && root.Name() == token.Name() && root.Content() == asts.ZZTreeText(token) && root.Nodes() != nil && zzGrouped(root.Nodes(), token.Match().Matches())
}

// Putting the elements together.

//gov:contract ContainerBuilder.Now
//gov:use
//gov:local
func zzContainerNow(obj ContainerBuilder) func(out Container, err error) {
	zzgov.Requires(obj != nil)
	app := obj.(*containerBuilder)
	zzgov.NoPanic()
	return func(out Container, err error) {
		zzgov.Ensures("a text and a name are needed", (err == nil) == (app.content != "" && app.name != "") && (out != nil) == (err == nil))
		zzgov.Ensures("what was given", err != nil || out.Content() == app.content && out.Name() == app.name && zzgov.Same(out.Root(), app.root) && out.HasRoot() == (app.root != nil))
	}
}

//gov:contract ContainersBuilder.Now
//gov:use
//gov:local
func zzContainersNow(obj ContainersBuilder) func(out Containers, err error) {
	zzgov.Requires(obj != nil)
	list := obj.(*containersBuilder).list
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil }))
	zzgov.NoPanic()
	return func(out Containers, err error) {
		zzgov.Ensures("some are needed", (err == nil) == (len(list) > 0) && (out != nil) == (err == nil))
		zzgov.Ensures("what was given", err != nil || zzgov.Same(out.List(), list))
	}
}

//gov:contract NodeBuilder.Now
//gov:use
//gov:local
func zzNodeNow(obj NodeBuilder) func(out Node, err error) {
	zzgov.Requires(obj != nil)
	app := obj.(*nodeBuilder)
	zzgov.NoPanic()
	return func(out Node, err error) {
		zzgov.Ensures("a name and containers are needed", (err == nil) == (app.name != "" && app.containers != nil) && (out != nil) == (err == nil))
		zzgov.Ensures("what was given", err != nil || out.Name() == app.name && zzgov.Same(out.Containers(), app.containers))
	}
}

func zzReady(app *adapter) bool {
	return app != nil && app.builder != nil && app.nodesBuilder != nil && app.nodeBuilder != nil && app.containersBuilder != nil && app.containerBuilder != nil
}

//gov:contract adapter.toRoot
//gov:use
//gov:helper
//gov:bounded up to 400000 trees of texts read with 4 small languages, chosen by the seed
func zzToRoot(app *adapter, token asts.Token) func(root Root, err error) {
	zzgov.Requires(zzReady(app) && token != nil && token.Match() != nil && asts.ZZTreeOk(token) && asts.ZZLineOk(token.Match()))
	zzgov.Requires(zzgov.ForAll(0, len(token.Match().Matches()), func(i int) bool { return asts.ZZMatchWhole(token.Match().Matches()[i]) }))
	zzgov.NoPanic()
	return func(root Root, err error) {
		if err != nil {
			zzgov.Ensures("nothing otherwise", root == nil)
			return
		}
		zzgov.Ensures("a node for each name, holding its occurrences in order", zzShows(root, token))
	}
}
