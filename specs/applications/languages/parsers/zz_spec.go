//go:build go1.21

package parsers

import (
	"errors"

	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops P01

// the value of the first handler that succeeds, and no other, is kept
//
//gov:lemma P01
func zzExecuteFirst(events map[string][]EventFunc, root roots.Root, k int) {
	zzgov.Requires(root != nil)
	list, ok := events[root.Name()]
	zzgov.Requires(ok && 0 <= k && k < len(list))
	zzgov.Requires(zzgov.ForAll(0, k+1, func(i int) bool { return list[i] != nil }))
	zzgov.NoPanic()
	m, err := NewManagerBuilder().WithEvents(nil).Create().WithEvents(events).Now()
	zzgov.Ensures("a manager", err == nil && m != nil)
	v, err := list[k](root, m)
	zzgov.Requires(err == nil)
	zzgov.Requires(zzgov.ForAll(0, k, func(i int) bool {
		_, err := list[i](root, m)
		return err != nil
	}))
	res, err := m.Execute(root)
	zzgov.Ensures("an answer or an error", (err == nil) == (res != nil))
	if r, ok := v.(Result); ok {
		zzgov.Requires(r != nil)
		if len(r.List()) > 1 {
			zzgov.Ensures("several values are kept as they are", err == nil && zzgov.Same(res.List(), r.List()) && res.First() == r.List()[0] && !res.IsSingle())
			return
		}
		if r.First() == nil {
			return
		}
		zzgov.Ensures("the one value of a result is kept", err == nil && len(res.List()) == 1 && res.First() == r.First() && res.List()[0] == r.First() && res.IsSingle())
		return
	}
	if v == nil {
		zzgov.Ensures("no value is no success", err != nil)
		return
	}
	zzgov.Ensures("the value is kept", err == nil && len(res.List()) == 1 && res.First() == v && res.List()[0] == v && res.IsSingle())
}

// handlers that all fail, or none at all, make it fail
//
//gov:lemma P01
func zzExecuteFails(events map[string][]EventFunc, root roots.Root) {
	zzgov.Requires(root != nil)
	list, ok := events[root.Name()]
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil }))
	zzgov.NoPanic()
	m, err := NewManagerBuilder().Create().WithEvents(events).Now()
	zzgov.Ensures("a manager exactly when there are events", (err == nil) == (len(events) > 0) && (err == nil) == (m != nil))
	if err != nil {
		return
	}
	zzgov.Requires(!ok || zzgov.ForAll(0, len(list), func(i int) bool {
		_, err := list[i](root, m)
		return err != nil
	}))
	res, err := m.Execute(root)
	zzgov.Ensures("refused", err != nil && res == nil)
}

// the application answers with the first value of the handlers of the root
//
//gov:lemma P01
func zzApplication(root roots.Root, v any, fails bool) {
	zzgov.Requires(root != nil && v != nil)
	_, isRes := v.(Result)
	zzgov.Requires(!isRes)
	zzgov.NoPanic()
	got, err := NewApplication().Execute(root, map[string][]EventFunc{
		root.Name(): {
			func(r roots.Root, m Manager) (any, error) {
				if fails {
					return nil, errors.New("first")
				}
				return v, nil
			},
			func(r roots.Root, m Manager) (any, error) {
				if !fails {
					return "second", nil
				}
				return v, nil
			},
		},
	})
	zzgov.Ensures("the first value", err == nil && got == v)
	_, err = NewApplication().Execute(root, nil)
	zzgov.Ensures("refused without handlers", err != nil)
}

// zzTree is a tree with one node of that name.
func zzTree(name string, list []roots.Container) roots.Root {
	containers, err := roots.NewContainersBuilder().WithList(list).Now()
	zzgov.Requires(err == nil)
	node, err := roots.NewNodeBuilder().WithName(name).WithContainers(containers).Now()
	zzgov.Requires(err == nil)
	nodes, err := roots.NewNodesBuilder().WithNodes(map[string]roots.Node{name: node}).Now()
	zzgov.Requires(err == nil)
	root, err := roots.NewBuilder().WithNodes(nodes).WithName("top").WithContent("text").Now()
	zzgov.Requires(err == nil)
	return root
}

// zzGathered: there is one value for each occurrence gone through
func zzGathered(list []roots.Container, n zzgov.Iter, out []any) bool {
	return len(out) == int(n)
}

// zzText: an occurrence without a tree of its own is worth its text
func zzText(list []roots.Container, q int, n zzgov.Iter, out []any) bool {
	return int(n) <= q || list[q].HasRoot() || out[q] == any(list[q].Content())
}

// zzValue: an occurrence with a tree is worth what its handlers make of it
func zzValue(list []roots.Container, v any, q int, n zzgov.Iter, out []any) bool {
	return int(n) <= q || out[q] == v
}

// a triggered name has one value for each occurrence, in order: its text without handlers
//
//gov:lemma P01
//gov:inv zzGathered zzText
func zzTriggerTexts(events map[string][]EventFunc, name string, list []roots.Container, q int) {
	zzgov.Requires(0 <= q && q < len(list))
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil }))
	zzgov.Requires(zzgov.EachKey(events, func(k string, fs []EventFunc) bool {
		return zzgov.ForAll(0, len(fs), func(i int) bool { return fs[i] != nil })
	}))
	root := zzTree(name, list)
	m, err := NewManagerBuilder().WithEvents(events).Now()
	zzgov.Requires(err == nil)
	zzgov.NoPanic()
	res, err := m.Trigger(name, root)
	zzgov.Ensures("an answer or an error", (err == nil) == (res != nil))
	zzgov.Ensures("one value for each occurrence", err != nil || len(res.List()) == len(list))
	zzgov.Ensures("the text of an occurrence without a tree", err != nil || list[q].HasRoot() || res.List()[q] == any(list[q].Content()))
	zzgov.Ensures("the first of them", err != nil || res.First() == res.List()[0])
	zzgov.Ensures("never refused for texts", err == nil || zzgov.Exists(0, len(list), func(i int) bool { return list[i].HasRoot() }))
}

// and the value of its first successful handler otherwise
//
//gov:lemma P01
//gov:inv zzGathered zzValue
func zzTriggerValues(events map[string][]EventFunc, name string, list []roots.Container, q, k int, v any) {
	zzgov.Requires(0 <= q && q < len(list))
	zzgov.Requires(zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil }))
	root := zzTree(name, list)
	m, err := NewManagerBuilder().WithEvents(events).Now()
	zzgov.Requires(err == nil)
	fs, ok := events[name]
	zzgov.Requires(ok && 0 <= k && k < len(fs))
	zzgov.Requires(zzgov.ForAll(0, len(fs), func(i int) bool { return fs[i] != nil }))
	zzgov.Requires(list[q].HasRoot())
	got, err := fs[k](list[q].Root(), m)
	zzgov.Requires(err == nil)
	zzgov.Requires(zzgov.ForAll(0, k, func(i int) bool {
		_, err := fs[i](list[q].Root(), m)
		return err != nil
	}))
	if r, ok := got.(Result); ok {
		zzgov.Requires(r != nil && r.IsSingle())
		got = r.First()
	}
	zzgov.Requires(zzgov.Same(got, v))
	res, err := m.Trigger(name, root)
	zzgov.Ensures("one value for each occurrence", err != nil || len(res.List()) == len(list))
	zzgov.Ensures("the value of the first handler that succeeds", err != nil || res.List()[q] == v)
}

// a result reports the values given
//
//gov:lemma P01
func zzResult(junk any, list []any, element any) {
	zzgov.NoPanic()
	res, err := NewResultBuilder().WithElement(junk).Create().WithList(list).Now()
	zzgov.Ensures("refused when there is none", (err == nil) == (len(list) > 0) && (err == nil) == (res != nil))
	if err == nil {
		zzgov.Ensures("the values given", zzgov.Same(res.List(), list) && res.First() == list[0] && res.IsSingle() == (len(list) == 1))
	}
	one, err := NewResultBuilder().WithList(list).Create().WithElement(element).Now()
	zzgov.Ensures("refused without a value", (err == nil) == (element != nil) && (err == nil) == (one != nil))
	if err == nil {
		zzgov.Ensures("the value given", len(one.List()) == 1 && one.List()[0] == element && one.First() == element && one.IsSingle())
	}
}
