//go:build go1.21

package roots

import (
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops L11

// A tree with nothing missing in it.

//gov:ghost
func zzNodesOk(ns Nodes) bool {
	return zzgov.EachKey(ns.All(), func(k string, n Node) bool { return n != nil && zzNodeOk(n) })
}

//gov:ghost
func zzNodeOk(n Node) bool { return n.Containers() != nil && zzContainersOk(n.Containers()) }

//gov:ghost
func zzContainersOk(cs Containers) bool {
	return zzgov.ForAll(0, len(cs.List()), func(i int) bool { return cs.List()[i] != nil && zzContainerOk(cs.List()[i]) })
}

//gov:ghost
func zzContainerOk(c Container) bool {
	return !c.HasRoot() || c.Root() != nil && c.Root().Nodes() != nil && zzNodesOk(c.Root().Nodes())
}

// Some element of the tree carries the name.

//gov:ghost
func zzNodesHas(ns Nodes, name string) bool {
	return zzgov.SomeKey(ns.All(), func(k string, n Node) bool { return zzNodeHas(n, name) })
}

//gov:ghost
func zzNodeHas(n Node, name string) bool { return n.Name() == name || zzContainersHas(n.Containers(), name) }

//gov:ghost
func zzContainersHas(cs Containers, name string) bool {
	return zzgov.Exists(0, len(cs.List()), func(i int) bool { return zzContainerHas(cs.List()[i], name) })
}

//gov:ghost
func zzContainerHas(c Container, name string) bool {
	return c.Name() == name || c.HasRoot() && zzNodesHas(c.Root().Nodes(), name)
}

// The element found: the one at hand before those below it, and those of the first container that has it.

//gov:ghost
func zzNodesGive(ns Nodes, name string, node Node, container Container) bool {
	if direct, ok := ns.All()[name]; ok && direct.Name() == name {
		return zzgov.Same(node, direct) && container == nil
	}
	return zzgov.SomeKey(ns.All(), func(k string, n Node) bool { return zzNodeGives(n, name, node, container) })
}

//gov:ghost
func zzNodeGives(n Node, name string, node Node, container Container) bool {
	if n.Name() == name {
		return zzgov.Same(node, n) && container == nil
	}
	return zzContainersGive(n.Containers(), name, node, container)
}

//gov:ghost
func zzContainersGive(cs Containers, name string, node Node, container Container) bool {
	return zzgov.Exists(0, len(cs.List()), func(i int) bool {
		return zzContainerGives(cs.List()[i], name, node, container) && zzNotBefore(cs, name, i)
	})
}

//gov:ghost
func zzNotBefore(cs Containers, name string, i int) bool {
	return zzgov.ForAll(0, i, func(j int) bool { return !zzContainerHas(cs.List()[j], name) })
}

//gov:ghost
func zzContainerGives(c Container, name string, node Node, container Container) bool {
	if c.Name() == name {
		return node == nil && zzgov.Same(container, c)
	}
	return c.HasRoot() && zzNodesGive(c.Root().Nodes(), name, node, container)
}

func zzOne(name string, root Root, node Node, container Container, content string) bool {
	return root == nil && content == "" && (node == nil) != (container == nil) && (node == nil || node.Name() == name) && (container == nil || container.Name() == name)
}

//gov:contract Container.Scan
//gov:local
//gov:use
func zzContainerScan(obj Container, name string) func(root Root, node Node, container Container, content string, err error) {
	zzgov.Requires(obj != nil && zzContainerOk(obj))
	zzgov.NoPanic()
	return func(root Root, node Node, container Container, content string, err error) {
		zzgov.Ensures("an error exactly when there is none", (err == nil) == zzContainerHas(obj, name))
		if err != nil {
			return
		}
		zzgov.Ensures("one element of that name", zzOne(name, root, node, container, content))
		zzgov.Ensures("the one in place", zzContainerGives(obj, name, node, container))
	}
}

func zzInvMissed(iter zzgov.Iter, obj Containers, name string) bool {
	list := obj.List()
	return zzgov.ForAll(0, int(iter), func(i int) bool { return !zzContainerHas(list[i], name) })
}

//gov:contract Containers.Scan
//gov:local
//gov:use
//gov:inv zzInvMissed
func zzContainersScan(obj Containers, name string) func(root Root, node Node, container Container, content string, err error) {
	zzgov.Requires(obj != nil && zzContainersOk(obj))
	zzgov.NoPanic()
	return func(root Root, node Node, container Container, content string, err error) {
		zzgov.Ensures("an error exactly when there is none", (err == nil) == zzContainersHas(obj, name))
		if err != nil {
			return
		}
		zzgov.Ensures("one element of that name", zzOne(name, root, node, container, content))
		zzgov.Ensures("the one in place", zzContainersGive(obj, name, node, container))
	}
}

//gov:contract Node.Scan
//gov:local
//gov:use
func zzNodeScan(obj Node, name string) func(root Root, node Node, container Container, content string, err error) {
	zzgov.Requires(obj != nil && zzNodeOk(obj))
	zzgov.NoPanic()
	return func(root Root, node Node, container Container, content string, err error) {
		zzgov.Ensures("an error exactly when there is none", (err == nil) == zzNodeHas(obj, name))
		if err != nil {
			return
		}
		zzgov.Ensures("one element of that name", zzOne(name, root, node, container, content))
		zzgov.Ensures("the one in place", zzNodeGives(obj, name, node, container))
	}
}

func zzInvNodes(keys zzgov.Keys[string], obj Nodes, name string) bool {
	return zzgov.EachKey(obj.All(), func(k string, n Node) bool { return !keys[k] || !zzNodeHas(n, name) })
}

//gov:contract Nodes.Scan
//gov:local
//gov:use
//gov:inv zzInvNodes
func zzNodesScan(obj Nodes, name string) func(root Root, node Node, container Container, content string, err error) {
	zzgov.Requires(obj != nil && zzNodesOk(obj))
	zzgov.NoPanic()
	return func(root Root, node Node, container Container, content string, err error) {
		zzgov.Ensures("an error exactly when there is none", (err == nil) == zzNodesHas(obj, name))
		if err != nil {
			return
		}
		zzgov.Ensures("one element of that name", zzOne(name, root, node, container, content))
		zzgov.Ensures("the one in place", zzNodesGive(obj, name, node, container))
	}
}

//gov:contract Root.Scan
//gov:local
func zzRootScan(obj Root, name string) func(root Root, node Node, container Container, content string, err error) {
	zzgov.Requires(obj != nil && obj.Nodes() != nil && zzNodesOk(obj.Nodes()))
	zzgov.NoPanic()
	return func(root Root, node Node, container Container, content string, err error) {
		zzgov.Ensures("an error exactly when there is none", (err == nil) == (obj.Name() == name || zzNodesHas(obj.Nodes(), name)))
		if err != nil {
			return
		}
		if obj.Name() == name {
			zzgov.Ensures("itself", zzgov.Same(root, obj) && node == nil && container == nil && content == "")
			return
		}
		zzgov.Ensures("one element of that name", zzOne(name, root, node, container, content))
		zzgov.Ensures("the one in place", zzNodesGive(obj.Nodes(), name, node, container))
	}
}
