//go:build go1.21

package roots

import (
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops B01

//gov:lemma B01
func zzContainer(jContent string, jName string, jRoot Root, vContent string, vName string, vRoot Root) {
	zzgov.NoPanic()
	builder := NewContainerBuilder().WithContent(jContent).WithName(jName).WithRoot(jRoot).Create()
	builder = builder.WithContent(vContent)
	builder = builder.WithName(vName)
	builder = builder.WithRoot(vRoot)
	obj, err := builder.Now()
	ok := vContent != "" && vName != ""
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("content as given", obj.Content() == vContent)
	zzgov.Ensures("name as given", obj.Name() == vName)
	zzgov.Ensures("root exactly when given", obj.HasRoot() == (vRoot != nil) && zzgov.Same(obj.Root(), vRoot))
}

//gov:lemma B01
func zzNode(jName string, jContainers Containers, vName string, vContainers Containers) {
	zzgov.NoPanic()
	builder := NewNodeBuilder().WithName(jName).WithContainers(jContainers).Create()
	builder = builder.WithName(vName)
	builder = builder.WithContainers(vContainers)
	obj, err := builder.Now()
	ok := vName != "" && vContainers != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("name as given", obj.Name() == vName)
	zzgov.Ensures("containers as given", zzgov.Same(obj.Containers(), vContainers))

}

//gov:lemma B01
func zzNodes(jList map[string]Node, vList map[string]Node) {
	zzgov.NoPanic()
	builder := NewNodesBuilder().WithNodes(jList).Create()
	builder = builder.WithNodes(vList)
	obj, err := builder.Now()
	ok := len(vList) > 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("list as given", zzgov.Same(obj.All(), vList))
	zzgov.Ensures("amount", obj.Amount() == uint(len(vList)))
}

//gov:lemma B01
func zzRoot(jContent string, jName string, jNodes Nodes, vContent string, vName string, vNodes Nodes) {
	zzgov.NoPanic()
	builder := NewBuilder().WithContent(jContent).WithName(jName).WithNodes(jNodes).Create()
	builder = builder.WithContent(vContent)
	builder = builder.WithName(vName)
	builder = builder.WithNodes(vNodes)
	obj, err := builder.Now()
	ok := vContent != "" && vName != "" && vNodes != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("content as given", obj.Content() == vContent)
	zzgov.Ensures("name as given", obj.Name() == vName)
	zzgov.Ensures("nodes as given", zzgov.Same(obj.Nodes(), vNodes))
}
