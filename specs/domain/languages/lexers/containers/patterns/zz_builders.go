//go:build go1.21

package patterns

import (
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops B01

//gov:lemma B01
func zzChoice(jSerie Serie, vSerie Serie, vIsReverse bool) {
	zzgov.NoPanic()
	builder := NewChoiceBuilder().WithSerie(jSerie).IsReverse().Create()
	builder = builder.WithSerie(vSerie)
	if vIsReverse {
		builder = builder.IsReverse()
	}
	obj, err := builder.Now()
	ok := vSerie != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("serie as given", zzgov.Same(obj.Serie(), vSerie))
	zzgov.Ensures("isReverse exactly when asked", obj.IsReverse() == vIsReverse)
}

//gov:lemma B01
func zzContainer(jReverse Serie, jGroup Group, vReverse Serie, vGroup Group) {
	zzgov.NoPanic()
	builder := NewContainerBuilder().WithReverse(jReverse).WithGroup(jGroup).Create()
	builder = builder.WithReverse(vReverse)
	builder = builder.WithGroup(vGroup)
	obj, err := builder.Now()
	ok := vReverse != nil || vGroup != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("reverse held only when given", !obj.IsReverse() || (vReverse != nil))
	zzgov.Ensures("reverse held when alone", obj.IsReverse() || !(vReverse != nil) || vGroup != nil)
	zzgov.Ensures("reverse as given", !obj.IsReverse() || zzgov.Same(obj.Reverse(), vReverse))
	zzgov.Ensures("reverse absent unless held", obj.IsReverse() == (obj.Reverse() != nil))
	zzgov.Ensures("group held only when given", !obj.IsGroup() || (vGroup != nil))
	zzgov.Ensures("group held when alone", obj.IsGroup() || !(vGroup != nil) || vReverse != nil)
	zzgov.Ensures("group as given", !obj.IsGroup() || zzgov.Same(obj.Group(), vGroup))
	zzgov.Ensures("group absent unless held", obj.IsGroup() == (obj.Group() != nil))
	zzgov.Ensures("one alternative at most", !(obj.IsReverse() && obj.IsGroup()))
	zzgov.Ensures("named after what it holds", obj.IsReverse() && obj.Name() == obj.Reverse().Name() || obj.IsGroup() && obj.Name() == obj.Group().Name())
}

//gov:lemma B01
func zzDiscovery(jIndex uint, jContent string, jContainer Container, withIndex bool, vIndex uint, vContent string, vContainer Container) {
	zzgov.NoPanic()
	builder := NewDiscoveryBuilder().WithIndex(jIndex).WithContent(jContent).WithContainer(jContainer).Create()
	if withIndex {
		builder = builder.WithIndex(vIndex)
	}
	builder = builder.WithContent(vContent)
	builder = builder.WithContainer(vContainer)
	obj, err := builder.Now()
	ok := withIndex && vContent != "" && vContainer != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("index as given", obj.Index() == vIndex)
	zzgov.Ensures("content as given", obj.Content() == vContent)
	zzgov.Ensures("container as given", zzgov.Same(obj.Container(), vContainer))
}

//gov:lemma B01
func zzGroup(jName string, jList []string, vName string, vList []string) {
	zzgov.NoPanic()
	builder := NewGroupBuilder().WithName(jName).WithList(jList).Create()
	builder = builder.WithName(vName)
	builder = builder.WithList(vList)
	obj, err := builder.Now()
	ok := vName != "" && len(vList) > 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("name as given", obj.Name() == vName)
	zzgov.Ensures("list as given", zzgov.Same(obj.Content().List(), vList))
	zzgov.Ensures("amount", obj.Content().Length() == uint(len(vList)))
	zzgov.Ensures("first", obj.Content().First() == vList[0])
}

//gov:lemma B01
func zzNext(jGroup Group, vGroup Group, vIsReverse bool) {
	zzgov.NoPanic()
	builder := NewNextBuilder().WithGroup(jGroup).IsReverse().Create()
	builder = builder.WithGroup(vGroup)
	if vIsReverse {
		builder = builder.IsReverse()
	}
	obj, err := builder.Now()
	ok := vGroup != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("group as given", zzgov.Same(obj.Group(), vGroup))
	zzgov.Ensures("isReverse exactly when asked", obj.IsReverse() == vIsReverse)
}

//gov:lemma B01
func zzPattern(jName string, jList []Choice, vName string, vList []Choice) {
	zzgov.NoPanic()
	builder := NewPatternBuilder().WithName(jName).WithList(jList).Create()
	builder = builder.WithName(vName)
	builder = builder.WithList(vList)
	obj, err := builder.Now()
	ok := vName != "" && len(vList) > 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("name as given", obj.Name() == vName)
	zzgov.Ensures("list as given", zzgov.Same(obj.Content().List(), vList))
	zzgov.Ensures("amount", obj.Content().Length() == uint(len(vList)))
}

//gov:lemma B01
func zzResult(jInput string, jDiscoveries Discoveries, jRemaining string, jNext Next, vInput string, vDiscoveries Discoveries, vRemaining string, vNext Next) {
	zzgov.NoPanic()
	builder := NewResultBuilder().WithInput(jInput).WithDiscoveries(jDiscoveries).WithRemaining(jRemaining).WithNext(jNext).Create()
	builder = builder.WithInput(vInput)
	builder = builder.WithDiscoveries(vDiscoveries)
	builder = builder.WithRemaining(vRemaining)
	builder = builder.WithNext(vNext)
	obj, err := builder.Now()
	ok := vInput != "" && vDiscoveries != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("input as given", obj.Input() == vInput)
	zzgov.Ensures("discoveries as given", zzgov.Same(obj.Discoveries(), vDiscoveries))
	zzgov.Ensures("remaining exactly when given", obj.HasRemaining() == (vRemaining != "") && obj.Remaining() == vRemaining)
	zzgov.Ensures("next exactly when given", obj.HasNext() == (vNext != nil) && zzgov.Same(obj.Next(), vNext))
}

//gov:lemma B01
func zzSerie(jName string, jList []Group, vName string, vList []Group) {
	zzgov.NoPanic()
	builder := NewSerieBuilder().WithName(jName).WithList(jList).Create()
	builder = builder.WithName(vName)
	builder = builder.WithList(vList)
	obj, err := builder.Now()
	ok := vName != "" && len(vList) > 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("name as given", obj.Name() == vName)
	zzgov.Ensures("list as given", zzgov.Same(obj.Content().List(), vList))
	zzgov.Ensures("amount", obj.Content().Length() == uint(len(vList)))
}
