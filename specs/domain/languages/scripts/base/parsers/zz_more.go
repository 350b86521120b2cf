//go:build go1.21

package parsers

import (
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops P03

//gov:lemma P03
func zzAssignables(jList []Assignable, vList []Assignable) {
	zzgov.NoPanic()
	builder := NewAssignablesBuilder().WithAssignables(jList).Create()
	builder = builder.WithAssignables(vList)
	obj, err := builder.Now()
	zzgov.Ensures("always obtained", err == nil && obj != nil)
	zzgov.Ensures("empty exactly when nothing was given", obj.IsEmpty() == (len(vList) == 0) && len(obj.All()) == len(vList))
	zzgov.Ensures("list as given", zzgov.ForAll(0, len(vList), func(i int) bool { return zzgov.Same(obj.All()[i], vList[i]) }))
}

//gov:lemma P03
func zzVariableDeclarations(jList []VariableDeclaration, vList []VariableDeclaration) {
	zzgov.NoPanic()
	builder := NewVariableDeclarationsBuilder().WithDeclarations(jList).Create()
	builder = builder.WithDeclarations(vList)
	obj, err := builder.Now()
	ok := len(vList) > 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("list as given", zzgov.Same(obj.All(), vList))
}

//gov:lemma P03
func zzOperation(jElement OperationElement, jSuffix OperationSuffix, vElement OperationElement, vSuffix OperationSuffix) {
	zzgov.NoPanic()
	builder := NewOperationBuilder().WithElement(jElement).WithSuffix(jSuffix).Create()
	builder = builder.WithElement(vElement)
	builder = builder.WithSuffix(vSuffix)
	obj, err := builder.Now()
	ok := vElement != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	if vSuffix == nil && vElement.IsOperation() {
		zzgov.Ensures("an operation around an operation alone is that operation", zzgov.Same(obj, vElement.Operation()))
		return
	}
	zzgov.Ensures("element as given", zzgov.Same(obj.Element(), vElement))
	zzgov.Ensures("suffix exactly when given", obj.HasSuffix() == (vSuffix != nil) && zzgov.Same(obj.Suffix(), vSuffix))
}

//gov:lemma P03
func zzValue(jType Type, jElement interface{}, vType Type, vElement interface{}) {
	zzgov.NoPanic()
	builder := NewValueBuilder().WithType(jType).WithElement(jElement).Create()
	builder = builder.WithType(vType)
	builder = builder.WithElement(vElement)
	obj, err := builder.Now()
	ok := vType != nil && vElement != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("type as given", zzgov.Same(obj.Type(), vType))
	zzgov.Ensures("element as given", zzgov.Same(obj.Element(), vElement))
}

//gov:lemma P03
func zzValueTyped(kind int, u uint, i int, f float64, b bool, s string) {
	zzgov.NoPanic()
	zzgov.Requires(kind >= 0 && kind < 5)
	builder := NewValueBuilder()
	want := uint8(0)
	switch kind {
	case 0:
		builder = builder.WithUint(u)
		want = TypeIntegerFlag | TypeUnsignedFlag
	case 1:
		builder = builder.WithInt(i)
		want = TypeIntegerFlag
	case 2:
		builder = builder.WithFloat(f)
		want = TypeFloatFlag
	case 3:
		builder = builder.WithBool(b)
		want = TypeBoolFlag
	default:
		builder = builder.WithString(s)
		want = TypeStringFlag
	}
	obj, err := builder.Now()
	zzgov.Ensures("always obtained", err == nil && obj != nil)
	zzgov.Ensures("type of the value given", obj.Type() != nil && obj.Type().Flag() == want && obj.Type().Dept() == 0)
	switch kind {
	case 0:
		got, ok := obj.Element().(uint)
		zzgov.Ensures("unsigned value as given", ok && got == u)
	case 1:
		got, ok := obj.Element().(int)
		zzgov.Ensures("integer value as given", ok && got == i)
	case 2:
		got, ok := obj.Element().(float64)
		zzgov.Ensures("float value as given", ok && zzgov.Same(got, f))
	case 3:
		got, ok := obj.Element().(bool)
		zzgov.Ensures("bool value as given", ok && got == b)
	default:
		got, ok := obj.Element().(string)
		zzgov.Ensures("string value as given", ok && got == s)
	}
}
