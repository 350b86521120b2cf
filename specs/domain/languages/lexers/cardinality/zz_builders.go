//go:build go1.21

package cardinality

import (
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops B01

//gov:lemma B01
func zzCardinality(jSpecific Specific, vIsOptional bool, vIsMandatory bool, vIsNonZeroMultiple bool, vIsZeroMultiple bool, vSpecific Specific) {
	zzgov.NoPanic()
	builder := NewBuilder().IsOptional().IsMandatory().IsNonZeroMultiple().IsZeroMultiple().WithSpecific(jSpecific).Create()
	if vIsOptional {
		builder = builder.IsOptional()
	}
	if vIsMandatory {
		builder = builder.IsMandatory()
	}
	if vIsNonZeroMultiple {
		builder = builder.IsNonZeroMultiple()
	}
	if vIsZeroMultiple {
		builder = builder.IsZeroMultiple()
	}
	builder = builder.WithSpecific(vSpecific)
	obj, err := builder.Now()
	ok := vIsOptional || vIsMandatory || vIsNonZeroMultiple || vIsZeroMultiple || vSpecific != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("isOptional held only when given", !obj.IsOptional() || vIsOptional)
	zzgov.Ensures("isOptional held when alone", obj.IsOptional() || !(vIsOptional) || vIsMandatory || vIsNonZeroMultiple || vIsZeroMultiple || vSpecific != nil)
	zzgov.Ensures("isMandatory held only when given", !obj.IsMandatory() || vIsMandatory)
	zzgov.Ensures("isMandatory held when alone", obj.IsMandatory() || !(vIsMandatory) || vIsOptional || vIsNonZeroMultiple || vIsZeroMultiple || vSpecific != nil)
	zzgov.Ensures("isNonZeroMultiple held only when given", !obj.IsNonZeroMultiple() || vIsNonZeroMultiple)
	zzgov.Ensures("isNonZeroMultiple held when alone", obj.IsNonZeroMultiple() || !(vIsNonZeroMultiple) || vIsOptional || vIsMandatory || vIsZeroMultiple || vSpecific != nil)
	zzgov.Ensures("isZeroMultiple held only when given", !obj.IsZeroMultiple() || vIsZeroMultiple)
	zzgov.Ensures("isZeroMultiple held when alone", obj.IsZeroMultiple() || !(vIsZeroMultiple) || vIsOptional || vIsMandatory || vIsNonZeroMultiple || vSpecific != nil)
	zzgov.Ensures("specific held only when given", !obj.IsSpecific() || (vSpecific != nil))
	zzgov.Ensures("specific held when alone", obj.IsSpecific() || !(vSpecific != nil) || vIsOptional || vIsMandatory || vIsNonZeroMultiple || vIsZeroMultiple)
	zzgov.Ensures("specific as given", !obj.IsSpecific() || zzgov.Same(obj.Specific(), vSpecific))
	zzgov.Ensures("specific absent unless held", obj.IsSpecific() == (obj.Specific() != nil))
	zzgov.Ensures("one alternative at most", !(obj.IsOptional() && obj.IsMandatory()) && !(obj.IsOptional() && obj.IsNonZeroMultiple()) && !(obj.IsOptional() && obj.IsZeroMultiple()) && !(obj.IsOptional() && obj.IsSpecific()) && !(obj.IsMandatory() && obj.IsNonZeroMultiple()) && !(obj.IsMandatory() && obj.IsZeroMultiple()) && !(obj.IsMandatory() && obj.IsSpecific()) && !(obj.IsNonZeroMultiple() && obj.IsZeroMultiple()) && !(obj.IsNonZeroMultiple() && obj.IsSpecific()) && !(obj.IsZeroMultiple() && obj.IsSpecific()))
}

//gov:lemma B01
func zzRange(jMin uint, jMax uint, vMin uint, withMax bool, vMax uint) {
	zzgov.NoPanic()
	builder := NewRangeBuilder().WithMinimum(jMin).WithMaximum(jMax).Create()
	builder = builder.WithMinimum(vMin)
	if withMax {
		builder = builder.WithMaximum(vMax)
	}
	obj, err := builder.Now()
	zzgov.Ensures("always obtained", err == nil && obj != nil)
	zzgov.Ensures("min as given", obj.Min() == vMin)
	zzgov.Ensures("max exactly when given", obj.HasMax() == (withMax) && (!withMax || *obj.Max() == vMax))
}
