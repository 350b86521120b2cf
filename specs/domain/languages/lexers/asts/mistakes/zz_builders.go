//go:build go1.21

package mistakes

import (
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/tokens"
	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops B01

//gov:lemma B01
func zzCardinalityIsInvalid(jCardinality cardinality.Cardinality, jAmount uint, vCardinality cardinality.Cardinality, withAmount bool, vAmount uint) {
	zzgov.NoPanic()
	builder := NewCardinalityIsInvalidBuilder().WithCardinality(jCardinality).WithAmount(jAmount).Create()
	builder = builder.WithCardinality(vCardinality)
	if withAmount {
		builder = builder.WithAmount(vAmount)
	}
	obj, err := builder.Now()
	ok := withAmount && int(vAmount) >= 0 && vCardinality != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("amount as given", obj.Amount() == vAmount)
	zzgov.Ensures("cardinality as given", zzgov.Same(obj.Cardinality(), vCardinality))
}

//gov:lemma B01
func zzContainsNextElement(jNextElement tokens.NextElement, vNextElement tokens.NextElement) {
	zzgov.NoPanic()
	builder := NewContainsNextElementBuilder().WithNextElement(jNextElement).Create()
	builder = builder.WithNextElement(vNextElement)
	obj, err := builder.Now()
	ok := vNextElement != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("nextElement as given", zzgov.Same(obj.NextElement(), vNextElement))
}

//gov:lemma B01
func zzContainsPrefix(jPrefix string, vPrefix string) {
	zzgov.NoPanic()
	builder := NewContainsPrefixBuilder().WithPrefix(jPrefix).Create()
	builder = builder.WithPrefix(vPrefix)
	obj, err := builder.Now()
	ok := vPrefix != ""
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("prefix as given", obj.Prefix() == vPrefix)
}

//gov:lemma B01
func zzContainsValidNotMatch(jLine uint, withLine bool, vLine uint) {
	zzgov.NoPanic()
	builder := NewContainsValidNotMatchBuilder().WithLine(jLine).Create()
	if withLine {
		builder = builder.WithLine(vLine)
	}
	obj, err := builder.Now()
	ok := withLine && int(vLine) >= 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("line as given", obj.Line() == vLine)
}

//gov:lemma B01
func zzContent(jContainsValidNotMatch ContainsValidNotMatch, jSpecifierDoNotMatch SpecifierDoNotMatch, jContainsNextElement ContainsNextElement, jCardinalityIsInvalid CardinalityIsInvalid, jContainsPrefix ContainsPrefix, vIsTokenHasNoMatch bool, vContainsValidNotMatch ContainsValidNotMatch, vSpecifierDoNotMatch SpecifierDoNotMatch, vContainsNextElement ContainsNextElement, vCardinalityIsInvalid CardinalityIsInvalid, vContainsPrefix ContainsPrefix) {
	zzgov.NoPanic()
	builder := NewContentBuilder().IsTokenHasNoMatch().WithContainsValidNotMatch(jContainsValidNotMatch).WithSpecifierDoNotMatch(jSpecifierDoNotMatch).WithContainsNextElement(jContainsNextElement).WithCardinalityIsInvalid(jCardinalityIsInvalid).WithContainsPrefix(jContainsPrefix).Create()
	if vIsTokenHasNoMatch {
		builder = builder.IsTokenHasNoMatch()
	}
	builder = builder.WithContainsValidNotMatch(vContainsValidNotMatch)
	builder = builder.WithSpecifierDoNotMatch(vSpecifierDoNotMatch)
	builder = builder.WithContainsNextElement(vContainsNextElement)
	builder = builder.WithCardinalityIsInvalid(vCardinalityIsInvalid)
	builder = builder.WithContainsPrefix(vContainsPrefix)
	obj, err := builder.Now()
	ok := vIsTokenHasNoMatch || vContainsValidNotMatch != nil || vSpecifierDoNotMatch != nil || vContainsNextElement != nil || vCardinalityIsInvalid != nil || vContainsPrefix != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("isTokenHasNoMatch held only when given", !obj.IsTokenHasNoMatch() || vIsTokenHasNoMatch)
	zzgov.Ensures("isTokenHasNoMatch held when alone", obj.IsTokenHasNoMatch() || !(vIsTokenHasNoMatch) || vContainsValidNotMatch != nil || vSpecifierDoNotMatch != nil || vContainsNextElement != nil || vCardinalityIsInvalid != nil || vContainsPrefix != nil)
	zzgov.Ensures("containsValidNotMatch held only when given", !obj.IsContainsValidNotMatch() || (vContainsValidNotMatch != nil))
	zzgov.Ensures("containsValidNotMatch held when alone", obj.IsContainsValidNotMatch() || !(vContainsValidNotMatch != nil) || vIsTokenHasNoMatch || vSpecifierDoNotMatch != nil || vContainsNextElement != nil || vCardinalityIsInvalid != nil || vContainsPrefix != nil)
	zzgov.Ensures("containsValidNotMatch as given", !obj.IsContainsValidNotMatch() || zzgov.Same(obj.ContainsValidNotMatch(), vContainsValidNotMatch))
	zzgov.Ensures("containsValidNotMatch absent unless held", obj.IsContainsValidNotMatch() == (obj.ContainsValidNotMatch() != nil))
	zzgov.Ensures("specifierDoNotMatch held only when given", !obj.IsSpecifierDoNotMatch() || (vSpecifierDoNotMatch != nil))
	zzgov.Ensures("specifierDoNotMatch held when alone", obj.IsSpecifierDoNotMatch() || !(vSpecifierDoNotMatch != nil) || vIsTokenHasNoMatch || vContainsValidNotMatch != nil || vContainsNextElement != nil || vCardinalityIsInvalid != nil || vContainsPrefix != nil)
	zzgov.Ensures("specifierDoNotMatch as given", !obj.IsSpecifierDoNotMatch() || zzgov.Same(obj.SpecifierDoNotMatch(), vSpecifierDoNotMatch))
	zzgov.Ensures("specifierDoNotMatch absent unless held", obj.IsSpecifierDoNotMatch() == (obj.SpecifierDoNotMatch() != nil))
	zzgov.Ensures("containsNextElement held only when given", !obj.IsContainsNextElement() || (vContainsNextElement != nil))
	zzgov.Ensures("containsNextElement held when alone", obj.IsContainsNextElement() || !(vContainsNextElement != nil) || vIsTokenHasNoMatch || vContainsValidNotMatch != nil || vSpecifierDoNotMatch != nil || vCardinalityIsInvalid != nil || vContainsPrefix != nil)
	zzgov.Ensures("containsNextElement as given", !obj.IsContainsNextElement() || zzgov.Same(obj.ContainsNextElement(), vContainsNextElement))
	zzgov.Ensures("containsNextElement absent unless held", obj.IsContainsNextElement() == (obj.ContainsNextElement() != nil))
	zzgov.Ensures("cardinalityIsInvalid held only when given", !obj.IsCardinalityIsInvalid() || (vCardinalityIsInvalid != nil))
	zzgov.Ensures("cardinalityIsInvalid held when alone", obj.IsCardinalityIsInvalid() || !(vCardinalityIsInvalid != nil) || vIsTokenHasNoMatch || vContainsValidNotMatch != nil || vSpecifierDoNotMatch != nil || vContainsNextElement != nil || vContainsPrefix != nil)
	zzgov.Ensures("cardinalityIsInvalid as given", !obj.IsCardinalityIsInvalid() || zzgov.Same(obj.CardinalityIsInvalid(), vCardinalityIsInvalid))
	zzgov.Ensures("cardinalityIsInvalid absent unless held", obj.IsCardinalityIsInvalid() == (obj.CardinalityIsInvalid() != nil))
	zzgov.Ensures("containsPrefix held only when given", !obj.IsContainsPrefix() || (vContainsPrefix != nil))
	zzgov.Ensures("containsPrefix held when alone", obj.IsContainsPrefix() || !(vContainsPrefix != nil) || vIsTokenHasNoMatch || vContainsValidNotMatch != nil || vSpecifierDoNotMatch != nil || vContainsNextElement != nil || vCardinalityIsInvalid != nil)
	zzgov.Ensures("containsPrefix as given", !obj.IsContainsPrefix() || zzgov.Same(obj.ContainsPrefix(), vContainsPrefix))
	zzgov.Ensures("containsPrefix absent unless held", obj.IsContainsPrefix() == (obj.ContainsPrefix() != nil))
	zzgov.Ensures("one alternative at most", !(obj.IsTokenHasNoMatch() && obj.IsContainsValidNotMatch()) && !(obj.IsTokenHasNoMatch() && obj.IsSpecifierDoNotMatch()) && !(obj.IsTokenHasNoMatch() && obj.IsContainsNextElement()) && !(obj.IsTokenHasNoMatch() && obj.IsCardinalityIsInvalid()) && !(obj.IsTokenHasNoMatch() && obj.IsContainsPrefix()) && !(obj.IsContainsValidNotMatch() && obj.IsSpecifierDoNotMatch()) && !(obj.IsContainsValidNotMatch() && obj.IsContainsNextElement()) && !(obj.IsContainsValidNotMatch() && obj.IsCardinalityIsInvalid()) && !(obj.IsContainsValidNotMatch() && obj.IsContainsPrefix()) && !(obj.IsSpecifierDoNotMatch() && obj.IsContainsNextElement()) && !(obj.IsSpecifierDoNotMatch() && obj.IsCardinalityIsInvalid()) && !(obj.IsSpecifierDoNotMatch() && obj.IsContainsPrefix()) && !(obj.IsContainsNextElement() && obj.IsCardinalityIsInvalid()) && !(obj.IsContainsNextElement() && obj.IsContainsPrefix()) && !(obj.IsCardinalityIsInvalid() && obj.IsContainsPrefix()))
}

//gov:lemma B01
func zzIndex(jIdx uint, jLine uint, jColumn uint, withIdx bool, vIdx uint, withLine bool, vLine uint, withColumn bool, vColumn uint) {
	zzgov.NoPanic()
	builder := NewIndexBuilder().WithIndex(jIdx).WithLine(jLine).WithColumn(jColumn).Create()
	if withIdx {
		builder = builder.WithIndex(vIdx)
	}
	if withLine {
		builder = builder.WithLine(vLine)
	}
	if withColumn {
		builder = builder.WithColumn(vColumn)
	}
	obj, err := builder.Now()
	ok := withIdx && int(vIdx) >= 0 && withLine && int(vLine) >= 0 && withColumn && int(vColumn) >= 0
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("idx as given", obj.Index() == vIdx)
	zzgov.Ensures("line as given", obj.Line() == vLine)
	zzgov.Ensures("column as given", obj.Column() == vColumn)
}

//gov:lemma B01
func zzMistake(jIdx Index, jPath Path, jContent Content, vIdx Index, vPath Path, vContent Content) {
	zzgov.NoPanic()
	builder := NewBuilder().WithIndex(jIdx).WithPath(jPath).WithContent(jContent).Create()
	builder = builder.WithIndex(vIdx)
	builder = builder.WithPath(vPath)
	builder = builder.WithContent(vContent)
	obj, err := builder.Now()
	ok := vIdx != nil && vPath != nil && vContent != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("idx as given", zzgov.Same(obj.Index(), vIdx))
	zzgov.Ensures("path as given", zzgov.Same(obj.Path(), vPath))
	zzgov.Ensures("content as given", zzgov.Same(obj.Content(), vContent))
}

//gov:lemma B01
func zzSpecifierDoNotMatch(jContainerName string, jCardinality cardinality.Specific, jAmount uint, vContainerName string, vCardinality cardinality.Specific, withAmount bool, vAmount uint) {
	zzgov.NoPanic()
	builder := NewSpecifierDoNotMatchBuilder().WithContainerName(jContainerName).WithCardinality(jCardinality).WithAmount(jAmount).Create()
	builder = builder.WithContainerName(vContainerName)
	builder = builder.WithCardinality(vCardinality)
	if withAmount {
		builder = builder.WithAmount(vAmount)
	}
	obj, err := builder.Now()
	ok := withAmount && int(vAmount) >= 0 && vContainerName != "" && vCardinality != nil
	zzgov.Ensures("obtained exactly when complete", (err == nil) == ok && (obj != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("amount as given", obj.Amount() == vAmount)
	zzgov.Ensures("containerName as given", obj.ContainerName() == vContainerName)
	zzgov.Ensures("cardinality as given", zzgov.Same(obj.Cardinality(), vCardinality))
}
