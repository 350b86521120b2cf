//go:build go1.21

package cardinality

import (
	"strconv"
	"strings"

	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops L01 L02

//gov:helper
func ZZHolds(min uint, max *uint, n uint) bool {
	return min <= n && (max == nil || n <= *max)
}

//gov:lemma L01
func zzKinds(kind int, n uint) {
	zzgov.Requires(kind >= 0 && kind < 4)
	zzgov.NoPanic()
	builder := NewBuilder()
	min, bounded, max := uint(0), false, uint(0)
	switch kind {
	case 0:
		builder = builder.IsOptional()
		bounded, max = true, 1
	case 1:
		builder = builder.IsMandatory()
		min, bounded, max = 1, true, 1
	case 2:
		builder = builder.IsNonZeroMultiple()
		min = 1
	default:
		builder = builder.IsZeroMultiple()
	}
	obj, err := builder.Now()
	zzgov.Ensures("obtained", err == nil && obj != nil)
	low, high := obj.Delimiter()
	zzgov.Ensures("lower bound", low == min)
	zzgov.Ensures("upper bound", (high != nil) == bounded && (!bounded || *high == max))
	zzgov.Ensures("accepts exactly the amounts within its bounds", obj.IsValid(n) == (n >= min && (!bounded || n <= max)))
}

//gov:lemma L01
func zzExact(amount uint, n uint) {
	zzgov.NoPanic()
	specific, err := NewSpecificBuilder().WithAmount(amount).Now()
	ok := amount > 0
	zzgov.Ensures("an amount of zero is refused", (err == nil) == ok && (specific != nil) == ok)
	if !ok {
		return
	}
	zzgov.Ensures("an exact amount, not a range", specific.IsAmount() && !specific.IsRange() && *specific.Amount() == amount)
	low, high := specific.Delimiter()
	zzgov.Ensures("bounds", low == amount && high != nil && *high == amount)
	zzgov.Ensures("accepts the amount only", specific.IsValid(n) == (n == amount))
	obj, err := NewBuilder().WithSpecific(specific).Now()
	zzgov.Ensures("obtained", err == nil && obj != nil)
	low, high = obj.Delimiter()
	zzgov.Ensures("bounds of the cardinality", low == amount && high != nil && *high == amount)
	zzgov.Ensures("cardinality accepts the amount only", obj.IsValid(n) == (n == amount))
}

//gov:lemma L01
func zzRanges(min uint, bounded bool, max uint, n uint) {
	zzgov.NoPanic()
	builder := NewRangeBuilder().WithMinimum(min)
	if bounded {
		builder = builder.WithMaximum(max)
	}
	rnge, err := builder.Now()
	zzgov.Ensures("range obtained", err == nil && rnge != nil)
	specific, err := NewSpecificBuilder().WithRange(rnge).Now()
	zzgov.Ensures("specific obtained", err == nil && specific != nil)
	zzgov.Ensures("a range, not an exact amount", specific.IsRange() && !specific.IsAmount() && zzgov.Same(specific.Range(), rnge))
	want := n >= min && (!bounded || n <= max)
	low, high := specific.Delimiter()
	zzgov.Ensures("bounds", low == min && (high != nil) == bounded && (!bounded || *high == max))
	zzgov.Ensures("accepts exactly the amounts within its bounds", specific.IsValid(n) == want)
	obj, err := NewBuilder().WithSpecific(specific).Now()
	zzgov.Ensures("obtained", err == nil && obj != nil)
	low, high = obj.Delimiter()
	zzgov.Ensures("bounds of the cardinality", low == min && (high != nil) == bounded && (!bounded || *high == max))
	zzgov.Ensures("cardinality accepts exactly the amounts within its bounds", obj.IsValid(n) == want)
}

//gov:lemma L01
func zzNoKind() {
	zzgov.NoPanic()
	obj, err := NewBuilder().IsOptional().IsMandatory().IsNonZeroMultiple().IsZeroMultiple().Create().Now()
	zzgov.Ensures("a cardinality without any kind is refused", err != nil && obj == nil)
	specific, err := NewSpecificBuilder().WithAmount(1).Create().Now()
	zzgov.Ensures("a specific without amount or range is refused", err != nil && specific == nil)
}

//gov:lemma L02
func zzSymbols(before, after string, kind int) {
	zzgov.Requires(strings.TrimSpace(before) == "" && strings.TrimSpace(after) == "")
	zzgov.Requires(kind >= 0 && kind < 3)
	zzgov.NoPanic()
	symbol := "+"
	if kind == 1 {
		symbol = "*"
	}
	if kind == 2 {
		symbol = "?"
	}
	obj, err := NewAdapter().ToCardinality(before + symbol + after)
	zzgov.Ensures("read", err == nil && obj != nil)
	zzgov.Ensures("as the kind written", obj.IsNonZeroMultiple() == (kind == 0) && obj.IsZeroMultiple() == (kind == 1) && obj.IsOptional() == (kind == 2) && !obj.IsMandatory() && !obj.IsSpecific())
	text, err := NewAdapter().ToPatternString(obj)
	zzgov.Ensures("regular-expression form", err == nil && text == symbol)
}

//gov:lemma L02
func zzExactNotation(before, after string, a uint) {
	zzgov.Requires(strings.TrimSpace(before) == "" && strings.TrimSpace(after) == "" && a > 0)
	zzgov.NoPanic()
	text := before + "{" + strconv.FormatUint(uint64(a), 10) + "}" + after
	specific, err := NewSpecificAdapter().ToSpecific(text)
	zzgov.Ensures("specific read", err == nil && specific != nil)
	zzgov.Ensures("kind written", specific.IsAmount() == true && specific.IsRange() == !true)
	min, max := specific.Delimiter()
	zzgov.Ensures("lowest as written", min == a)
	zzgov.Ensures("highest as written", max != nil && *max == a)
	obj, err := NewAdapter().ToCardinality(text)
	zzgov.Ensures("read", err == nil && obj != nil)
	zzgov.Ensures("as specific", obj.IsSpecific() && !obj.IsOptional() && !obj.IsMandatory() && !obj.IsNonZeroMultiple() && !obj.IsZeroMultiple())
	min, max = obj.Delimiter()
	zzgov.Ensures("lowest of the cardinality as written", min == a)
	zzgov.Ensures("highest of the cardinality as written", max != nil && *max == a)
	got, err := NewAdapter().ToPatternString(obj)
	zzgov.Ensures("regular-expression form of the same interval", err == nil && got == "{"+strconv.FormatUint(uint64(a), 10)+"}")
}

//gov:lemma L02
func zzOpenNotation(before, after, gap string, a uint) {
	zzgov.Requires(strings.TrimSpace(before) == "" && strings.TrimSpace(after) == "" && strings.TrimSpace(gap) == "" && !strings.Contains(gap, ","))
	zzgov.NoPanic()
	text := before + "{" + strconv.FormatUint(uint64(a), 10) + "," + gap + "}" + after
	specific, err := NewSpecificAdapter().ToSpecific(text)
	zzgov.Ensures("specific read", err == nil && specific != nil)
	zzgov.Ensures("kind written", specific.IsAmount() == false && specific.IsRange() == !false)
	min, max := specific.Delimiter()
	zzgov.Ensures("lowest as written", min == a)
	zzgov.Ensures("highest as written", max == nil)
	obj, err := NewAdapter().ToCardinality(text)
	zzgov.Ensures("read", err == nil && obj != nil)
	zzgov.Ensures("as specific", obj.IsSpecific() && !obj.IsOptional() && !obj.IsMandatory() && !obj.IsNonZeroMultiple() && !obj.IsZeroMultiple())
	min, max = obj.Delimiter()
	zzgov.Ensures("lowest of the cardinality as written", min == a)
	zzgov.Ensures("highest of the cardinality as written", max == nil)
	got, err := NewAdapter().ToPatternString(obj)
	zzgov.Ensures("regular-expression form of the same interval", err == nil && got == "{"+strconv.FormatUint(uint64(a), 10)+",}")
}

//gov:lemma L02
func zzClosedNotation(before, after, gap string, a, b uint) {
	zzgov.Requires(strings.TrimSpace(before) == "" && strings.TrimSpace(after) == "" && strings.TrimSpace(gap) == "" && !strings.Contains(gap, ","))
	zzgov.NoPanic()
	text := before + "{" + strconv.FormatUint(uint64(a), 10) + "," + gap + strconv.FormatUint(uint64(b), 10) + "}" + after
	specific, err := NewSpecificAdapter().ToSpecific(text)
	zzgov.Ensures("specific read", err == nil && specific != nil)
	zzgov.Ensures("kind written", specific.IsAmount() == false && specific.IsRange() == !false)
	min, max := specific.Delimiter()
	zzgov.Ensures("lowest as written", min == a)
	zzgov.Ensures("highest as written", max != nil && *max == b)
	obj, err := NewAdapter().ToCardinality(text)
	zzgov.Ensures("read", err == nil && obj != nil)
	zzgov.Ensures("as specific", obj.IsSpecific() && !obj.IsOptional() && !obj.IsMandatory() && !obj.IsNonZeroMultiple() && !obj.IsZeroMultiple())
	min, max = obj.Delimiter()
	zzgov.Ensures("lowest of the cardinality as written", min == a)
	zzgov.Ensures("highest of the cardinality as written", max != nil && *max == b)
	got, err := NewAdapter().ToPatternString(obj)
	zzgov.Ensures("regular-expression form of the same interval", err == nil && got == "{"+strconv.FormatUint(uint64(a), 10)+","+strconv.FormatUint(uint64(b), 10)+"}")
}

//gov:lemma L02
func zzBraced(inside string) {
	zzgov.NoPanic()
	zzgov.Requires(strings.TrimSpace(inside) == inside)
	obj, err := NewAdapter().ToCardinality("{" + inside + "}")
	zzgov.Ensures("answer or error", (err == nil) == (obj != nil))
	at := strings.Index(inside, ",")
	if at < 0 {
		if strings.HasPrefix(inside, "+") {
			return
		}
		n, bad := strconv.ParseUint(inside, 10, 64)
		zzgov.Ensures("an amount is read exactly when it is a number above zero", (err == nil) == (bad == nil && n > 0))
		if err == nil {
			min, max := obj.Delimiter()
			zzgov.Ensures("amount as written", min == uint(n) && max != nil && *max == uint(n))
		}
		return
	}
	first, second := inside[:at], strings.TrimSpace(inside[at+1:])
	if strings.Contains(inside[at+1:], ",") {
		zzgov.Ensures("three numbers are refused", err != nil)
		return
	}
	if strings.HasPrefix(first, "+") || strings.HasPrefix(second, "+") || strings.TrimSpace(first) != first {
		return
	}
	a, badA := strconv.ParseUint(first, 10, 64)
	if second == "" {
		zzgov.Ensures("an open range is read exactly when it begins with a number", (err == nil) == (badA == nil))
		if err == nil {
			min, max := obj.Delimiter()
			zzgov.Ensures("open range as written", min == uint(a) && max == nil)
		}
		return
	}
	b, badB := strconv.ParseUint(second, 10, 64)
	zzgov.Ensures("a range is read exactly when both are numbers", (err == nil) == (badA == nil && badB == nil))
	if err == nil {
		min, max := obj.Delimiter()
		zzgov.Ensures("range as written", min == uint(a) && max != nil && *max == uint(b))
	}
}

//gov:lemma L02
func zzAnyNotation(text string) {
	zzgov.NoPanic()
	obj, err := NewAdapter().ToCardinality(text)
	zzgov.Ensures("an answer or an error", (err == nil) == (obj != nil))
	specific, err := NewSpecificAdapter().ToSpecific(text)
	zzgov.Ensures("a specific or an error", (err == nil) == (specific != nil))
}

// ZZWell says a cardinality is of one of the kinds a builder makes.
//
//gov:helper
func ZZWell(obj Cardinality) bool {
	if obj == nil {
		return false
	}
	if obj.IsOptional() || obj.IsMandatory() || obj.IsNonZeroMultiple() || obj.IsZeroMultiple() {
		return true
	}
	return obj.IsSpecific() && obj.Specific() != nil && (obj.Specific().IsAmount() || obj.Specific().IsRange())
}

// ZZLowest is the fewest times a cardinality allows.
//
//gov:ghost
func ZZLowest(obj Cardinality) uint {
	if obj.IsOptional() || (!obj.IsMandatory() && !obj.IsNonZeroMultiple() && obj.IsZeroMultiple()) {
		return 0
	}
	if obj.IsMandatory() || obj.IsNonZeroMultiple() {
		return 1
	}
	if obj.Specific().IsAmount() {
		return *obj.Specific().Amount()
	}
	return obj.Specific().Range().Min()
}

// ZZUnbounded says a cardinality has no highest amount.
//
//gov:ghost
func ZZUnbounded(obj Cardinality) bool {
	if obj.IsOptional() || obj.IsMandatory() {
		return false
	}
	if obj.IsNonZeroMultiple() || obj.IsZeroMultiple() {
		return true
	}
	return !obj.Specific().IsAmount() && obj.Specific().Range().Max() == nil
}

// ZZHighest is the most times a bounded cardinality allows.
//
//gov:ghost
func ZZHighest(obj Cardinality) uint {
	if ZZUnbounded(obj) {
		return 0
	}
	if obj.IsOptional() || obj.IsMandatory() {
		return 1
	}
	if obj.Specific().IsAmount() {
		return *obj.Specific().Amount()
	}
	return *obj.Specific().Range().Max()
}

//gov:contract Cardinality.Delimiter
//gov:prop L01
//gov:use
func zzDelimiter(obj Cardinality) func(min uint, max *uint) {
	zzgov.Requires(ZZWell(obj))
	zzgov.NoPanic()
	return func(min uint, max *uint) {
		zzgov.Ensures("lowest", min == ZZLowest(obj))
		zzgov.Ensures("no highest", (max == nil) == ZZUnbounded(obj))
		zzgov.Ensures("highest", max == nil || *max == ZZHighest(obj))
	}
}

//gov:contract Cardinality.IsValid
//gov:prop L01
//gov:use
func zzIsValid(obj Cardinality, amount uint) func(ok bool) {
	zzgov.Requires(ZZWell(obj))
	zzgov.NoPanic()
	return func(ok bool) {
		zzgov.Ensures("within the bounds", ok == (amount >= ZZLowest(obj) && (ZZUnbounded(obj) || amount <= ZZHighest(obj))))
	}
}
