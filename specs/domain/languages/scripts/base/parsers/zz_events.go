//go:build go1.21

package parsers

import (
	"strconv"

	"github.com/steve-care-software/steve/applications/languages/parsers"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops P02

// zzOwn: the flags are those of distinct bits, one for each
func zzOwn(flag uint16, family uint16, bits [4]uint16, written [4]bool) bool {
	want := family
	if written[0] {
		want += bits[0]
	}
	if written[1] {
		want += bits[1]
	}
	if written[2] {
		want += bits[2]
	}
	if written[3] {
		want += bits[3]
	}
	return flag == want
}

//gov:lemma P02
func zzFlagsApart() {
	ops := [13]uint16{OpArithmetic, OpAriPlus, OpAriMinus, OpAriMultiply, OpAriDivide, OpLogical, OpLogAnd, OpLogOr, OpRelational, OpRelNot, OpRelEqual, OpRelLessThan, OpRelGreaterThan}
	sum := uint(0)
	for i := 0; i < len(ops); i++ {
		zzgov.Ensures("one bit each", ops[i] != 0 && ops[i]&(ops[i]-1) == 0)
		sum += uint(ops[i])
	}
	zzgov.Ensures("no two alike", sum == 1<<13-1)
	types := [5]uint16{uint16(TypeUnsignedFlag), uint16(TypeIntegerFlag), uint16(TypeFloatFlag), uint16(TypeStringFlag), uint16(TypeBoolFlag)}
	sum = 0
	for i := 0; i < len(types); i++ {
		zzgov.Ensures("one bit for each type", types[i] != 0 && types[i]&(types[i]-1) == 0)
		sum += uint(types[i])
	}
	zzgov.Ensures("no two types alike", sum == 1<<5-1)
}

//gov:lemma P02
func zzArithmetic(bitsize uint, root roots.Root, manager parsers.Manager) {
	zzgov.Requires(root != nil && root.Nodes() != nil)
	zzgov.NoPanic()
	nodes := root.Nodes()
	v, err := newEvents(bitsize)["operatorArithmetic"](root, manager)
	flag, ok := v.(uint16)
	zzgov.Ensures("flags", err == nil && ok)
	zzgov.Ensures("of the keywords written and the family", zzOwn(flag, OpArithmetic,
		[4]uint16{OpAriPlus, OpAriMinus, OpAriMultiply, OpAriDivide},
		[4]bool{nodes.Exists("PLUS"), nodes.Exists("MINUS"), nodes.Exists("STAR"), nodes.Exists("DIV")}))
}

//gov:lemma P02
func zzRelational(bitsize uint, root roots.Root, manager parsers.Manager) {
	zzgov.Requires(root != nil && root.Nodes() != nil)
	zzgov.NoPanic()
	nodes := root.Nodes()
	v, err := newEvents(bitsize)["operatorRelational"](root, manager)
	flag, ok := v.(uint16)
	zzgov.Ensures("flags", err == nil && ok)
	zzgov.Ensures("of the keywords written and the family", zzOwn(flag, OpRelational,
		[4]uint16{OpRelEqual, OpRelNot, OpRelLessThan, OpRelGreaterThan},
		[4]bool{nodes.Exists("EQUAL"), nodes.Exists("EXCLAMATION"), nodes.Exists("LESS"), nodes.Exists("MORE")}))
}

//gov:lemma P02
func zzLogical(bitsize uint, root roots.Root, manager parsers.Manager) {
	zzgov.Requires(root != nil && root.Nodes() != nil)
	zzgov.NoPanic()
	nodes := root.Nodes()
	v, err := newEvents(bitsize)["operatorLogical"](root, manager)
	flag, ok := v.(uint16)
	zzgov.Ensures("flags", err == nil && ok)
	zzgov.Ensures("of the keywords written and the family", zzOwn(flag, OpLogical,
		[4]uint16{OpLogAnd, OpLogOr, 0, 0},
		[4]bool{nodes.Exists("AND"), nodes.Exists("PIPE"), false, false}))
}

//gov:lemma P02
func zzPrimitiveType(bitsize uint, root roots.Root, manager parsers.Manager) {
	zzgov.Requires(root != nil && root.Nodes() != nil)
	zzgov.NoPanic()
	nodes := root.Nodes()
	v, err := newEvents(bitsize)["primitiveType"](root, manager)
	flag, ok := v.(uint8)
	zzgov.Ensures("a flag", err == nil && ok)
	zzgov.Ensures("a truth value", !nodes.Exists("BOOL") || nodes.Exists("STRING") || flag == TypeBoolFlag)
	zzgov.Ensures("a text", !nodes.Exists("STRING") || nodes.Exists("BOOL") || flag == TypeStringFlag)
}

//gov:lemma P02
func zzComputableType(bitsize uint, root roots.Root, manager parsers.Manager) {
	zzgov.Requires(root != nil && root.Nodes() != nil)
	zzgov.NoPanic()
	nodes := root.Nodes()
	v, err := newEvents(bitsize)["computableType"](root, manager)
	flag, ok := v.(uint8)
	zzgov.Ensures("a flag", err == nil && ok)
	f, u, i := nodes.Exists("FLOAT"), nodes.Exists("UINT"), nodes.Exists("INT")
	zzgov.Ensures("a float", !f || u || i || flag == TypeFloatFlag)
	zzgov.Ensures("an unsigned integer", !u || f || i || flag == TypeIntegerFlag|TypeUnsignedFlag)
	zzgov.Ensures("an integer", !i || f || u || flag == TypeIntegerFlag)
}

//gov:lemma P02
func zzCompare(flag, flag2 uint8, dept, dept2 uint) {
	zzgov.NoPanic()
	one, err := NewTypeBuilder().WithFlag(flag2).WithDept(dept2).Create().WithFlag(flag).WithDept(dept).Now()
	zzgov.Requires(err == nil)
	two, err := NewTypeBuilder().WithFlag(flag2).WithDept(dept2).Now()
	zzgov.Requires(err == nil)
	zzgov.Ensures("the same exactly when depth and flags are", (one.Compare(two) == nil) == (flag == flag2 && dept == dept2))
}

// ---- trees

func zzTexts(name string, texts ...string) roots.Node {
	list := []roots.Container{}
	for _, text := range texts {
		container, err := roots.NewContainerBuilder().WithName(name).WithContent(text).Now()
		zzgov.Requires(err == nil)
		list = append(list, container)
	}
	containers, err := roots.NewContainersBuilder().WithList(list).Now()
	zzgov.Requires(err == nil)
	node, err := roots.NewNodeBuilder().WithName(name).WithContainers(containers).Now()
	zzgov.Requires(err == nil)
	return node
}

func zzRoot(name string, nodes map[string]roots.Node) roots.Root {
	list, err := roots.NewNodesBuilder().WithNodes(nodes).Now()
	zzgov.Requires(err == nil)
	root, err := roots.NewBuilder().WithNodes(list).WithName(name).WithContent("text").Now()
	zzgov.Requires(err == nil)
	return root
}

func zzBelow(name string, root roots.Root) roots.Node {
	container, err := roots.NewContainerBuilder().WithName(name).WithContent("text").WithRoot(root).Now()
	zzgov.Requires(err == nil)
	containers, err := roots.NewContainersBuilder().WithList([]roots.Container{container}).Now()
	zzgov.Requires(err == nil)
	node, err := roots.NewNodeBuilder().WithName(name).WithContainers(containers).Now()
	zzgov.Requires(err == nil)
	return node
}

func zzManager(bitsize uint, names ...string) parsers.Manager {
	all := newEvents(bitsize)
	events := map[string][]parsers.EventFunc{"none": nil}
	for _, name := range names {
		events[name] = []parsers.EventFunc{all[name]}
	}
	m, err := parsers.NewManagerBuilder().WithEvents(events).Now()
	zzgov.Requires(err == nil)
	return m
}

// ---- literals

//gov:lemma P02
func zzIntegerLiteral(bitsize uint, text string, minus bool) {
	zzgov.Requires(text != "" && bitsize <= 64)
	nodes := map[string]roots.Node{"INT_PATTERN": zzTexts("INT_PATTERN", text)}
	if minus {
		nodes["MINUS"] = zzTexts("MINUS", "-")
	}
	root := zzRoot("intValue", nodes)
	zzgov.NoPanic()
	res, err := zzManager(bitsize, "intValue").Execute(root)
	if minus {
		want, bad := strconv.ParseInt("-"+text, 10, int(bitsize))
		zzgov.Ensures("a number exactly when one is written", (err == nil) == (bad == nil))
		if err != nil {
			return
		}
		value, ok := res.First().(Value)
		zzgov.Ensures("a value", ok)
		got, ok := value.Element().(int)
		zzgov.Ensures("as written", ok && got == int(want))
		if plain, bad := strconv.ParseUint(text, 10, 64); bad == nil {
			zzgov.Ensures("below zero", got <= 0 && uint64(-got) == plain)
		}
		zzgov.Ensures("an integer", value.Type().Flag() == TypeIntegerFlag && value.Type().Dept() == 0)
		return
	}
	want, bad := strconv.ParseUint(text, 10, int(bitsize))
	zzgov.Ensures("an unsigned number exactly when one is written", (err == nil) == (bad == nil))
	if err != nil {
		return
	}
	value, ok := res.First().(Value)
	zzgov.Ensures("a value without a sign", ok)
	got, ok := value.Element().(uint)
	zzgov.Ensures("as written", ok && got == uint(want))
	zzgov.Ensures("an unsigned integer", value.Type().Flag() == TypeIntegerFlag|TypeUnsignedFlag && value.Type().Dept() == 0)
}

//gov:lemma P02
func zzFloatLiteral(bitsize uint, whole string, fraction string, minus bool) {
	zzgov.Requires(whole != "" && fraction != "")
	nodes := map[string]roots.Node{"INT_PATTERN": zzTexts("INT_PATTERN", whole, fraction)}
	if minus {
		nodes["MINUS"] = zzTexts("MINUS", "-")
	}
	root := zzRoot("floatValue", nodes)
	zzgov.NoPanic()
	res, err := zzManager(bitsize, "floatValue").Execute(root)
	text := whole + "." + fraction
	if minus {
		text = "-" + text
	}
	want, bad := strconv.ParseFloat(text, int(bitsize))
	zzgov.Ensures("a number exactly when one is written", (err == nil) == (bad == nil))
	if err != nil {
		return
	}
	value, ok := res.First().(Value)
	zzgov.Ensures("a value", ok)
	got, ok := value.Element().(float64)
	zzgov.Ensures("as written", ok && zzgov.Same(got, want))
	zzgov.Ensures("a float", value.Type().Flag() == TypeFloatFlag && value.Type().Dept() == 0)
}

//gov:lemma P02
func zzFloatOdd(bitsize uint, one string, two string, three string, single bool) {
	zzgov.Requires(one != "" && two != "" && three != "")
	node := zzTexts("INT_PATTERN", one)
	if !single {
		node = zzTexts("INT_PATTERN", one, two, three)
	}
	root := zzRoot("floatValue", map[string]roots.Node{"INT_PATTERN": node})
	zzgov.NoPanic()
	_, err := zzManager(bitsize, "floatValue").Execute(root)
	zzgov.Ensures("a float has two parts", err != nil)
}

//gov:lemma P02
func zzTextLiteral(bitsize uint, text string) {
	zzgov.Requires(text != "")
	root := zzRoot("stringValue", map[string]roots.Node{"EVERYTHING_EXCEPT_QUOTATION": zzTexts("EVERYTHING_EXCEPT_QUOTATION", text)})
	zzgov.NoPanic()
	res, err := zzManager(bitsize, "stringValue").Execute(root)
	zzgov.Ensures("a text", err == nil)
	value, ok := res.First().(Value)
	zzgov.Ensures("a value", ok)
	got, ok := value.Element().(string)
	zzgov.Ensures("as written", ok && got == text)
	zzgov.Ensures("of its own type", value.Type().Flag() == TypeStringFlag && value.Type().Dept() == 0)
}

//gov:lemma P02
func zzTruthLiteral(bitsize uint, truth bool) {
	name := "FALSE"
	if truth {
		name = "TRUE"
	}
	root := zzRoot("boolValue", map[string]roots.Node{name: zzTexts(name, "word")})
	zzgov.NoPanic()
	res, err := zzManager(bitsize, "boolValue").Execute(root)
	zzgov.Ensures("a truth value", err == nil)
	value, ok := res.First().(Value)
	zzgov.Ensures("a value", ok)
	got, ok := value.Element().(bool)
	zzgov.Ensures("as written", ok && got == truth)
	zzgov.Ensures("of its own type", value.Type().Flag() == TypeBoolFlag && value.Type().Dept() == 0)
}

//gov:lemma P02
func zzIncrement(bitsize uint, up bool) {
	name := "MINUS"
	want := -1
	if up {
		name = "PLUS"
		want = 1
	}
	root := zzRoot("intIncrementValue", map[string]roots.Node{name: zzTexts(name, "word")})
	zzgov.NoPanic()
	res, err := zzManager(bitsize, "intIncrementValue").Execute(root)
	zzgov.Ensures("a step", err == nil)
	value, ok := res.First().(Value)
	zzgov.Ensures("a value", ok)
	got, ok := value.Element().(int)
	zzgov.Ensures("up or down by one", ok && got == want)
	zzgov.Ensures("an integer", value.Type().Flag() == TypeIntegerFlag && value.Type().Dept() == 0)
}

// ---- from the outside in: what holds a keyword passes on what the keyword is worth

func zzOperatorCase(bitsize uint, below string, word string, want uint16) {
	root := zzRoot("operator", map[string]roots.Node{below: zzBelow(below, zzRoot(below, map[string]roots.Node{word: zzTexts(word, "word")}))})
	zzgov.NoPanic()
	res, err := zzManager(bitsize, "operator", below).Execute(root)
	zzgov.Ensures("an operator", err == nil)
	got, ok := res.First().(uint16)
	zzgov.Ensures("its flags", ok && got == want)
}

//gov:lemma P02
//gov:depth 1
func zzOperatorPasses(bitsize uint, kind int) {
	switch kind {
	case 0:
		zzOperatorCase(bitsize, "operatorArithmetic", "PLUS", OpArithmetic|OpAriPlus)
	case 1:
		zzOperatorCase(bitsize, "operatorArithmetic", "MINUS", OpArithmetic|OpAriMinus)
	case 2:
		zzOperatorCase(bitsize, "operatorArithmetic", "STAR", OpArithmetic|OpAriMultiply)
	case 3:
		zzOperatorCase(bitsize, "operatorArithmetic", "DIV", OpArithmetic|OpAriDivide)
	case 4:
		zzOperatorCase(bitsize, "operatorLogical", "AND", OpLogical|OpLogAnd)
	case 5:
		zzOperatorCase(bitsize, "operatorLogical", "PIPE", OpLogical|OpLogOr)
	case 6:
		zzOperatorCase(bitsize, "operatorRelational", "EQUAL", OpRelational|OpRelEqual)
	case 7:
		zzOperatorCase(bitsize, "operatorRelational", "EXCLAMATION", OpRelational|OpRelNot)
	case 8:
		zzOperatorCase(bitsize, "operatorRelational", "LESS", OpRelational|OpRelLessThan)
	default:
		zzOperatorCase(bitsize, "operatorRelational", "MORE", OpRelational|OpRelGreaterThan)
	}
}

// a list around a type has its flag and is one level deeper
//
//gov:lemma P02
//gov:depth 2
func zzListType(bitsize uint, flag uint8, dept uint) {
	inner, err := NewTypeBuilder().WithFlag(flag).WithDept(dept).Now()
	zzgov.Requires(err == nil && dept < 1<<63)
	all := newEvents(bitsize)
	root := zzRoot("declarativeType", map[string]roots.Node{"listType": zzBelow("listType", zzRoot("listType", map[string]roots.Node{"inner": zzBelow("inner", zzRoot("inner", map[string]roots.Node{"any": zzTexts("any", "text")}))}))})
	m, err := parsers.NewManagerBuilder().WithEvents(map[string][]parsers.EventFunc{
		"declarativeType": {all["declarativeType"]},
		"listType": {func(root roots.Root, manager parsers.Manager) (interface{}, error) {
			return inner, nil
		}},
	}).Now()
	zzgov.Requires(err == nil)
	zzgov.NoPanic()
	res, err := m.Execute(root)
	zzgov.Ensures("a type", err == nil)
	got, ok := res.First().(Type)
	zzgov.Ensures("one level deeper", ok && got.Flag() == flag && got.Dept() == dept+1)
}

// what a list holds is read as a type of its own
//
//gov:lemma P02
//gov:depth 2
func zzListTypePasses(bitsize uint, flag uint8, dept uint) {
	inner, err := NewTypeBuilder().WithFlag(flag).WithDept(dept).Now()
	zzgov.Requires(err == nil)
	all := newEvents(bitsize)
	root := zzRoot("listType", map[string]roots.Node{"declarativeType": zzBelow("declarativeType", zzRoot("declarativeType", map[string]roots.Node{"any": zzTexts("any", "text")}))})
	m, err := parsers.NewManagerBuilder().WithEvents(map[string][]parsers.EventFunc{
		"listType": {all["listType"]},
		"declarativeType": {func(root roots.Root, manager parsers.Manager) (interface{}, error) {
			return inner, nil
		}},
	}).Now()
	zzgov.Requires(err == nil)
	zzgov.NoPanic()
	res, err := m.Execute(root)
	zzgov.Ensures("a type", err == nil)
	got, ok := res.First().(Type)
	zzgov.Ensures("the one held", ok && zzgov.Same(got, inner))
}

func zzTypeCase(bitsize uint, family string, word string, want uint8) {
	root := zzRoot("declarativeType", map[string]roots.Node{family: zzBelow(family, zzRoot(family, map[string]roots.Node{word: zzTexts(word, "word")}))})
	zzgov.NoPanic()
	res, err := zzManager(bitsize, "declarativeType", family).Execute(root)
	zzgov.Ensures("a type", err == nil)
	got, ok := res.First().(Type)
	zzgov.Ensures("its flag", ok && got.Flag() == want && got.Dept() == 0)
}

//gov:lemma P02
//gov:depth 2
func zzPlainType(bitsize uint, kind int) {
	switch kind {
	case 0:
		zzTypeCase(bitsize, "primitiveType", "BOOL", TypeBoolFlag)
	case 1:
		zzTypeCase(bitsize, "primitiveType", "STRING", TypeStringFlag)
	case 2:
		zzTypeCase(bitsize, "computableType", "FLOAT", TypeFloatFlag)
	case 3:
		zzTypeCase(bitsize, "computableType", "UINT", TypeIntegerFlag|TypeUnsignedFlag)
	default:
		zzTypeCase(bitsize, "computableType", "INT", TypeIntegerFlag)
	}
}

// zzWired: what was gone through is registered alone under its name
func zzWired(fix_mp map[string]parsers.EventFunc, fix_out map[string][]parsers.EventFunc, seen zzgov.Keys[string]) bool {
	return zzgov.EachKey(fix_mp, func(k string, f parsers.EventFunc) bool {
		_, made := fix_out[k]
		return !seen[k] || made && len(fix_out[k]) == 1 && zzgov.Same(fix_out[k][0], f)
	})
}

// every handler is registered, alone, under its own name
//
//gov:lemma P02
//gov:inv zzWired
func zzNewEvents(bitsize uint) {
	zzgov.NoPanic()
	events := NewEvents(bitsize)
	zzgov.Ensures("every handler is registered alone", zzgov.EachKey(newEvents(bitsize), func(k string, f parsers.EventFunc) bool {
		_, made := events[k]
		return made && len(events[k]) == 1
	}))
	_, ok := events["operatorArithmetic"]
	zzgov.Ensures("this one too", ok)
	root := zzRoot("operatorArithmetic", map[string]roots.Node{"DIV": zzTexts("DIV", "/")})
	res, err := parsers.NewApplication().Execute(root, events)
	zzgov.Ensures("a sum of its flags", err == nil && res == any(OpArithmetic|OpAriDivide))
}
