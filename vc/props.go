package main

import "strings"

// What each property is made of: the contracts that state it (own), with the
// clauses tagged for other properties left out.

type propDef struct {
	id   string
	own  []string
	fall []string // functions users call, checked with the helpers in place if a helper's contract fails
}

const tT = "table.(*Table)."

var mergeOwn = []string{tT + "MergeRowsHorizontal", tT + "MergeRowsVertical", tT + "mergedRowsWidthH", tT + "mergedRowsWidthV", tT + "compactCalcH", tT + "compactCalcV"}
var hOwn = []string{tT + "MergeRowsHorizontal", tT + "mergedRowsWidthH", tT + "compactCalcH"}
var vOwn = []string{tT + "MergeRowsVertical", tT + "mergedRowsWidthV", tT + "compactCalcV"}

var aligners = []string{"table.AlignmentLeft", "table.AlignmentRight", "table.AlignmentCenter"}

var propDefs = []propDef{
	{"C01", []string{"table.AlignmentLeft", "table.AlignmentRight", "table.AlignmentCenter"}, nil},
	{"C02", []string{"table.visualWidth", "table.countMatchesLength", "table.init"}, aligners},
	{"C03", []string{tT + "FormatItem", tT + "UpdateWidth", tT + "Width", "table.NewTable"}, nil},
	{"C04", []string{tT + "FormatItem"}, nil},
	{"C05", []string{tT + "AlignFormattedItem"}, nil},
	{"C06", []string{tT + "FormatHeader", tT + "padColumnHeader"}, nil},
	{"C07", []string{tT + "FormatItemBasic"}, nil},
	{"C08", []string{"table.(*TableSpec).AddColumn", "table.(*TableSpec).HasColumn", "table.(*TableSpec).ColumnCount", "table.NewTableSpec", "table.NewTable"}, nil},
	{"C09", hOwn, nil},
	{"C10", vOwn, nil},
	{"C11", append(mergeOwn[:6:6], tT+"TableWidth"), nil},
	{"C12", append(mergeOwn[:6:6], tT+"TableWidth"), nil},
	{"C13", mergeOwn, nil},
	{"C14", []string{"runewidth.(*Condition).RuneWidth", "runewidth.(*Condition).CreateLUT", "runewidth.inTable"}, nil},
	{"C15", []string{"runewidth.(*Condition).StringWidth", "runewidth.StringWidth"}, nil},
	{"C16", []string{"uniseg.StepString", "uniseg.NewGraphemes", "uniseg.(*Graphemes).Next", "uniseg.(*Graphemes).Runes"}, nil},
	{"C17", []string{"uniseg.StepString", "uniseg.transitionGraphemeState", "uniseg.(*Graphemes).Next", "lemma.run_rel", "lemma.run_uax", "lemma.run_restart", "lemma.brk_start"}, nil},
	{"C18", []string{"uniseg.StepString", "uniseg.transitionGraphemeState", "uniseg.property", "uniseg.propertySearch[[3]int]"}, nil},
	{"C19", []string{"uniseg.StepString", "uniseg.runeWidth", "uniseg.property", "uniseg.propertySearch[[3]int]"}, nil},
	{"C20", []string{"runewidth.isEastAsian", "runewidth.IsEastAsian", "runewidth.handleEnv", "runewidth.init#1", "runewidth.init"}, nil},
	{"C21", []string{"runewidth.handleEnv", "runewidth.init#1", "runewidth.init", "runewidth.CreateLUT", "runewidth.(*Condition).CreateLUT", "runewidth.NewCondition"}, nil},
	{"C22", []string{tT + "TableWidth"}, nil},
}

// properties that memory safety, termination and frame obligations of a
// function belong to; all its owners where nothing is said
var safetyOf = map[string][]string{
	tT + "MergeRowsHorizontal": {"C13"}, tT + "MergeRowsVertical": {"C13"},
	tT + "mergedRowsWidthH": {"C13"}, tT + "mergedRowsWidthV": {"C13"}, tT + "compactCalcH": {"C13"}, tT + "compactCalcV": {"C13"},
	"uniseg.StepString": {"C16"}, "uniseg.(*Graphemes).Next": {"C16"},
}

func propByID(id string) *propDef {
	for i := range propDefs {
		if propDefs[i].id == id {
			return &propDefs[i]
		}
	}
	return nil
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// concerns: does a failed obligation of fn concern the property?
func (p *propDef) concerns(fn string, o *Obl) bool {
	if len(o.Tags) > 0 {
		return has(o.Tags, p.id)
	}
	switch o.Kind {
	case "safety", "termination", "frame":
		if s, ok := safetyOf[fn]; ok {
			return has(s, p.id)
		}
	}
	return true
}

// isRoot: users can call the function (or it runs at start-up), so its contract
// is part of the property; other contracts are means to an end.
func isRoot(key string) bool {
	n := key[strings.LastIndexByte(key, '.')+1:]
	return strings.HasPrefix(n, "init#") || n != "" && n[0] >= 'A' && n[0] <= 'Z'
}
