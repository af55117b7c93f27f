#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the list below (one property per entry).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Alignment pads with exactly the missing cells and never alters the text",
 "For every string and every width from 0 to 65535, the left, right and center alignments return the string itself if its visual width is at least the requested width, and otherwise the unchanged string with exactly (width - visual width) ASCII spaces added. Left alignment puts all spaces after the text, right alignment all before it, and center alignment puts the larger half (rounded up) before and the rest after.",
 ["inputs"], "all byte strings (colored, CJK, emoji, invalid UTF-8, empty, wider than 65535 cells) and all 65536 widths",
 "TestAlign checks 6 calls with one width (11) and two texts of the same visual width; no parity of the padding, no text at or beyond the width.",
 ["alignment.go", "width.go"],
 [("AlignmentLeft, AlignmentRight, AlignmentCenter", "alignment.go"), ("visualWidth", "width.go")],
 observe=["return value of the three exported alignment functions"])

prop("C02", "Visual width counts visible cells only, in every measuring history",
 "The visual width the library uses for a string is its display width (see C15) minus the visible characters that belong to ANSI escape sequences (ESC or U+009B, then any of [ ( ) # ; ?, optional numeric parameters of 1-4 digits separated by ;, and one final character out of 0-9 A-O R Z c f-n q r y = > <), each match found leftmost-first and non-overlapping, and is capped at 65535. It is the same however many and whichever strings were measured before (while the width configuration is unchanged): caching never changes a result.",
 ["inputs", "histories"], "all byte strings; all sequences of earlier measurements, including more distinct strings than the cache holds",
 "Test_visualWidth measures 25 fixed strings once each, all colored with ESC[...m; no other escape sequence, no U+009B, no second measurement of a string, no eviction.",
 ["width.go", "runewidth/runewidth.go"],
 [("visualWidth and its LRU cache", "width.go"), ("countMatchesLength", "width.go"), ("ansiEscapeRE", "width.go")],
 state=[("widthCache", "already measured strings and their widths", "width.go")],
 observe=["padding added by the alignments", "column widths after formatting an item"])

prop("C03", "Recorded column widths are the maximum of everything seen",
 "A column's recorded width starts at 0, after formatting an item without error is the maximum of its previous value and the visual widths of the cells formatted for columns of that name, and after an explicit width update is the maximum of its previous value and the given one. No operation lowers a recorded width or changes the width of a column it does not concern.",
 ["histories", "inputs"], "all tables, items and sequences of formatting and updating operations, including columns sharing a name and getters that fail midway",
 "No existing test formats an item or updates a width at all.",
 ["table.go"],
 [("FormatItem", "table.go"), ("UpdateWidth", "table.go"), ("Width", "table.go")],
 state=[("columnWidth", "recorded width by column name", "table.go")],
 observe=["Table.Width", "Table.TableWidth"])

prop("C04", "Formatting an item yields each column's formatted value in column order",
 "Formatting an item returns exactly one string per column, in column order, each being what that column's getter formats for the value that same getter extracts from the item. If any getter fails, the result is nil and the error of the first failing column is returned, unchanged.",
 ["inputs"], "all column lists, items and (deterministic) getters, including every combination of failing getters",
 "No existing test calls the formatting functions.",
 ["table.go", "table_iface.go"],
 [("FormatItem", "table.go"), ("Getter interface", "table_iface.go")],
 observe=["return values of Table.FormatItem"])

prop("C05", "Aligning a row aligns every cell to its own column and touches nothing else",
 "Aligning a formatted row whose length is the number of columns returns that row with each cell replaced by its column's alignment applied to the cell and the column's recorded width, and leaves cells of columns without alignment as they were. A row of any other length is rejected with an error, a nil result and no change to the row.",
 ["inputs"], "all column lists (with and without alignment, duplicate names), recorded widths and rows",
 "No existing test aligns a row.",
 ["table.go", "alignment.go"],
 [("AlignFormattedItem", "table.go")], observe=["return value and argument of Table.AlignFormattedItem"])

prop("C06", "Header cells are centered to their column width and never overflow it",
 "The header is the concatenation, in column order, of one cell and the separator per column, followed by a newline. The cell of a column with recorded width 0 is its title as is; otherwise it is the title if its visual width fits in the recorded width, else the short title if that fits, else empty, centered to the recorded width.",
 ["inputs"], "all column lists, titles, recorded widths and separators",
 "No existing test formats a header.",
 ["table.go", "alignment.go"], [("FormatHeader, padColumnHeader", "table.go")], observe=["Table.FormatHeader"])

prop("C07", "Basic formatting joins all column values with the separator",
 "Basic (non-tabular) formatting of an item returns the columns' value strings, obtained with each column's own name, in column order with the separator between consecutive values and nowhere else. If a getter fails, the result is empty and the error of the first failing column is returned, unchanged.",
 ["inputs"], "all column lists, items, separators and (deterministic) getters, including empty values and failing getters",
 "No existing test calls it.",
 ["table.go"], [("FormatItemBasic", "table.go")], observe=["Table.FormatItemBasic"])

prop("C08", "Columns keep their order and are found by name",
 "Adding a column appends it after all earlier ones, which stay as they were, increases the column count by one, and makes exactly that name additionally known; the last column added under a name is the one found by it. A new specification has no columns, and a new table shows the columns of the given specification (or of an empty one if none is given) with all recorded widths 0.",
 ["histories", "inputs"], "all sequences of column additions, including repeated names",
 "No existing test builds a table.",
 ["table.go"], [("AddColumn, HasColumn, ColumnCount, NewTableSpec, NewTable", "table.go")],
 state=[("Columns, ColumnByName", "ordered columns and index by name", "table.go")],
 observe=["TableSpec.Columns, TableSpec.ColumnByName, HasColumn, ColumnCount"])

prop("C09", "Horizontal merging prints every item exactly once, in reading order",
 "Merging rows horizontally writes the items in list order from left to right, top to bottom: there is a number g >= 1 of items per line such that line i (counting from 0) holds the items i*g up to the smaller of (i+1)*g and the list length, every line holds at least one item, and each is ended by a newline. An item is its cells aligned by their columns (left if the column has no alignment), to the recorded column width or the compact width of C12, and joined by one space; items in a line are joined by the separator, and a line with fewer than g items ends with one more separator.",
 ["inputs", "configurations"], "all lists (also empty), column lists, widths, separators and both compact settings, with any deterministic alignment functions",
 "No existing test merges rows.",
 ["horizontal.go", "alignment.go"], [("MergeRowsHorizontal", "horizontal.go")], observe=["bytes written to the io.Writer"])

prop("C10", "Vertical merging prints every item exactly once, column by column",
 "Merging rows vertically writes the items in list order from top to bottom, then left to right: there is a number g >= 1 such that, with n items, exactly h = ceil(n/g) lines are written and line i (counting from 0) holds, from left to right, the items i, i+h, i+2h, ... below n, ended by a newline. Items and lines are put together as in horizontal merging (C09), a line with fewer than g items ending with one more separator.",
 ["inputs", "configurations"], "all lists (also empty), column lists, widths, separators and both compact settings, with any deterministic alignment functions",
 "No existing test merges rows.",
 ["vertical.go", "alignment.go"], [("MergeRowsVertical", "vertical.go")], observe=["bytes written to the io.Writer"])

prop("C11", "Merged lines that hold more than one item fit the maximum width",
 "When rows of a table with at least one column are merged (in either direction, compact or not) and lines may hold more than one item, the padded widths of the cells of any line, plus one for each space between cells and the separator's byte length for each separator, add up to at most the maximum width (a negative one counting as 0, one above 65535 as 65535). This presumes that no cell is wider than its column's recorded width, as is the case for rows formatted by the same table.",
 ["inputs", "configurations"], "all lists, recorded widths, maximum widths (also negative and above 65535) and separators (also empty)",
 "No existing test merges rows; overflow of 16-bit sums and the empty separator need specific sizes.",
 ["horizontal.go", "vertical.go", "table.go"],
 [("groupCount computation", "horizontal.go, vertical.go"), ("compactCalcH, compactCalcV", "horizontal.go, vertical.go"), ("TableWidth", "table.go")],
 observe=["visual width of the written lines"])

prop("C12", "Merging fills the lines, and compact columns are exactly as wide as needed",
 "Without compacting, the number of items per line is the largest that fits the maximum width at the recorded column widths, but at least one, and one if items have no width at all and any number would fit. With compacting it is increased from there as long as one more item per line is not more than the list holds, still fits with each line position's columns only as wide as its widest cell there, and (merging vertically) leaves no empty column at the right; if it was increased at all, each cell is padded to exactly the widest cell of its column at its line position.",
 ["inputs", "configurations"], "all lists, recorded widths, maximum widths and separators, both directions and compact settings",
 "No existing test merges rows.",
 ["horizontal.go", "vertical.go", "table.go"],
 [("groupCount computation", "horizontal.go, vertical.go"), ("mergedRowsWidthH, mergedRowsWidthV", "horizontal.go, vertical.go"), ("compactCalcH, compactCalcV", "horizontal.go, vertical.go")],
 observe=["bytes written to the io.Writer"])

prop("C13", "Merging always ends, does not crash, and never hides a write error",
 "For every table, list (also empty, also without columns), maximum width and separator (also empty), merging rows in either direction ends after finitely many steps and does not panic, as long as every row has at least one cell per column and the writer accepts what is written. If the writer fails, merging panics with the writer's error and does not return normally; it never modifies the table or the rows it is given.",
 ["inputs", "configurations", "fault_sequences"], "all inputs and every position at which the writer can fail",
 "No existing test merges rows; the hanging and crashing inputs are corner cases (no columns, empty separator, widths at the 16-bit limit).",
 ["horizontal.go", "vertical.go"],
 [("MergeRowsHorizontal, MergeRowsVertical and the compact search", "horizontal.go, vertical.go")],
 observe=["termination, panics, effects on the arguments"])

prop("C14", "Every code point has the documented cell width, with and without lookup table",
 "For every 32-bit value and each setting of the two width options, the rune width is 0 outside 0..U+10FFFF and for non-printing and combining characters, 2 for double-width characters (in East Asian mode also for ambiguous ones and, if strict emoji neutrality is off, for emoji), and 1 for all others and for narrow characters. Creating the lookup table, at any time and any number of times, never changes the width of any code point under the options in force when it was last created.",
 ["inputs", "configurations", "histories"], "all 2^32 rune values, all option settings, all histories of option changes each followed by table creation",
 "The checksum tests cover valid code points with strict emoji neutrality on only, the other tests 28 code points; no invalid values, no lookup table with strictness off, no re-creation after a change of options other than through the environment.",
 ["runewidth/runewidth.go", "runewidth/runewidth_table.go"],
 [("RuneWidth", "runewidth/runewidth.go"), ("inTable, inTables", "runewidth/runewidth.go"), ("CreateLUT", "runewidth/runewidth.go")],
 state=[("combinedLut", "packed widths of all code points", "runewidth/runewidth.go")],
 observe=["Condition.RuneWidth before and after Condition.CreateLUT"])

prop("C15", "Display width is the sum over grapheme clusters of the first visible rune",
 "The display width of a string is the sum, over its grapheme clusters, of the width of the first code point in the cluster whose width is not zero (0 if there is none). This holds for every byte string, including invalid UTF-8, and for every width condition; the package-level function uses the default condition.",
 ["inputs", "configurations"], "all byte strings and width conditions",
 "The existing tests measure about 15 strings.",
 ["runewidth/runewidth.go", "runewidth/uniseg/grapheme.go", "runewidth/uniseg/step.go"],
 [("StringWidth", "runewidth/runewidth.go"), ("Graphemes", "runewidth/uniseg/grapheme.go")],
 observe=["Condition.StringWidth, StringWidth"])

prop("C16", "Grapheme iteration splits any string into non-empty pieces without loss",
 "Iterating over the grapheme clusters of any byte string ends after finitely many steps, yields only non-empty clusters, and the clusters' bytes concatenated in order are the string; stepping through the string by hand with the state returned by each step gives the same clusters. No input makes it panic, and the code points reported for a cluster are those of its bytes.",
 ["inputs", "histories"], "all byte strings including invalid and truncated UTF-8, and all iteration prefixes",
 "No existing test covers the segmentation package directly; it is only exercised through about 15 width measurements.",
 ["runewidth/uniseg/step.go", "runewidth/uniseg/grapheme.go"],
 [("StepString", "runewidth/uniseg/step.go"), ("Graphemes.Next, Graphemes.Runes", "runewidth/uniseg/grapheme.go")],
 state=[("Graphemes", "remaining input, current cluster and parser state", "runewidth/uniseg/grapheme.go")],
 observe=["uniseg.StepString, uniseg.Graphemes"])

prop("C17", "Grapheme boundaries follow UAX #29 for every sequence of code points",
 "Between any two code points of any string (an invalid byte counts as one U+FFFD) there is a cluster boundary exactly when the extended grapheme cluster rules GB3 to GB999 of UAX #29 (Unicode 14) say so, looking at the whole text before the position: CR LF, Hangul syllables, Extend, ZWJ, SpacingMark, Prepend, emoji ZWJ sequences, and regional indicators paired from the start of their run.",
 ["inputs"], "all strings (all sequences of grapheme classes of any length)",
 "Existing tests reach 9 ZWJ strings; none has Hangul jamo, Prepend, regional indicators, CR LF or long runs.",
 ["runewidth/uniseg/graphemerules.go", "runewidth/uniseg/step.go"],
 [("grTransitions, transitionGraphemeState", "runewidth/uniseg/graphemerules.go"), ("StepString", "runewidth/uniseg/step.go")],
 state=[("parser state", "what the rules need to remember of the text before a position", "runewidth/uniseg/graphemerules.go")],
 observe=["uniseg.StepString, uniseg.Graphemes"])

prop("C18", "Every code point has its Unicode 14 grapheme class",
 "For every code point, the grapheme class that decides about cluster boundaries is its Grapheme_Cluster_Break value in Unicode 14.0, or Extended_Pictographic if it has that property; looking it up never panics or loops for any 32-bit value.",
 ["inputs"], "all code points and all other 32-bit values",
 "Existing tests look up a few dozen code points and have no checksum for these tables.",
 ["runewidth/uniseg/graphemeproperties.go", "runewidth/uniseg/properties.go"],
 [("graphemeCodePoints", "runewidth/uniseg/graphemeproperties.go"), ("propertySearch, property", "runewidth/uniseg/properties.go")],
 observe=["cluster boundaries of two-code-point strings"])

prop("C19", "The width reported with a cluster follows the documented rules",
 "The monospace width that a grapheme step reports for a cluster starts with the width of its first code point (0 for Control, CR, LF, Extend, ZWJ; 2 for regional indicators, for pictographs with emoji presentation and for East Asian wide or full-width characters of Unicode 14; 3 for U+2E3A, 4 for U+2E3B; 1 otherwise). Each further code point sets it to 2 if it is U+FE0F; otherwise, in clusters beginning with a pictograph, sets it to 1 if it is U+FE0E and to 2 if not, leaves it in clusters beginning with a regional indicator or Hangul leading consonant, and adds its own width in all other clusters.",
 ["inputs"], "all byte strings and all parser states returned by an earlier step (or none)",
 "No existing test looks at the width reported by a step.",
 ["runewidth/uniseg/width.go", "runewidth/uniseg/step.go", "runewidth/uniseg/eastasianwidth.go", "runewidth/uniseg/emojipresentation.go"],
 [("runeWidth", "runewidth/uniseg/width.go"), ("StepString", "runewidth/uniseg/step.go")],
 observe=["third result of uniseg.StepString, shifted right by ShiftWidth"])

prop("C20", "East Asian mode is derived from the environment as documented",
 "East Asian mode is on exactly if RUNEWIDTH_EASTASIAN is 1, or is unset or empty and the locale - the first non-empty one of LC_ALL, LC_CTYPE, LANG - is not C, POSIX or starting with C. or C-, and its charset (the part after the dot of a language[_TERRITORY].charset locale, otherwise the whole of it, in lower case and without @modifier) is a known multi-byte charset that does not start with u, or is one that does and the locale starts with ja, ko or zh; a charset with modifier ending in @cjk_narrow turns it off. Evaluating any locale string never panics.",
 ["inputs", "configurations"], "all values of the four environment variables (POSIX systems)",
 "Existing tests try 4 locale strings and about 10 settings of one variable at a time; precedence between variables is not tested.",
 ["runewidth/runewidth_posix.go", "runewidth/runewidth.go"],
 [("isEastAsian, IsEastAsian", "runewidth/runewidth_posix.go"), ("handleEnv", "runewidth/runewidth.go")],
 observe=["runewidth.IsEastAsian, runewidth.EastAsianWidth at start-up"])

prop("C21", "The default width condition always agrees with the detected mode",
 "After the environment has been evaluated, the default condition's East Asian option equals the detected mode and its widths are those of that mode, whether or not a lookup table had been created before, and a lookup table that existed still exists. Creating a default lookup table when there is one changes nothing, and a new condition takes both options from the package settings and has no lookup table. When the program starts, the default condition's East Asian option is the detected mode, and the strict emoji option is on, both in the package settings and in the default condition.",
 ["histories", "configurations"], "all histories of evaluating the environment and creating lookup tables",
 "TestDefaultLUT follows one history (0 after 1 with a table); no history without table, or with repeated evaluation in the same mode.",
 ["runewidth/runewidth.go"],
 [("handleEnv, CreateLUT, NewCondition", "runewidth/runewidth.go")],
 state=[("DefaultCondition", "condition used by the package-level functions", "runewidth/runewidth.go"), ("EastAsianWidth", "detected mode", "runewidth/runewidth.go")],
 observe=["runewidth.DefaultCondition, runewidth.StringWidth"])

prop("C22", "Table width is the sum of column widths and margins, capped",
 "The total width of a table for a given margin is the sum of its columns' recorded widths plus the margin between each two neighbouring columns, 0 without columns, and 65535 if the sum is larger.",
 ["inputs"], "all column lists, recorded widths and margins",
 "No existing test calls it.",
 ["table.go"], [("TableWidth", "table.go")], observe=["Table.TableWidth"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
