#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
notes={}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
LN={
'C01':"AlignmentLeft/Right/Center",'C02':"visualWidth, countMatchesLength",'C03':"FormatItem, UpdateWidth, Width, NewTable",'C04':"FormatItem",
'C05':"AlignFormattedItem",'C06':"FormatHeader, padColumnHeader",'C07':"FormatItemBasic",'C08':"AddColumn, HasColumn, ColumnCount, NewTableSpec, NewTable",
'C09':"MergeRowsHorizontal, mergedRowsWidthH, compactCalcH",'C10':"MergeRowsVertical, mergedRowsWidthV, compactCalcV",'C11':"both merge functions, their helpers and TableWidth",
'C12':"both merge functions, their helpers and TableWidth",'C13':"both merge functions and their helpers",'C14':"Condition.RuneWidth, Condition.CreateLUT, inTable and the width tables",
'C15':"Condition.StringWidth, StringWidth",'C16':"StepString, NewGraphemes, Graphemes.Next, Graphemes.Runes",'C17':"StepString, transitionGraphemeState, Graphemes.Next and the rule table",
'C18':"transitionGraphemeState, property, propertySearch and the class table",'C19':"StepString, runeWidth, property, propertySearch and their tables",
'C20':"isEastAsian, IsEastAsian, handleEnv, init",'C21':"handleEnv, init, CreateLUT, Condition.CreateLUT, NewCondition",'C22':"TableWidth"}
checks=[]
for p in props:
    i=p['id']
    checks.append({"property":i,"quick_cmd":"bash check.sh "+i,"thorough_cmd":"bash check.sh "+i+" thorough",
     "technique":"contract-based deductive verification of the real code (contracts over go/ssa, verification conditions to z3 and cvc5)",
     "level":"proof",
     "level_note":"Every obligation of the contracts on "+LN[i]+" and on everything they call in the repository is generated from the current source and discharged for all inputs. Trusted: the verification condition generator /verif/vc and go/ssa, the solvers, assumed contracts on the standard library, go-lru and user-supplied interfaces (listed per run in the evidence), 64-bit arithmetic as mathematical integers. A failed obligation is replayed by a search for a failing input on the real code."})
m={"version":1,"setup_cmd":"bash tools/b.sh","checks":checks,"not_applicable":[],
 "notes":"No hooks in /repo: the contracts are kept in /verif/spec and bound to the source by name on every run. See DESIGN.md."}
open('/verif/MANIFEST.json','w').write(json.dumps(m,indent=1)+'\n')
