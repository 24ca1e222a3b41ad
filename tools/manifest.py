"""writes MANIFEST.json"""
import json, sys
SMT='contracts on MIR of the real code; z3 discharges every obligation (mirvc)'
C={
'C01':('proof',SMT,'Every table entry, select and the built-in conversions, for all operands; known deviations (G1/G2) excluded point by point.'),
'C02':('proof',SMT,'As C01 for the ordinal table.'),
'C03':('proof',SMT,'create/get_locales/get_locale/clone for a symbolic identifier; binary search used through its contract, its sortedness precondition proved.'),
'C04':('proof',SMT,'All ten integer conversions over their full range.'),
'C05':('proof','contracts on MIR; regular-language string domain + z3 (mirvc)','All numerals of unbounded length; std parsing and slicing through assumed contracts.'),
'C06':('proof','contracts on MIR; regular-language string domain + z3 (mirvc)','An arbitrary UTF-8 string; every path covered (automata inclusion).'),
'C07':('proof','contracts on MIR; assumed contract of float Display; z3 (mirvc)','All finite floats, through the assumed contract of Display.'),
'C08':('proof','relational contracts on MIR (sequential composition); z3 (mirvc)','Pairs of conversions composed on one symbolic number.'),
'C09':('proof',SMT,'select with an uninterpreted rule and an arbitrary conversion outcome.'),
'C10':('proof','contracts K/S on every parser function (MIR); regular-language string domain + z3 (mirvc); nom combinators by assumed contract','Every production of the strict grammar, any list lengths, blanks and numbers; induction over lists through the list rule.'),
'C11':('proof','contracts S on every parser function (MIR), relational obligation for the two entry points; regular-language string domain + z3 (mirvc)','An arbitrary UTF-8 text.'),
'C12':('proof','contracts K/S on every parser function (MIR); regular-language string domain + z3 (mirvc); nom combinators by assumed contract','Every production of the sample grammar; known finding: leading zeros of fractions.'),
'C13':('proof','contracts on the token-emitting functions (MIR): loop rule over lists of unknown length, meaning of the emitted tokens; z3 (mirvc)','Every operand x modulus x operator, value/range lists and and/or structures of any length; quote/proc_macro2 by assumed contract; the known findings are part of the contract, shape by shape. A bounded run through the real generator accompanies it.'),
'C14':('proof','contracts on the table-emitting functions (MIR): loop rule over locales of unknown number with generic names, identifiers and rules; meaning of the emitted tokens; z3 (mirvc)','Any number of locales, any subset of the categories, any conditions; serde_json, quote, sorts and unic-langid by assumed contract; conditions by the contracts of C10 and C13. A bounded run through the real generator accompanies it.'),
'C15':('proof','contracts on the generator entry point (MIR): invariant of the loop over the resources found by exhaustive exploration of its abstract states, every transition checked against the specification automaton (mirvc)','Sequences of any length of resources of every kind (version, cardinal data, ordinal data, unreadable); serde_json by assumed contract. A bounded run through the real generator accompanies it.'),
'C16':('proof','contracts on MIR of the shipped rules against the expressions generated from the shipped data; z3 discharges every path (mirvc)','Both tables, all well-formed operand sets; the generator side is the output of the real generator on the shipped files.'),
'C17':('proof','contract of main (MIR of the binary) over a ghost trace of effects: loop rule over the inputs, assumed contracts of clap, std::fs, std::io::Write, std::process; every path checked (mirvc, z3)','Any number of inputs, every failure of a call; the real tool is also run in a scratch directory under injected faults.'),
}
NA={}
exec(open('/verif/tools/manifest_extra.py').read())
m=dict(version=1,setup_cmd='bash setup.sh',checks=[],not_applicable=[])
for k in sorted(C):
    lv,tq,note=C[k]
    m['checks'].append(dict(property=k,quick_cmd='python3-vt check.py %s'%k,thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s'%k,
      evidence_file='evidence/%s.json'%k,technique=tq,level=lv,level_note=note))
for k in sorted(NA):
    m['not_applicable'].append(dict(property=k,reason=NA[k]))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
