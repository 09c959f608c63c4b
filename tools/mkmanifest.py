"""Writes MANIFEST.json from the table of checks below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UB = 'UBSan-instrumented execution (gcc and clang) with '
NOTE = 'Held on the executions observed, which the evidence file counts; trusts the compilers, the sanitizers and 128-bit integer arithmetic of the oracle. '
T = {
'C01': (UB + 'an exact 128-bit reference oracle over generated operand types, ranges and values', 'Exhaustive over 8-bit operand pairs and small ranges, boundary-biased random otherwise; floating point is out of scope.'),
'C02': (UB + 'an exact 128-bit reference oracle over generated ranges under automatic promotion', 'As C01, over generated declared ranges.'),
'C03': (UB + 'an exact reference oracle for shifts and bitwise operators', 'As C01.'),
'C04': ('oracle on the occurrence and code of every reported error over generated operands', 'Success is demanded where operands and the exact result are representable in the result type (native) or 64 bits (automatic).'),
'C05': ('run-time log of result types compared with the language rules / range representability', 'Result types are read from the compiled expression and compared with the type of the built-in expression (native) or with all observed results (automatic).'),
'C06': ('invariant monitor on every intermediate object of random expression programs', 'Declared range read from numeric_limits; expressions are generated, values boundary-biased.'),
'C07': (UB + 'a reference oracle for conversions between all type pairs', 'Exhaustive for 8-bit sources.'),
'C08': (UB + 'a mathematical comparison oracle', 'Exhaustive for 8-bit pairs and small ranges.'),
'C09': ('online invariant monitor and shadow-variable model over random histories of one object', 'Histories of bounded length.'),
'C10': (UB + 'an exact reference oracle on the primitive checked operations', 'Exhaustive over 8-bit operands.'),
'C11': (UB + 'a bit-counting reference oracle', 'Exhaustive for small widths.'),
'C12': (UB + 'an extended-number reference model of checked results', 'Infinite dividends of a remainder are not judged.'),
'C13': (UB + 'membership sampling of interval results against exact arithmetic', 'Bounds are compared with the exact hull; operands sampled at corners and inside.'),
'C14': ('action-recording policies: monitor of which policy member runs for which error, and of the value after an ignored one', 'All eight error codes, all built-in policies and recording policies; with and without language support for exceptions.'),
'C15': ('self-registering error actions: which checks are compiled into an operation, against exhaustive/boundary execution of that operation', 'An action registers itself at start-up exactly when the operation instantiates it.'),
'C16': ('fault-injecting stream buffers and a reference parser', 'Every failure point of a quarter of the generated texts; number bases, digit grouping and unskipped white space compared with built-in reads.'),
'C17': ('run-time log of result types and values compared with an emulator of the configured platform', 'Sampled configurations.'),
'C18': ('differential execution of constant evaluation and run time in two compilers at several optimisation levels', 'Both compilers could share a misinterpretation.'),
'C19': ('identity monitor over error codes exchanged between translation units', 'All codes and conditions; several unit and link configurations.'),
'C20': ('ThreadSanitizer and per-thread result logs compared with a sequential replay', 'Sampled schedules.'),
'C21': ('reference oracle on numeric_limits, literals and storage of generated types', 'Sampled constants and ranges, all base types.'),
'C22': ('offline checker over event logs of generated programs: every stored value and reported error against an independent interpreter', 'Programs of the fragment DESIGN.md lists; the same programs over built-in types validate the interpreter on every run.'),
'C23': (UB + 'an exact reference oracle, and run-time log of result types, under generated promotion policies', 'Bitwise operators are judged where both operands fit the type chosen by the policy.'),
'C24': (UB + 'comparison of every printed text with one formatted independently from 128-bit integers', 'Negative numbers are printed in decimal; classic locale.'),
}
sys.path.insert(0, ROOT)
src = open(os.path.join(ROOT, 'check.py')).read()
have = [p for p in sorted(T) if "'%s'" % p in src]
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {p: 'not built yet: runtime monitoring applies, the check is under construction' for p in props if p not in have}
m = dict(version=1, setup_cmd='python3 tools/setup.py',
  checks=[dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p, technique=T[p][0], level='exploration', level_note=NOTE + T[p][1]) for p in have],
  not_applicable=[dict(property=p, reason=r) for p, r in NA.items()])
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(have, list(NA))
