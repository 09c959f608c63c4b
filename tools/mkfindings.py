"""Writes known_findings.json. 'findings' are defects that are recorded, not repaired; 'fixed' suppress nothing."""
import json, os
F = []   # dict(id, property, match, what)
FIXED = [
('C01', '576ff5e', 'safe literal operands: when converting an operand failed, the fallback converted the safe operand again, reporting twice or not compiling'),
('C06', '7b962ac', 'safe_signed_range<0,100> % 7 declared the range 0..2; automatic chose a type too small for the remainder'),
('C04', '8fac84c', 'automatic: [1000,1010] - [1000,1010] always reported an error; [0,10] / [100,1000] divided by a truncated divisor'),
('C06', 'ae01e87', 'safe<int>(-7) | 4 held -3 in a type declared to be non-negative'),
('C03', 'cd97ce9', 'shifts with negative counts, negative values or a count equal to the width executed unchecked'),
('C14', 'ceaa92c', 'subtraction whose error is ignored returned the sum'),
('C01', 'b962fa2', 'checked modulus MIN % MIN reported an overflow'),
('C07', '92c0510', 'an unsigned value below the minimum of the target was reported as positive overflow'),
('C13', '10df3ab', 'intersect() said that disjoint intervals intersect'),
('C19', 'bcdea8e', 'precision_overflow_error matched no error condition'),
('C12', 'b2a5e26', 'right shift of exceptional checked results had the wrong sign'),
('C12', 'd57aa82', 'checked_result operator~ and converting constructor did not compile'),
('C01', 'cf37aeb', 'division executed unchecked with an operand that does not fit the result type'),
('C17', 'a4e44cd', 'cpp policy: the type of the shift count contributed to the type of a shift result'),
('C14', 'd0cb9d8', 'a conversion whose error is ignored yielded part of the address of the error message'),
('C16', 'ca4435d', 'stream input stored out of range values and values of failed reads'),
('C19', 'e351cbf', 'error codes of different translation units did not compare equal'),
('C03', '3782928', 'MIN % -1 trapped on the path without a check'),
('C06', '6472702', 'range of a right shift whose count may be negative was 0..0'),
('C12', '76d59b4', 'left shift of negative checked results: int8 -64<<1 overflowed and negative << -infinity'),
('C15', 'fef6c1a', 'conversion of a safe value to a built-in type ignored the declared range when deciding whether to check'),
('C16', '6a4a0cc', 'safe<char> was written as an integer but read as a character'),
('C17', 'd7b5413', 'cpp policy: signed operand of higher rank with an unsigned one it cannot represent (long long + unsigned long) did not compile'),
('C17', '8ccda0a', 'cpp policy: -x and ~x had a type of the host (int) instead of the promoted type of the emulated platform'),
    ('C23', '1eca204', 'a user-supplied policy with a division or modulus type narrower than the operands: quotient and remainder were silently truncated to it'),
    ('C23', '037d143', 'a user-supplied policy with a bitwise type that cannot hold the operands: declared range of |, ^ and & was empty or wrong'),
('C07', '3b3018a', 'an enumerator or object converting to an integer initialised or was assigned to a safe object unchecked: safe<int8_t>(enumerator 300) held 44'),
('C01', '2d80b5c', 'operators with an enumerator or object converting to an integer used the built-in operator: INT_MAX + enumerator overflowed, safe<unsigned long long> + enumerator wrapped, a range compared unequal to its value'),
('C24', 'ca3dfd3', 'printing a checked result or an interval of them to a wide stream did not compile'),
('C24', 'd9b58dc', 'checked_result<unsigned char> was printed as a character, checked_result<signed char> as a number'),
('C19','2cdc259','an error code could not be compared with the enumerators of safe_numerics_actions: no make_error_condition'),
('C10','e5fa9e4','checked::less_than, equal and the other comparisons did not compile for any type; the default equal was less_than'),
('C14','f172084','exception_policies.hpp was not valid C++ in programs built without exceptions'),
('C16','e1c8989','reading an unsigned safe value skipped white space although the stream was told not to'),
('C22','db866b3','with using namespace boost::safe_numerics, std::cin >> std::hex and other manipulators did not compile'),
]
json.dump(dict(findings=F, fixed=['fixed: property=%s %s %s' % x for x in FIXED]), open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json'), 'w'), indent=1)
