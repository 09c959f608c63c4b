#!/usr/bin/env python3
# One-off generator of properties.jsonl (kept so the list is easy to edit).
import json
I='include/boost/safe_numerics/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":[I+f for f in files],"mechanism":[{"name":n,"where":I+w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":I+w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Native-promotion arithmetic is exact or reported",
  "For every pair of operands of which at least one is a safe integer with the default (native) promotion policy, each of + - * / % and unary minus either yields a value equal to the exact mathematical result or reports an error through the exception policy. It never yields any other value and never executes undefined behaviour (overflow, division trap) on the way.",
  ["inputs","programs"],"all integer base types, safe, built-in, enumerators, bool or objects converting to an integer on either side, all declared ranges, all operand values",
  "The tests try a table of ~8 boundary values per type; exactness is a claim over all value pairs of all type pairs and all declared ranges.",
  ["safe_base_operations.hpp","checked_integer.hpp","checked_default.hpp","native.hpp"],
  [("operand cast into the result type, then checked operation",'safe_base_operations.hpp: addition_result..modulus_result'),("primitive overflow tests",'checked_integer.hpp: checked_operation')],
  ["value of the returned object","the system_error thrown","UBSan trap or signal"])
p("C02","Automatic-promotion arithmetic is exact or reported",
  "For every pair of operands combined under the automatic promotion policy, each of + - * / % and unary minus either yields the exact mathematical result or reports an error. It never yields another value and never executes undefined behaviour, whatever storage type the policy selected for the result.",
  ["inputs","programs"],"all operand types and declared ranges (wide, narrow, one-sided, single-valued, disjoint), all operand values",
  "The result type is computed from the operands' ranges, so the space of distinct result-type computations is unbounded; the tests use full-range types only plus a few ranges.",
  ["automatic.hpp","safe_base_operations.hpp","interval.hpp","utility.hpp"],
  [("result range computed with interval arithmetic on checked_result<intmax_t/uintmax_t>",'automatic.hpp: addition_result..modulus_result'),("smallest storage type for that range",'utility.hpp: signed_stored_type, unsigned_stored_type')],
  ["value of the returned object","the system_error thrown","UBSan trap or signal"])
p("C03","Shifts and bitwise operators are exact or reported",
  "Left shift yields exactly value*2^count, right shift yields exactly floor(value/2^count), and | & ^ ~ yield exactly the bit pattern the built-in operators would give for the operands' base types; otherwise the operation reports an error. Negative or oversized shift counts and shifts of negative values never execute undefined behaviour.",
  ["inputs","programs"],"all operand types, declared ranges and values, shift counts from -width to beyond width, native and automatic promotion",
  "Shift validity depends on value, count, both widths and the declared ranges jointly; tests sample a handful of combinations.",
  ["safe_base_operations.hpp","checked_integer.hpp","utility.hpp","automatic.hpp"],
  [("shift range analysis deciding whether a check is emitted",'safe_base_operations.hpp: left_shift_result, right_shift_result'),("shift validity tests",'checked_integer.hpp: left_shift, right_shift'),("bit counting",'utility.hpp: ilog2, significant_bits, round_out')],
  ["value of the returned object","the system_error thrown","UBSan trap or signal"])
p("C04","No spurious errors, and the error names the actual cause",
  "An operation whose operands are representable in its result type and whose exact result is representable in it succeeds; under the automatic policy this holds whenever operands and exact result fit the 64-bit type of the result's signedness. When an operation does report, the code matches the cause: positive or negative overflow by direction of the exact result, domain error for a zero divisor or a value of unconvertible sign, and a shift code for an invalid shift.",
  ["inputs","programs"],"all operand types, declared ranges and values, all arithmetic and shift operators, native and automatic promotion",
  "A library that rejects everything passes any exact-or-reported test; absence of false alarms is a claim over all valid inputs, tests only look at which of a few boundary pairs fail.",
  ["safe_base_operations.hpp","checked_integer.hpp","automatic.hpp","exception.hpp"],
  [("comparison against representable bounds before operating",'checked_integer.hpp: add_impl_detail..modulus'),("storage type selection",'automatic.hpp: result_type')],
  ["whether a system_error is thrown","its code"])
p("C05","Result types follow the promotion policy",
  "Under native promotion the base type of a result is the type the built-in operator would have for the operands' base types. Under automatic promotion it is the documented signedness (unsigned only if both operands are unsigned; always signed for subtraction; the left operand's for shifts) and can represent every exact result of the operand ranges that the 64-bit type of that signedness can represent.",
  ["programs"],"all operand type pairs, declared ranges and literals, all operators",
  "Quantifies over all programs' operand types; tests check values, and types for a few combinations only.",
  ["native.hpp","automatic.hpp","utility.hpp","safe_base_operations.hpp"],
  [("decltype-based result type",'native.hpp'),("range driven result type",'automatic.hpp'),],
  ["the static type of the result, logged at run time together with its limits"])
p("C06","A value always lies inside its type's declared range",
  "Every safe object that can be observed, including every intermediate of a compound expression, holds a value between the minimum and maximum that its own type declares through numeric_limits. Elided checks further down an expression are justified by this.",
  ["inputs","programs"],"all expressions over safe operands (nested to any depth), all operand types, ranges and values, exception policies whose actions do not ignore errors",
  "Declared ranges of intermediates are invisible to the tests, which compare values only; the property quantifies over all expression trees.",
  ["safe_base_operations.hpp","interval.hpp","checked_result_operations.hpp","safe_base.hpp"],
  [("result range by interval arithmetic",'safe_base_operations.hpp: get_r_type_interval in every operator'),("interval operators",'interval.hpp')],
  ["value and numeric_limits of every intermediate result"],None,
  [("m_t","stored value; must be in [Min, Max]","safe_base.hpp")])
p("C07","Construction, assignment and conversion preserve value or report",
  "Initialising or assigning a safe object from any integer, safe integer, enumerator or object that converts to an integer, and converting a safe object or literal to a built-in type, either preserves the mathematical value exactly or reports an error and leaves the target unchanged. Values that fit the target are always accepted, values outside always rejected, and the code tells whether the value was too high, too low or of unconvertible sign.",
  ["inputs","programs"],"all source and target types, ranges and literals, all values",
  "Pairs of ranges are unbounded and the check may be elided per pair; tests cover a fixed list of type pairs and boundary values.",
  ["safe_base_operations.hpp","checked_integer.hpp","checked_default.hpp","safe_compare.hpp"],
  [("validated cast with static elision",'safe_base_operations.hpp: validate_detail'),("primitive cast checks",'checked_integer.hpp: cast_impl_detail')],
  ["resulting value","system_error code","target before and after"])
p("C08","Comparisons of safe values are mathematically correct or reported",
  "Each of < <= > >= == != between safe integers, or a safe and a built-in integer, either returns the truth value of the mathematical comparison or reports an error; it never silently compares a value altered by conversion. Under automatic promotion it never errs when both operands fit the common 64-bit type, and the six operators are mutually consistent.",
  ["inputs","programs"],"all operand type pairs, ranges (overlapping, touching, disjoint), literals and values",
  "Comparisons may be decided statically from declared ranges; the tests use full-range types where that never happens.",
  ["safe_base_operations.hpp","interval.hpp","safe_compare.hpp"],
  [("static decision by interval order, else converted comparison",'safe_base_operations.hpp: less_than_result, equal_result'),("interval order and intersection",'interval.hpp')],
  ["bool returned","system_error thrown"])
p("C09","Mutation histories follow the model; a failed step changes nothing",
  "Over any sequence of compound assignments, increments, decrements, assignments and copies on safe variables, each variable always equals the value a mathematical model predicts. A step that reports an error leaves every variable exactly as before, so the object remains usable and within its range.",
  ["histories","inputs"],"all finite operation sequences over several variables of mixed types, ranges and policies",
  "Quantifies over histories; tests perform one operation on a fresh object and never look at the object after a failure.",
  ["safe_base.hpp","safe_base_operations.hpp"],
  [("compute, validate, then assign",'safe_base_operations.hpp: operator+= and siblings'),("increment and decrement",'safe_base.hpp: operator++, operator--')],
  ["object value before and after each step","return value","system_error"],None,
  [("m_t","stored value, shadowed by the model","safe_base.hpp")])
p("C10","Checked primitive functions never give a wrong result",
  "The checked add, subtract, multiply, divide, modulus, minus, shift, bitwise and cast functions on built-in integers return either the exact result or an error code that names the actual cause, and return the value whenever it is representable. The checked comparison functions give the arithmetic verdict. For other types the default primitives carry out the type's own operators. No argument makes them execute undefined behaviour.",
  ["inputs"],"all built-in integer types and all argument values (exhaustive for 8-bit types)",
  "Each primitive is a chain of hand written bound tests; tests use fixed tables of boundary values and never enumerate.",
  ["checked_integer.hpp","checked_default.hpp","checked_result.hpp","utility.hpp"],
  [("bound tests written per signedness and width",'checked_integer.hpp'),("public wrappers",'checked_default.hpp')],
  ["returned value or error code","UBSan trap or signal"])
p("C11","Mixed-type primitive comparisons are arithmetically correct",
  "The comparison functions for built-in integers of different width and signedness return the truth value of the mathematical comparison for every pair of values.",
  ["inputs"],"all ordered pairs of built-in integer types, all value pairs (exhaustive for 8-bit pairs)",
  "Conversions go wrong only for particular width, sign and value combinations; tests cover a few constants.",
  ["safe_compare.hpp"],[("comparison split by signedness",'safe_compare.hpp')],["bool returned"])
p("C12","Extended (checked_result) arithmetic is sound",
  "Arithmetic, shifts, bitwise operators and comparisons on checked results behave as operations on integers extended with plus infinity, minus infinity and undefined: a value result is exact, an overflow result names the direction of the true result, and any combination without a defined result is reported as an error. A definite comparison verdict is never false and no operand combination executes undefined behaviour.",
  ["inputs"],"all pairs of extended values: every error code and all values of every width (exhaustive for 8-bit types)",
  "11x11 state tables times value ranges; tests check one table per operator with one value.",
  ["checked_result_operations.hpp","checked_result.hpp"],
  [("dispatch on pair of operand states",'checked_result_operations.hpp: value_type, sum_value_type, product_value_type')],
  ["state and value of the returned checked_result","tribool returned"])
p("C13","Interval arithmetic contains every point result",
  "For any two intervals and any point taken from each, the point result of an operation lies in the interval result of that operation; union and intersection contain exactly what they should. The interval predicates (includes, excludes, intersect, ordering) are true or false only if that verdict holds for all contained points.",
  ["inputs"],"all intervals with representable bounds, all contained points, plain and checked_result bounds including infinite ones",
  "Tests use a couple of constant intervals and only look at printed end points; soundness quantifies over all contained points.",
  ["interval.hpp","utility.hpp","checked_result_operations.hpp"],
  [("corner evaluation and minmax",'interval.hpp: operators'),("minmax",'utility.hpp: minmax')],
  ["bounds of the resulting interval","tribool returned"])
p("C14","Errors are dispatched to exactly the configured action",
  "An operation that cannot yield its exact result invokes the action the exception policy configures for that class of error, with a code of that class and a message, before any value is returned; an operation that succeeds invokes none. The throwing action raises system_error carrying that code, and with the ignoring action an operation yields what the built-in operator would. The same holds in programs built without exceptions, which supply the throwing action themselves.",
  ["inputs","configurations"],"all operators and conversions, all error classes, all combinations of throw, ignore and user supplied actions",
  "Tests use the predefined policies and check only that something was thrown.",
  ["exception_policies.hpp","safe_base_operations.hpp","exception.hpp"],
  [("code to action mapping",'exception_policies.hpp: make_safe_numerics_action'),("dispatch",'safe_base_operations.hpp: dispatch, dispatch_and_return')],
  ["log of handler invocations (class, code, message)","value returned when ignored","system_error"])
p("C15","Run-time checks are omitted exactly when no error is possible",
  "An operation for which no run-time error action is compiled in yields the exact result for every combination of operand values in the declared ranges. Conversely a binary arithmetic operation, conversion or comparison whose declared ranges rule out every error compiles in no error action, and a trapping policy accepts an operation if and only if no action is compiled in.",
  ["programs","inputs"],"all operators over all operand types and declared ranges",
  "A missing check is only wrong for the values it would have caught; tests have a few compile-fail examples and never relate elision to the value space.",
  ["safe_base_operations.hpp","interval.hpp","automatic.hpp"],
  [("exception_possible decision per operator",'safe_base_operations.hpp'),("includes/excludes on casts",'safe_base_operations.hpp: validate_detail')],
  ["whether the policy's action was instantiated for an operation","outcome of every operand pair","compiler accept/reject under a trapping policy"])
p("C16","Stream input stores only valid values and reports everything else",
  "Writing a safe value and reading it back yields the same value. Reading text that is not an integer, or an integer outside the declared range, at end of file or from a failing stream reports an error through the exception policy and leaves the object unchanged; an accepted read stores exactly the integer in the text, as the number base, white space and grouping settings of the stream tell.",
  ["inputs","fault_sequences"],"all stored types and ranges, all input texts, all stream failure points and exception masks",
  "Tests read two good and two bad strings into three types and never inspect the target after a failure or inject stream faults.",
  ["safe_base_operations.hpp","safe_base.hpp","safe_integer_literal.hpp"],
  [("stream helpers",'safe_base_operations.hpp: input, output')],
  ["object before and after the read","stream state","system_error"])
p("C17","Emulated platform promotion follows the C++ rules for that platform",
  "Under the policy that emulates other sizes of char, short, int, long and long long, result types of operators follow the usual arithmetic conversions of a platform with these sizes, operands narrower than its int being widened to int with their signedness kept; shifts have the type of the widened left operand. Operations yield the exact result or report exactly when that platform's type cannot hold it.",
  ["configurations","inputs"],"all size configurations over 8/16/32/64 bits, all operand types of these sizes, all values",
  "Tests use one or two configurations and a few values.",
  ["cpp.hpp","safe_base_operations.hpp"],
  [("rank and conversion rules",'cpp.hpp: rank, integral_promotion, usual_arithmetic_conversions')],
  ["static type of the result, logged at run time","value or system_error"])
p("C18","Compile-time and run-time evaluation agree",
  "An operation evaluated in a constant expression gives the value it gives at run time, and is rejected as a constant exactly when it would report an error at run time. The outcome is the same for every compiler and optimisation level.",
  ["programs","configurations"],"all operators and conversions on constant operands, two compilers, several optimisation levels",
  "constexpr tests repeat one value table with one compiler and one optimisation level.",
  ["safe_base_operations.hpp","checked_integer.hpp","checked_result_operations.hpp"],
  [("constexpr implementation of every operation",'safe_base_operations.hpp')],
  ["constant evaluated value","run-time value or system_error per compiler and optimisation level"])
p("C19","Error codes keep their identity, class and text program-wide",
  "Every error code belongs to one category that compares equal across all parts of a program, has a distinct non-empty message, and matches exactly the one error condition whose action the library takes for it. A code caught in one translation unit compares equal to the enumerator in any other, and to the enumerator of its action.",
  ["programs","configurations"],"all error codes, conditions, translation-unit combinations, compilers and optimisation levels",
  "Tests are single translation units; cross-unit identity is not exercised at all.",
  ["exception.hpp","exception_policies.hpp"],
  [("error categories",'exception.hpp: safe_numerics_error_category, safe_numerics_actions_category')],
  ["error_code and error_condition comparisons across translation units"])
p("C20","Operations on distinct objects are independent across threads",
  "Any number of threads may operate concurrently on their own safe objects, and read shared constant ones, without data races and with the results a single thread would get. No operation leaves state behind that influences a later operation.",
  ["schedules","histories"],"all interleavings of operations on thread-local and shared read-only safe objects, all orders of operations",
  "Tests are single threaded and run each operation once.",
  ["safe_base_operations.hpp","checked_integer.hpp","exception.hpp"],
  [("absence of mutable static state",'safe_base_operations.hpp')],
  ["ThreadSanitizer reports","per-thread result log compared with a sequential run"])
p("C21","Literals and numeric_limits describe the type truthfully",
  "numeric_limits of a safe type reports its declared minimum and maximum and otherwise the traits of its base type; a safe literal always evaluates to its constant. Unary plus, minus and complement of a literal yield exactly the corresponding value, and a type whose range is declared as a pair of bounds stores them in a type that can hold both.",
  ["programs","inputs"],"all base types, declared ranges and literal constants",
  "Tests use a handful of literals; the claim quantifies over all constants and ranges.",
  ["safe_base.hpp","safe_integer_literal.hpp","safe_integer.hpp","safe_integer_range.hpp","utility.hpp"],
  [("numeric_limits specialisations",'safe_base.hpp'),("literal types",'safe_integer_literal.hpp'),("storage selection",'utility.hpp')],
  ["numeric_limits members","value and type of literal expressions"])
p("C22","Programs over safe integers compute exact results or report",
  "Replacing built-in integer types by safe ones in a program (declarations, loops, conditions, calls, containers, standard algorithms, mixed with remaining built-in variables) yields a program in which every stored value and every branch taken is that of exact arithmetic. A statement whose result a type cannot hold reports, changes nothing, and execution can go on after it. Where the built-in program is free of overflow and lossy conversions, the safe program gives identical results without any error. Code which does not involve safe types compiles and means the same next to a directive using the library's namespace.",
  ["programs","inputs"],"all programs of the documented drop-in fragment, native and automatic promotion, safe and ranged types of every width, all inputs",
  "Tests evaluate single expressions; the library's promise is about whole programs, where types of intermediates, conversions at calls and state after errors interact.",
  ["safe_base.hpp","safe_base_operations.hpp","automatic.hpp","native.hpp"],
  [("implicit conversions to and from built-in types",'safe_base.hpp: converting constructor, operator R'),("operators on all operand mixes",'safe_base_operations.hpp')],
  ["log of every stored value and reported error, compared with an independent interpreter and with the same program over built-in types"])
p("C23","A user-supplied promotion policy is obeyed and stays exact",
  "With a promotion policy written by the user, each operator's result has exactly the type the policy names for that operator and these operand types. Whatever type that is (wider, narrower or of other signedness than the operands), arithmetic, shifts and comparisons yield the exact result or report an error, report none when operands and result fit that type, and the result lies in its declared range.",
  ["configurations","inputs"],"all promotion policies mapping operand types to integer types per operator, all operand types, ranges and values",
  "The tests use the library's own policies only, whose result types are never narrower than the operands need.",
  ["safe_base_operations.hpp","interval.hpp","checked_integer.hpp"],
  [("policy's result type used for every step",'safe_base_operations.hpp: addition_result..bitwise_xor_result')],
  ["static type of the result, logged at run time","value or system_error"])
p("C24","Diagnostic output shows the true value, range and error",
  "What the library prints for diagnosis is true: a safe value or literal shows its value, a range_value exactly the declared minimum and maximum of the type and the value, an interval its bounds, a checked result its value or the message of its code and its text, and literal_string gives the name of the enumerator. This holds for every safe type, the narrow ones included, on streams of any character type and in any number base, and printing alters neither the object nor (result_display aside) the stream's format.",
  ["programs","inputs"],"all safe types, declared ranges, literals, intervals and checked results, all values, number bases and stream character types",
  "The tests only print while they run and don't look at the text; the examples print a few int values.",
  ["range_value.hpp","interval.hpp","checked_result_operations.hpp","safe_integer_literal.hpp","safe_base_operations.hpp","exception.hpp"],
  [("stream output operators",'range_value.hpp, interval.hpp, checked_result_operations.hpp: operator<<'),("names of errors",'exception.hpp: literal_string')],
  ["text written to the stream","format flags before and after"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S)
print(len(P))
