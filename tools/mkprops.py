#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
H = "include/boost/numeric/interval/"
TY = "every interval over float, double and long double with every combination of finite and infinite bounds, every finite number"
PRE = " Numbers are finite unless the statement says otherwise."
P = []


def p(id, title, stmt, over, text, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": stmt, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": [H + f for f in files], "mechanism": [{"name": n, "where": H + w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = state
    P.append(d)


CONF = "default and reciprocal (upward-only / mode-switching) rounding policies, protected and unprotected, with checking policies strict, base, no_nan, catch_nan, no_empty"

p("C01", "Interval arithmetic encloses every exact result",
  "The result of +, -, * or / on two intervals, or on an interval and a finite number in either order, contains the exact real result for every choice of elements of the operands (divisors other than zero), compound assignment included, even when the right operand is the target itself or one of its bounds. The same holds for unary minus, for the functions that add, subtract, multiply or divide two numbers into an interval, and for integer operands that the base type represents exactly.",
  ["inputs", "configurations"], TY + ", all sign patterns and element choices; " + CONF,
  "The tests sample small integers and a few mixed-sign grids; the guarantee is about every bound pattern, every rounding error and every magnitude (overflow and underflow included), and every element of the operands.",
  ["arith.hpp", "arith3.hpp", "detail/division.hpp", "rounded_arith.hpp", "ext/integer.hpp", "interval.hpp"],
  [("operators", "arith.hpp"), ("division case analysis", "detail/division.hpp"), ("directed rounding", "rounded_arith.hpp"), ("number x number functions", "arith3.hpp")])
p("C02", "Interval arithmetic returns the smallest enclosure",
  "The result of +, -, *, / (between intervals, intervals and finite numbers, two numbers, or integers the base type represents exactly) and of unary minus is the smallest interval with bounds in the base type that contains all the exact results: each bound is the exact extreme value rounded outward, and is infinite only when the exact values are unbounded or exceed the largest number. This includes division by an interval that contains zero but not only zero.",
  ["inputs", "configurations"], TY + "; " + CONF,
  "Equality with an expected interval is tested at a handful of exactly representable points; tightness needs the comparison with the best bound for every operand.",
  ["arith.hpp", "arith3.hpp", "detail/division.hpp", "rounded_arith.hpp"],
  [("operators", "arith.hpp"), ("division case analysis", "detail/division.hpp"), ("directed rounding", "rounded_arith.hpp")])
p("C03", "Interval-valued operations return a well-formed or an empty interval",
  "Given well-formed or empty interval operands and finite numbers, every operation that returns an interval (arithmetic, algebraic and transcendental functions, set operations, construction and assignment, constants) yields either an interval whose bounds are not NaN, whose lower bound is at most its upper bound, whose lower bound is not +infinity and whose upper bound is not -infinity, or the empty interval. It yields a non-empty interval whenever the operands are non-empty and the operation is defined for some of their elements.",
  ["inputs", "configurations"], TY + "; every operation of the library; " + CONF,
  "Tests check bounds of chosen results; a NaN or inverted pair of bounds appears only for particular combinations of infinite bounds, zeros, overflow and underflow.",
  ["interval.hpp", "arith.hpp", "arith2.hpp", "arith3.hpp", "utility.hpp", "transc.hpp", "constants.hpp"],
  [("unchecked construction from ordered bounds", "arith.hpp"), ("checked construction", "interval.hpp"), ("0 x infinity avoided by sign cases", "arith.hpp")])
p("C04", "Empty operands and undefined operations give the empty interval",
  "Under a checking policy that allows empty intervals, every operation given an empty (or inverted-bound) interval operand returns the empty interval, the hull excepted, which ignores it; so does an operation given a NaN number where the policy recognises NaN. An operation that is defined for no element of its operands (square root or even root of negative numbers, logarithm of non-positive numbers, inverse functions outside their range, division by the interval holding only zero, zero to the power zero) returns the empty interval, and operations that are defined for some element do not.",
  ["inputs", "configurations"], "every operand, empty and inverted intervals and NaN numbers included; checking policies with empty intervals represented by NaN bounds",
  "Tests exercise a few functions with one empty operand each; every function and operand position must cope.",
  ["detail/test_input.hpp", "checking.hpp", "arith.hpp", "arith2.hpp", "utility.hpp", "transc.hpp", "interval.hpp"],
  [("operand test at the head of each function", "detail/test_input.hpp"), ("representation of the empty interval", "checking.hpp")])
p("C05", "Checking policies raise the documented exceptions and nothing else",
  "Under a policy that refuses empty intervals, an operation whose result would be empty raises the documented runtime error; under a policy that refuses NaN, passing a NaN number raises the documented invalid-argument error; no operation raises any other exception, or raises one when a well-formed result exists. When an assignment or compound assignment raises, the target interval keeps its value.",
  ["inputs", "configurations"], "every operation and operand, NaN included, under strict, no_empty and catch_nan checking",
  "The tests look at single calls per policy; which operation raises on which operand is a statement over all operands and operations.",
  ["checking.hpp", "policies.hpp", "interval.hpp", "detail/test_input.hpp"],
  [("policy classes", "checking.hpp"), ("set_empty", "interval.hpp")])
p("C06", "The rounding direction in force is restored on every exit",
  "Whatever the rounding direction when an operation of a protected interval type is entered, the same direction is in force when the operation returns or exits with an exception. Operations of unprotected types leave the direction they need in force, so that a sequence of them inside one protected scope stays correct.",
  ["inputs", "configurations"], "all four rounding directions on entry, every operation and operand, normal and exceptional exits",
  "Tests run with the default direction and hardly look at it afterwards; a leak shows only for one entry direction, one branch or one exceptional exit.",
  ["rounding.hpp", "rounded_arith.hpp", "rounded_transc.hpp", "hw_rounding.hpp", "detail/c99_rounding_control.hpp", "detail/c99sub_rounding_control.hpp"],
  [("saving and restoring scope object", "rounding.hpp"), ("mode switching", "detail/c99sub_rounding_control.hpp")],
  state=[{"name": "floating-point rounding direction of the thread", "meaning": "direction in which every operation rounds", "where": "hardware"}])
p("C07", "Rounding policies compute correctly rounded directed results",
  "For float, double and long double, the downward (upward) addition, subtraction, multiplication, division, square root, conversion and integer part of the hardware rounding policies return the exact value rounded down (up) to the base type, for finite and infinite arguments, conversions from every built-in number type included; the median of two numbers lies between them. The policy that keeps the upward direction finds it in force on entry and leaves it in force, and the other policy gives the same values whatever the direction on entry. The exact policy computes each operation in the direction in force and leaves it alone.",
  ["inputs", "configurations"], "all arguments of all methods, conversions from int, unsigned, long long, unsigned long long, float, double and long double",
  "Directed rounding differs from any other only for inexact results; the tests' values are mostly exact.",
  ["rounded_arith.hpp", "rounding.hpp", "detail/c99_rounding_control.hpp", "detail/c99sub_rounding_control.hpp"],
  [("upward-only arithmetic", "rounded_arith.hpp"), ("mode-switching arithmetic", "rounded_arith.hpp"), ("forced rounding of intermediates", "detail/c99_rounding_control.hpp")])
p("C08", "Arithmetic and algebraic operations are inclusion isotonic",
  "If every operand of +, -, *, /, unary minus, absolute value, square, square root, minimum, maximum, hull or intersection is replaced by an interval contained in it, the new result is contained in the old one.",
  ["inputs", "configurations"], "all pairs of nested operands",
  "Isotonicity relates two evaluations over all nested pairs of operands; no test compares evaluations.",
  ["arith.hpp", "arith2.hpp", "utility.hpp", "detail/division.hpp"],
  [("sign case analysis", "arith.hpp"), ("directed rounding is monotone", "rounded_arith.hpp")])
p("C09", "Construction, conversion and assignment enclose the given values",
  "An interval built or assigned from one number, or from two ordered numbers, of the base type or of another built-in number type, contains them and is the smallest such interval; inverted or NaN bounds give the empty interval. Building or assigning from an interval with another policy or base type contains that interval (exactly it, when the base type is the same) and stays empty when it is empty. Assigning bounds that refer to the target's own bounds behaves as if they had been copied first.",
  ["inputs", "configurations"], "all numbers of types int, unsigned, long long, float, double, long double; all intervals; all policy pairs",
  "Narrowing conversions round, and only values the tests do not use reveal the direction; aliasing needs particular call shapes.",
  ["interval.hpp", "rounded_arith.hpp", "checking.hpp"],
  [("constructors and assignment operators", "interval.hpp"), ("rounded conversion", "rounded_arith.hpp")])
p("C10", "Set operations and predicates have their set meaning",
  "Intersection, hull, membership, subset, proper subset, overlap, zero membership, singleton, equality and emptiness tests return exactly the answer of the corresponding operation on the sets of real numbers the intervals denote, the empty set included; the hull is the smallest interval containing its operands. They accept intervals with different policies where the library allows it, and numbers in place of intervals for membership and hull.",
  ["inputs", "configurations"], "all intervals, infinite bounds and the empty interval included, all numbers, NaN where the policy recognises it",
  "Boundary cases (shared end points, nesting with one equal bound, empty operands in either position) multiply; tests use a few.",
  ["utility.hpp", "interval.hpp", "detail/test_input.hpp"],
  [("set-like operations", "utility.hpp"), ("hull of numbers", "interval.hpp")])
p("C11", "Certain and possible comparisons decide the quantified relation",
  "With the certain-comparison operators and functions a relation holds exactly when it holds for all pairs of elements of the operands, and with the possible ones exactly when it holds for some pair, for all of <, <=, >, >=, ==, != between intervals and between an interval and a number on either side. The operators raise the comparison error when an operand is empty or a NaN number recognised by the policy.",
  ["inputs", "configurations"], "all intervals and numbers, infinite bounds included; operators and named functions",
  "The relation is defined over all element pairs; tests pick a few relative positions, and touching end points are where the definitions differ.",
  ["compare/certain.hpp", "compare/possible.hpp", "compare/explicit.hpp"],
  [("certain operators", "compare/certain.hpp"), ("possible operators", "compare/possible.hpp"), ("named functions", "compare/explicit.hpp")])
p("C12", "Default and tri-state comparisons never give an uncertain answer",
  "A default comparison returns true only if the relation holds for all pairs of elements and false only if it holds for none, and otherwise raises the comparison error; it also raises it for an empty interval or a recognised NaN number. The tri-state operators return true, false and indeterminate in exactly the cases where the relation holds for all pairs, for no pair, and otherwise.",
  ["inputs", "configurations"], "all intervals and numbers; <, <=, >, >=, ==, != against intervals and numbers",
  "Three-way outcomes over all relative positions of four bounds; tests use a few positions.",
  ["interval.hpp", "compare/tribool.hpp"],
  [("member comparison operators", "interval.hpp"), ("tri-state operators", "compare/tribool.hpp")])
p("C13", "Lexicographic and set orderings compare bounds as documented",
  "The lexicographic operators order intervals by lower bound and then by upper bound, and numbers as singletons, giving a strict weak (total) order in which exactly one of <, ==, > holds; the set operators < and <= mean proper inclusion and inclusion, > and >= the converse, and == and != equality of sets. The set ordering never holds in both directions for different sets, and is transitive.",
  ["inputs", "configurations"], "all pairs and triples of intervals, infinite bounds included",
  "Order laws relate several comparisons over all pairs and triples.",
  ["compare/lexicographic.hpp", "compare/set.hpp", "utility.hpp"],
  [("lexicographic operators", "compare/lexicographic.hpp"), ("set operators", "compare/set.hpp")])
p("C14", "Absolute value, min, max, square, sqrt and powers enclose their range",
  "Absolute value, minimum, maximum, square, square root, integer power (any exponent, negative ones included) and multiplicative inverse return an interval that contains the exact value at every element of the operands where the function is defined. Absolute value, minimum and maximum are exact, and square, square root and multiplicative inverse are the smallest enclosures.",
  ["inputs", "configurations"], TY + "; every exponent above the smallest int",
  "The power loop accumulates roundings over a number of steps that depends on the exponent; tests use small exponents with exact results.",
  ["utility.hpp", "arith2.hpp", "rounded_arith.hpp"],
  [("abs, min, max", "utility.hpp"), ("square, sqrt, pow, multiplicative_inverse", "arith2.hpp"), ("power by squaring", "arith2.hpp")])
p("C15", "The n-th root encloses every root",
  "The n-th root of an interval, for every order from one up that the base type represents exactly, contains the real n-th root of every element that has one (every element for odd orders, the non-negative ones for even orders), and is empty only when no element has one. The computation always ends.",
  ["inputs", "configurations"], "all intervals, infinite bounds included, all orders from 1 that are exact in the base type",
  "The Newton iteration must keep the root inside at every step and for every rounding error; tests follow a few perfect powers.",
  ["arith2.hpp"], [("interval Newton iteration", "arith2.hpp"), ("reciprocal reduction below one", "arith2.hpp")])
p("C16", "Monotone transcendental functions enclose their range",
  "Provided the elementary functions of the base type respect the current rounding direction, exp, log, asin, acos, atan, sinh, cosh, tanh, asinh, acosh and atanh of an interval contain the exact value at every element in the function's domain, and are empty exactly when no element is in it. Operands that reach outside the domain are treated as their part inside it, with infinite bounds at its open ends.",
  ["inputs", "configurations"], "all intervals; mode-switching and upward-only transcendental policies",
  "Domain clipping and swapped bounds matter only for particular positions of the bounds and for inexact values.",
  ["transc.hpp", "rounded_transc.hpp"],
  [("functions on intervals", "transc.hpp"), ("directed evaluation", "rounded_transc.hpp")])
p("C17", "Periodic functions and the remainder enclose their range",
  "Provided the elementary functions of the base type respect the current rounding direction, cos, sin and tan of an interval contain the exact value at every element, and the results of cos and sin lie within [-1,1]. The floating remainder of an interval or number x by a divisor interval or number that does not contain zero contains, for one integer n, the value x-n*y for all elements x and y, and is the whole line when no finite n exists.",
  ["inputs", "configurations"], "all bounded and unbounded intervals",
  "Argument reduction by an enclosure of the period is exercised only for a few small arguments.",
  ["transc.hpp", "arith2.hpp", "constants.hpp"],
  [("argument reduction", "transc.hpp"), ("fmod", "arith2.hpp")])
p("C18", "Pi constants enclose the real numbers they name",
  "The interval constants for pi, half pi and twice pi contain the real number, for float, double, long double and for integer base types, under every policy, and for float and double their bounds are the two adjacent numbers around it.",
  ["configurations", "inputs"], "float, double, long double and int as base type, every policy, compared with the real number",
  "Tests compare decimal prints or widths; a wrong last bit on one type is invisible to them.",
  ["constants.hpp"], [("constants", "constants.hpp")])
p("C19", "Two-part division covers exactly the quotient set",
  "The two-part division returns one or two intervals (telling whether there is a second part) whose union contains every quotient of an element of the dividend by a non-zero element of the divisor, and when there are two parts they are the smallest intervals holding the quotients by the negative and by the positive divisors' side, the first not above the second. It is empty when the divisor holds only zero, and agrees with ordinary division when the divisor does not contain zero in its interior.",
  ["inputs", "configurations"], "all pairs of intervals",
  "The split case has one test per sign pattern with exact values.",
  ["arith2.hpp", "detail/division.hpp"], [("division_part1, division_part2", "arith2.hpp"), ("straddling divisor", "detail/division.hpp")])
p("C20", "Width, median, norm, widening and bisection bound what they measure",
  "The width is the difference of the bounds rounded up, the norm is exactly the largest absolute value of the elements, the median of a bounded interval lies in it, widening by a non-negative number contains all points within that distance and is the smallest such interval, and bisecting a bounded interval gives two well-formed intervals that share an end point and whose union is exactly the interval. For an empty interval (where allowed) width is zero, median, norm and checked bounds are NaN, and the checked bounds of other intervals are the bounds.",
  ["inputs", "configurations"], "all intervals (bounded ones for median and bisection), all non-negative finite widening amounts",
  "Overflow of the sum, rounding of the half and direction of the subtraction show only at extreme or inexact bounds.",
  ["utility.hpp", "rounded_arith.hpp"], [("numeric queries", "utility.hpp"), ("median", "rounded_arith.hpp")])
p("C21", "A number operand behaves as the interval holding just it",
  "Every operation that accepts a finite number in place of an interval (+, -, *, / and their compound forms, minimum, maximum, hull, membership, remainder, and all comparison families) returns the same result as with the one-point interval, and swapping the operands of the commutative operations does not change the result. Compound assignment gives the same interval as the plain operator.",
  ["inputs", "configurations"], "all intervals and numbers, all operations with mixed overloads",
  "Mixed overloads are separate code with separate case analyses; equality of the two codes is a statement over all operands.",
  ["arith.hpp", "utility.hpp", "arith2.hpp", "interval.hpp", "compare"], [("mixed overloads", "arith.hpp")])
p("C22", "Text output shows the bounds of the interval",
  "Writing an interval to a narrow or wide stream writes an opening bracket, the lower bound, a comma, the upper bound and a closing bracket, each bound exactly as the stream writes that number, or an empty pair of brackets for an empty (or inverted-bound) interval, and nothing else; it returns the stream and leaves the rounding direction alone.",
  ["inputs", "configurations"], "all intervals under every policy, narrow and wide streams", "Tests print a few intervals.", ["io.hpp", "utility.hpp"], [("stream operator", "io.hpp")])
p("C23", "numeric_limits of interval types agrees with the base type",
  "For every interval type over float, double and long double and every rounding and checking policy, std::numeric_limits gives the one-point interval holding exactly the base type's smallest normal number, largest number, machine epsilon and smallest denormal for min, max, epsilon and denorm_min, the whole line for infinity, and (for policies that have an empty interval) the empty interval for quiet_NaN.",
  ["configurations"], "all interval types: base types, rounding and checking policies", "No test instantiates numeric_limits for intervals; the values must be right for every policy combination.", ["limits.hpp", "interval.hpp", "checking.hpp"],
  [("limits from the base type", "limits.hpp"), ("whole and empty", "checking.hpp")])
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
