#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept here so that the statements are easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["result (or failure) of evaluating the compiled script on the same inputs as the Python source"],
                     hook_needed=None)))

p("C01", "Integer and boolean operators behave exactly as in Python",
  "For all integers of any size and sign and all booleans, every arithmetic, comparison, logical and unary operator that the compiler accepts yields in the compiled script exactly the value Python yields for the same expression (floor division and modulo signs included), and the script fails exactly when Python raises. A power with a negative exponent always fails on chain.",
  ["inputs"], "all operand values (unbounded integers, booleans) x all accepted operator/type combinations",
  "Unit tests sample small integers; sign, zero, huge and exponent corner cases live in an infinite input space, and each operator/type pair is emitted by its own code path.",
  ["opshin/type_impls.py", "opshin/compiler.py"],
  [("operator emitters of the integer and boolean types", "opshin/type_impls.py: IntegerType, BoolType"),
   ("operator dispatch", "opshin/compiler.py: visit_BinOp, visit_UnaryOp, visit_Compare, visit_BoolOp"),
   ("exponentiation by squaring", "opshin/type_impls.py: repeated_addition")])
p("C02", "Byte strings and text operators and methods behave exactly as in Python",
  "For all byte strings and texts, concatenation, repetition, comparison, membership, indexing, slicing, encode/decode, hex conversion in both directions and padding yield in the compiled script the value Python yields (negative and out-of-range indices included), and the script fails exactly when Python raises.",
  ["inputs"], "all byte string / text contents and lengths, all integer indices and counts",
  "Tests sample a few short ASCII values; index clamping, negative counts, non-ASCII content and boundary lengths form an infinite space.",
  ["opshin/type_impls.py", "opshin/compiler.py"],
  [("byte string and text emitters", "opshin/type_impls.py: ByteStringType, StringType"),
   ("subscript and slice emission", "opshin/compiler.py: visit_Subscript")])
p("C03", "Lists, dictionaries and tuples behave exactly as in Python",
  "For lists, dictionaries and tuples of every supported element type and every length, construction, indexing, slicing, concatenation, membership, equality, length, truth value, iteration, comprehensions and the supported methods yield in the compiled script the value Python yields, and the script fails exactly when Python raises.",
  ["inputs"], "all lengths and contents, all indices, all supported element types",
  "Every element type has its own representation and conversion path and every operation its own recursion; tests sample a handful of (type, length, index) triples.",
  ["opshin/type_impls.py", "opshin/compiler.py", "opshin/fun_impls.py"],
  [("container emitters", "opshin/type_impls.py: ListType, DictType, TupleType, PairType"),
   ("subscript, literal and comprehension emission", "opshin/compiler.py: visit_Subscript, visit_List, visit_Dict, visit_ListComp, visit_DictComp")])
p("C04", "Built-in functions return what Python's built-in functions return",
  "For every argument of every supported argument type, a call to a supported Python built-in function (abs, all, any, bool, bytes, chr, hex, int, len, max, min, oct, ord, pow, range, reversed, sum) yields in the compiled script the value Python returns, and the script fails exactly when Python raises, apart from the deviations listed in the architecture document.",
  ["inputs"], "all argument values and lengths for each supported argument type",
  "The implementations are hand-written recursive programs over digits, bytes or list cells; tests only sample them.",
  ["opshin/fun_impls.py", "opshin/type_impls.py"],
  [("built-in function implementations", "opshin/fun_impls.py: PythonBuiltIn, LenImpl, ReversedImpl"),
   ("constructor implementations", "opshin/type_impls.py: IntImpl, BoolImpl, BytesImpl")])
p("C05", "Text rendering of values equals Python's str and f-string output",
  "Converting a value of any supported type to text, through str, an f-string or print, yields exactly the text Python produces for that value, at any nesting depth inside lists, dictionaries, tuples and data objects.",
  ["inputs"], "all values of all printable types, all nestings",
  "Rendering is recursive over the type structure and over digits/bytes; tests sample a few shapes.",
  ["opshin/type_impls.py", "opshin/compiler.py", "opshin/fun_impls.py"],
  [("text rendering emitters", "opshin/type_impls.py: stringify of every type"),
   ("f-string emission", "opshin/compiler.py: visit_JoinedStr, visit_FormattedValue")])
p("C06", "Validator inputs and outputs follow the documented data encoding",
  "A compiled validator reads each argument from, and (when output wrapping is on) writes its result to, on-chain data exactly according to the documented type mapping, for every type and every nesting of lists, dictionaries, unions and data objects, so that a value passed through a script unchanged comes out as the data that went in.",
  ["inputs", "programs"], "all values of all parameter and return types; both settings of input unwrapping and output wrapping",
  "The encoding is recursive over types and applied at every boundary (arguments, results, fields, container elements); tests exercise few types and nestings.",
  ["opshin/type_impls.py", "opshin/compiler.py"],
  [("input conversion", "opshin/type_impls.py: transform_ext_params_map"),
   ("output conversion", "opshin/type_impls.py: transform_output_map"),
   ("validator entry and exit", "opshin/compiler.py: visit_Module")])
p("C07", "Data objects and unions keep their identity, fields and equality",
  "For every data class and union of data classes, constructing an object, reading any field, comparing objects, testing their class and serialising them to CBOR on chain give the results the Python dataclass gives, for every constructor id, field count, field type and value.",
  ["inputs", "programs"], "all field values, all class shapes (field counts/types, constructor ids) and union memberships",
  "Field positions, constructor ids and conversions are computed per class shape; tests use a handful of shapes and values.",
  ["opshin/type_impls.py", "opshin/compiler.py", "opshin/fun_impls.py"],
  [("record and union emitters", "opshin/type_impls.py: RecordType, UnionType, AnyType"),
   ("class test emission", "opshin/fun_impls.py: IsinstanceImpl"),
   ("constructor emission", "opshin/compiler.py: visit_ClassDef, visit_Call")])
p("C08", "The integrity check accepts exactly the well-formed data",
  "Checking the integrity of a data object on chain succeeds if and only if the on-chain data has the declared constructor id and exactly the declared fields, each of which is, recursively, well-formed for its declared type; when it succeeds the checked object is unchanged.",
  ["inputs", "programs"], "all on-chain data values (well-formed or not) for every class shape",
  "Malformed data forms an infinite adversarial space (extra/missing fields, wrong tags, wrong kinds at any depth); tests probe a few instances.",
  ["opshin/type_impls.py", "opshin/rewrite/rewrite_import_integrity_check.py"],
  [("normalising copy of every type", "opshin/type_impls.py: copy_only_attributes"),
   ("integrity check emission", "opshin/rewrite/rewrite_import_integrity_check.py")])
p("C09", "A compiled program computes what the Python program computes",
  "For every accepted program and every well-typed input, evaluating the compiled script gives the value the Python program returns, and the script fails exactly when the Python program raises; this covers assignments, augmented and tuple assignments, branches, loops, early returns, asserts, functions, recursion, closures, scoping, shadowing, comprehensions and short-circuit evaluation; with optimisation off the printed lines appear in the same order as in Python.",
  ["programs", "inputs"], "all accepted programs over the supported statements and expressions and all inputs",
  "The statement forms compose without bound and each composition threads program state differently; tests contain a fixed set of programs and sampled inputs.",
  ["opshin/compiler.py", "opshin/rewrite/rewrite_scoping.py", "opshin/rewrite/rewrite_function_closures.py", "opshin/rewrite/rewrite_tuple_assign.py", "opshin/rewrite/rewrite_augassign.py", "opshin/type_inference.py"],
  [("statement emission and state threading", "opshin/compiler.py: visit_If, visit_While, visit_For, visit_FunctionDef, visit_Return, visit_Assert, visit_Assign"),
   ("desugaring", "opshin/rewrite/*"),
   ("closure resolution", "opshin/rewrite/rewrite_function_closures.py, opshin/util.py: externally_bound_vars")])
p("C10", "Optimisation settings never change what a script computes",
  "Compiling the same accepted program at any optimisation level, or with any single optimisation (constant folding, dead-code removal, fast list access, union expansion) switched on or off, gives scripts that return equal values on every input and fail on the same inputs.",
  ["programs", "inputs", "configurations"], "all accepted programs x all optimisation configurations x all inputs",
  "Optimisations interact with program shape and with each other; tests run most programs under one configuration with sampled inputs.",
  ["opshin/optimize", "opshin/compiler.py", "opshin/compiler_config.py"],
  [("constant folding", "opshin/optimize/optimize_const_folding.py"),
   ("dead code removal", "opshin/optimize/optimize_remove_deadvars.py, optimize_remove_deadconstants.py, optimize_remove_deadconds.py, optimize_remove_unreachable.py, optimize_fold_if_fallthrough.py, optimize_fold_bool.py"),
   ("union expansion", "opshin/optimize/optimize_union_expansion.py, opshin/rewrite/rewrite_expanded_union_calls.py"),
   ("fast list access", "opshin/compiler.py: fast_access_skip")])
p("C11", "Fractions compute exact rational arithmetic",
  "For all fractions with non-zero denominator (of either sign) and all integers, addition, subtraction, multiplication, division, negation, comparison, floor and ceil give exactly the rational-number result, and normalisation preserves the value while making the denominator positive and coprime to the numerator; the compiled script agrees with the off-chain library.",
  ["inputs"], "all numerators and non-zero denominators, fraction and integer operands",
  "Sign combinations and size are unbounded; tests sample with a random generator and cannot prove an algebraic identity.",
  ["opshin/std/fractions.py", "opshin/std/math.py"],
  [("fraction arithmetic", "opshin/std/fractions.py: Fraction methods and helper functions"),
   ("greatest common divisor and sign", "opshin/std/math.py")])
p("C12", "Math and bitmap library functions satisfy their documented meaning",
  "For all arguments, the math and bitmap library functions return what their documentation states (greatest common divisor, sign, rounding division, big-endian integer conversion, bitwise and, bit set/reset/flip/test, size and all/any/none queries), and off-chain execution and the compiled script agree.",
  ["inputs"], "all integers, byte strings and bit positions",
  "Tests sample values; e.g. a rounding or sign error at a single operand sign pattern or a wrong bit order for one position is easily missed.",
  ["opshin/std/math.py", "opshin/std/bitmap.py", "opshin/std/builtins.py"],
  [("math functions", "opshin/std/math.py"), ("bitmap functions", "opshin/std/bitmap.py")],
  ["return values off chain and on chain"])
p("C13", "Ledger time intervals are ordered and contained as sets of time points",
  "For all bounds (finite or infinite, open or closed), comparing bounds is a total order consistent with the sets of time points they delimit, the containment test is true exactly when the first bound pair encloses the second in that order, and the range constructors build the documented closed ranges; the compiled script agrees with the off-chain library.",
  ["inputs"], "all pairs and triples of interval bounds",
  "Order laws quantify over triples of unbounded times and closure flags; tests sample pairs.",
  ["opshin/ledger/interval.py", "opshin/ledger/api_v3.py"],
  [("bound comparison and containment", "opshin/ledger/interval.py")],
  ["return values off chain and on chain"])
p("C14", "Transaction helper functions return what they document for every transaction",
  "For every list of transaction inputs and outputs, the token-counting helpers return exactly the sum over the matching entries, the lookup helpers return the first matching output or fail when there is none, and the datum helpers return the attached datum for inline and hashed datums and the documented outcome otherwise; the compiled script agrees with the off-chain library.",
  ["inputs"], "all transactions (any number of inputs, outputs, tokens, datums)",
  "Transactions are unbounded structures; tests use one or two hand-built contexts.",
  ["opshin/prelude.py"],
  [("helpers", "opshin/prelude.py: all_tokens_*, resolve_*, own_*, token_present_in_inputs")],
  ["return values off chain and on chain"])
p("C15", "Off-chain builtin wrappers agree with the on-chain builtins",
  "Every primitive that the standard library exposes computes, when run off chain, the same value as the primitive the compiled script executes for the same call, with the same argument order and the same failures.",
  ["inputs"], "all exposed primitives x all arguments",
  "There are dozens of primitives, each mapped twice (name translation off chain, emission on chain); tests sample few of them.",
  ["opshin/bridge.py", "opshin/std/builtins.py", "opshin/std/hashlib.py", "opshin/rewrite/rewrite_import_uplc_builtins.py", "opshin/rewrite/rewrite_import_hashlib.py"],
  [("name and value bridge", "opshin/bridge.py"), ("on-chain emission", "opshin/rewrite/rewrite_import_uplc_builtins.py")],
  ["off-chain return value", "on-chain result"])
p("C16", "Script parameters are decoded faithfully and applied in order",
  "A parameter given as JSON or as CBOR is decoded to the value its declared type describes (both notations agree, values not matching the type are rejected), and applying parameters at once, one by one, before or after compilation yields a script equal to calling the function with those values in the given order.",
  ["inputs", "configurations"], "all values of all parameter types, all numbers of parameters and all ways of splitting their application",
  "Types nest without bound and the order/partial application space is combinatorial; tests cover a few parameter lists.",
  ["opshin/__main__.py", "opshin/builder.py", "opshin/util.py"],
  [("parameter parsing", "opshin/__main__.py: parse_plutus_param, plutus_data_from_json, plutus_data_from_cbor"),
   ("parameter application", "opshin/builder.py: _apply_parameters, apply_parameters, PlutusContract.apply_parameter"),
   ("datum conversion", "opshin/util.py: data_from_json, datum_to_cbor")],
  ["decoded parameter values", "applied script"])
p("C17", "Dumped contract artifacts load back to the same contract",
  "A contract written to disk and loaded again (from the directory, the blueprint, the text envelope or the raw script file) has the same script, and hence the same hash, policy id and addresses, and the blueprint preserves title, description, version, license, purposes and the shapes of datum, redeemer and parameter types.",
  ["inputs", "configurations"], "all contracts, all combinations of optional metadata, all schema-expressible types",
  "Optional metadata and recursive types form a combinatorial space; tests cover a couple of contracts.",
  ["opshin/builder.py"],
  [("dump and load", "opshin/builder.py: PlutusContract.dump, load"),
   ("schema conversion", "opshin/builder.py: to_plutus_schema, from_plutus_schema")],
  ["loaded contract object", "files written"])
p("C18", "Type substitutability is a partial order that protects representations",
  "The compiler's relation deciding whether a value of one type may be used where another is declared is reflexive, transitive and antisymmetric over all types, and it only relates types whose on-chain representations are compatible, so that no accepted assignment, call or return reinterprets a value.",
  ["programs"], "all pairs and triples of types, nested arbitrarily",
  "Types nest without bound and the relation is defined case by case; tests check a few pairs.",
  ["opshin/type_impls.py", "opshin/type_inference.py"],
  [("substitutability", "opshin/type_impls.py: __ge__ of every type class")],
  ["acceptance or rejection of programs; result of accepted ones"])
p("C19", "Class tests narrow types soundly on every path",
  "After class tests combined with and, or, not, nested or early-returning branches, conditional expressions, loops and assertions, the compiler lets a program use a union value only in ways that are valid for every class the value can still have on that path, and the fields read are those of the actual class.",
  ["programs", "inputs"], "all accepted programs with class tests over unions x all members of the unions",
  "Narrowing rules compose with boolean structure and control flow without bound; tests cover specific nestings.",
  ["opshin/type_inference.py", "opshin/rewrite/rewrite_cast_condition.py", "opshin/fun_impls.py"],
  [("type check extraction", "opshin/type_inference.py: TypeCheckVisitor and its use in visit_If, visit_IfExp, visit_While, visit_BoolOp, visit_Assert")])
p("C20", "Compilation is deterministic",
  "Compiling the same source with the same settings always yields the byte-identical script, independent of process, hash seed, and what was compiled before in the same process.",
  ["histories", "programs"], "all programs, all process histories and hash seeds",
  "Tests compile each program in one process with one history.",
  ["opshin/compiler.py", "opshin/util.py", "opshin/type_inference.py"],
  [("ordered collections in the compiler", "opshin/*"), ("shared emission cache", "opshin/util.py: make_pattern")],
  ["bytes of the compiled script"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
