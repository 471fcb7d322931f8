# further properties; exec()d by props.py
LANG_NOTE = ("Lang.tla is an executable semantics of the language; LangMC checks its laws exhaustively over small programs, "
             "strings, versions and values. The code is bound to it by thousands of generated programs per run whose printed "
             "values and exit status TLC checks statement by statement. Integers stay within 32 bits, / and % have "
             "non-negative operands, strings are ASCII without quotes.")
LT = "TLA+ executable semantics (laws checked exhaustively with TLC) + trace validation of generated programs with TLC"

prop("P06", "Build files evaluate in order, with their control flow",
     "Statements run in the order written; if, elif and else run exactly the first branch whose condition is true, foreach "
     "runs its body once per element (arrays, dicts, ranges) in order, break and continue affect the innermost loop only, and "
     "and/or/?: evaluate only the operands needed. subdir() evaluates the file of that directory in the same scope at that "
     "point, and subdir_done() leaves just that file.",
     ["programs"], "all build files: nestings of conditionals, loops, assignments and subdir() calls, over all values",
     "A test runs one program; the guarantee is for every nesting of control flow and every value it depends on.",
     ["src/lang/interpreter.c", "src/lang/parser.c", "src/lang/workspace.c", "src/functions/kernel.c"],
     [("statements, loops, conditionals", "src/lang/interpreter.c: interp_node, interp_foreach, interp_if"),
      ("subdir_done", "src/lang/interpreter.c: wk->subdir_done")], LANG_NOTE, LT, observe=["message() output, exit status"])
prop("P07", "Values are immutable",
     "Assigning, passing, storing or iterating over a value and then changing one name, by = or += or set_variable(), never "
     "changes what another name, a container holding the value or a running iteration sees. += on an array or dict rebinds "
     "that one name to a new value.",
     ["programs", "histories"], "all sequences of assignments, += and loops over aliased values",
     "Aliasing bugs show only for particular combinations of sharing and later modification.",
     ["src/lang/interpreter.c", "src/lang/object.c", "src/lang/workspace.c"],
     [("+=", "src/lang/interpreter.c: interp_plusassign, interp_arithmetic"), ("copies", "src/lang/object.c: obj_array_dup, obj_clone")],
     LANG_NOTE, LT)
prop("P08", "Operators and built-in methods compute what is documented",
     "Expressions follow the documented precedence and associativity, and every operator, indexing and string, int, bool, "
     "array and dict method (format, join, split, replace, substring, strip, version_compare, contains, get, keys, ...) "
     "returns the documented value for all arguments, negative indices and empty strings included. Format strings substitute "
     "the variables they name and otherwise behave as one string.",
     ["inputs", "programs"], "all expressions over all values of the basic types",
     "Tests pick a few arguments for each method; the corner cases are in combinations of values.",
     ["src/lang/interpreter.c", "src/lang/parser.c", "src/lang/lexer.c", "src/functions/string.c", "src/functions/array.c",
      "src/functions/dict.c", "src/functions/number.c", "src/functions/boolean.c", "src/functions/kernel.c"],
     [("arithmetic, comparison, indexing", "src/lang/interpreter.c: interp_arithmetic, interp_comparison, interp_index"),
      ("precedence", "src/lang/parser.c: parse_e1..parse_e8"), ("string methods", "src/functions/string.c")], LANG_NOTE, LT)
prop("P09", "Disablers disable everything that uses them",
     "An operation, method call or function call with a disabler among its operands or arguments yields a disabler and has no "
     "effect, and an if statement whose condition is one runs no branch. Only is_disabler(), found() (false), set_variable(), "
     "get_variable() and assignments handle a disabler as a value; expressions without one are unaffected.",
     ["programs"], "all programs in which disablers flow through expressions, containers, loops and calls",
     "Disablers can appear at any operand of any operation; tests use a handful of positions.",
     ["src/lang/interpreter.c", "src/functions/common.c", "src/functions/disabler.c"],
     [("arguments", "src/functions/common.c: interp_args, builtin_run"), ("operators", "src/lang/interpreter.c"),
      ("is_disabler and friends", "src/functions/kernel.c")], LANG_NOTE, LT)
prop("P10", "Script functions have lexical scope and typed, independent arguments",
     "In script mode a function call binds each positional and keyword argument to its parameter, uses defaults evaluated at "
     "definition for the others, and returns the returned value; nested and repeated calls do not disturb each other. A "
     "function sees the variables of the scopes it was defined in, keeps captured ones between calls separately for each "
     "closure, never changes its caller's, and a value not of the declared type is an error.",
     ["programs"], "all programs defining and calling functions and closures with positional and keyword parameters",
     "Scoping errors depend on which calls are nested in which and what was captured.",
     ["src/functions/common.c", "src/lang/interpreter.c", "src/lang/workspace.c", "src/lang/typecheck.c"],
     [("calls", "src/functions/common.c: func_obj_call, func_obj_eval"), ("scopes", "src/lang/workspace.c: workspace_*scope*"),
      ("definitions", "src/lang/interpreter.c: interp_func_def")], LANG_NOTE, LT)
prop("P11", "An error stops the evaluation there and fails the command",
     "At the first erroneous statement (undefined name, type error, bad index or key, wrong argument, failed assert(), "
     "error()) evaluation stops: everything before it took effect, nothing after it runs, also when it happens inside "
     "conditionals, loops and subdirectories, and the command exits with status 1. It never crashes or hangs.",
     ["programs", "fault_sequences"], "all programs with an error of any kind at any point",
     "The failing tests of the suite are one error each at top level.",
     ["src/lang/interpreter.c", "src/lang/eval.c", "src/functions/common.c", "src/functions/kernel.c", "src/error.c"],
     [("errors", "src/lang/interpreter.c: interp_error"), ("propagation out of subdir", "src/lang/eval.c: eval")], LANG_NOTE, LT)
