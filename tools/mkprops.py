"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["asta/" + f for f in files],
            "state": state or [],
            "mechanism": [{"name": n, "where": "asta/" + w} for n, w in mech],
            "observe_at": observe or [],
            "hook_needed": None,
        },
    })


p("C01", "Array shape patterns match exactly the shapes they describe",
  "For every shape pattern made of nonnegative integers, -1 wildcards (any one positive size) and non-adjacent ellipses (any, possibly empty, run of positive sizes), and for every numpy array, isinstance(array, Array[pattern]) is true if and only if the array's shape can be cut up to fit the pattern. A literal 0 fits exactly size 0, an annotation without a shape fits any shape, the empty pattern fits only 0-d arrays, and a value which is not an array never matches.",
  ["inputs"], "every pattern (any length, any mix and position of literals, wildcards, ellipses) x every array shape (any rank, zero sizes included)",
  "The tests sample one wildcard or one ellipsis per pattern from shapes built to match; whether a pattern with several ellipses, repeated sizes, zeros or a suffix needs the search to reconsider an earlier choice is a question over all pattern/shape pairs.",
  ["utils.py", "_array.py"], [("shapecheck / align / check_equal", "utils.py"), ("__instancecheck__", "_array.py")],
  ["isinstance(ndarray, Array[...])"])

p("C02", "Array dtype matching is exact, and joins with the shape by conjunction",
  "isinstance(array, Array[dtype, *shape]) is true if and only if the array's dtype equals the requested one (Python types mean their numpy default; str, bytes and object match any length of that kind; datetime and timedelta match any unit) and the shape matches. An annotation without a dtype matches every plain dtype, and no conversion, promotion, byte-order or width difference is ever tolerated.",
  ["inputs"], "every pair of numpy dtypes (kinds, widths, byte orders, units, string lengths) x every shape pattern, including empty and 0-d arrays",
  "The tests draw an array and check its own dtype, or one different dtype; exactness is a claim over all pairs and over its combination with shape, empty arrays and string kinds.",
  ["_array.py", "constants.py"], [("get_dtype", "_array.py"), ("__instancecheck__", "_array.py"), ("NP_UNSIZED_TYPE_KINDS", "constants.py")],
  ["isinstance(ndarray, Array[dtype, shape])"])

p("C03", "TFTensor matches exactly the tensors its dtype and shape describe",
  "For every TensorFlow tensor, isinstance(tensor, TFTensor[dtype, *pattern]) is true if and only if the tensor's dtype is the requested one (int, float, complex, bool, str and bytes meaning int32, float32, complex128, bool, string, string) and its shape fits the pattern under the same rules as for Array. Arrays and other values never match; tensor shapes can be given as a TensorShape.",
  ["inputs"], "every TF dtype pair x every pattern x every tensor shape",
  "The tests draw a tensor and check annotations derived from its own shape and dtype.",
  ["_tftensor.py", "tftensor.py", "utils.py", "constants.py"], [("__instancecheck__ / get_dtype", "_tftensor.py"), ("TF_DTYPE_MAP", "constants.py")],
  ["isinstance(tf.Tensor, TFTensor[...])"])

p("C04", "Tensor matches exactly the torch tensors its dtype and shape describe",
  "For every torch tensor, isinstance(tensor, Tensor[dtype, *pattern]) is true if and only if the tensor's dtype is the requested one (int, float, bool and bytes meaning torch.int32, float32, bool and uint8) and its shape fits the pattern under the same rules as for Array. Arrays, TensorFlow tensors and other values never match, and the same holds when the annotation is enforced by @typechecked.",
  ["inputs"], "every torch dtype pair x every pattern x every tensor shape",
  "torch is not installed where the stable tests run, so none of them executes this part at all.",
  ["_tensor.py", "tensor.py", "utils.py", "constants.py"], [("__instancecheck__ / get_dtype", "_tensor.py"), ("TORCH_DTYPE_MAP", "constants.py")],
  ["isinstance(torch.Tensor, Tensor[...])"])

p("C05", "Symbolic dimensions match iff some assignment of sizes satisfies them",
  "An annotation whose dimensions contain expressions over asta.symbols matches a value if and only if there is one assignment to the symbols under which every expression equals the size it stands for, each symbol having one value throughout the annotation. Under-determined systems match; contradictory ones never do; an expression which rounds (X // 2, X % 2, Max, Min) has to hold where other dimensions of the annotation yield the values of its symbols; wildcards and ellipses in the same pattern may be cut up in any way that makes the system solvable.",
  ["inputs"], "every system of dimension expressions (linear, polynomial, rounding, several symbols, mixed with literals, wildcards, ellipses) x every shape",
  "A handful of hand-written expressions are tested with hand-picked shapes; agreement of all occurrences of a symbol is a property of all systems and all shapes.",
  ["utils.py", "symbols.py", "_array.py"], [("astasolver", "utils.py"), ("shapecheck", "utils.py"), ("check_equal", "utils.py")],
  ["isinstance(value, Array[X, ...])"])

p("C06", "A symbol has one value across all arguments and the return of a call",
  "In a call of a @typechecked function, every symbol has one value across all annotated parameters, nested containers and the return value: the call is accepted if and only if one assignment satisfies all of them together, otherwise it raises TypeError. Different calls, including nested and recursive ones, do not constrain each other.",
  ["inputs", "histories"], "every signature with shared symbols x every tuple of argument shapes and return shape, over sequences of (nested) calls",
  "Tests call a few fixed functions once or twice; consistency ranges over signatures, arities, containers and call histories.",
  ["decorators.py", "origins.py", "utils.py"], [("_wrapper", "decorators.py"), ("check_asta", "origins.py"), ("astasolver", "utils.py")],
  ["calls of @typechecked functions"])

p("C07", "Checked calls always use the current values of dims and shapes",
  "After any sequence of assignments to asta.dims and asta.shapes, a call of a @typechecked function accepts exactly the values which match its annotations with the current value of every dimension and shape variable put in (also in the values of attribute constraints), whatever the earlier values and calls were (a variable read before it is first assigned stays variable; one read afterwards is its value at that time). Dimension variables may be used in arithmetic expressions, and shape variables may be concatenated or unpacked. A symbol (asta.symbols) with the same name as a dimension variable has nothing to do with it.",
  ["histories", "inputs"], "every interleaving of assignments, annotation definitions and calls, with every set of values",
  "Tests set each variable once or twice; staleness shows only over longer histories of sets, redefinitions and calls.",
  ["substitution.py", "dims.py", "shapes.py", "origins.py", "placeholder.py"], [("substitute", "substitution.py"), ("refresh", "origins.py"), ("Dimensions.__setattr__", "dims.py"), ("Shapes.__setattr__", "shapes.py")],
  ["calls of @typechecked functions after dims.N = ..., shapes.S = ..."],
  [{"name": "dims.symbol_map", "meaning": "value of every dimension variable", "where": "asta/dims.py"}, {"name": "shapes.placeholder_map", "meaning": "value of every shape variable", "where": "asta/shapes.py"}])

p("C08", "Unset or invalid dims and shapes never let a check pass silently",
  "When a @typechecked call checks a value against an annotation which uses a dimension or shape variable that has never been set, for a size or for an attribute, it raises TypeError naming the variable, whatever the value. Assigning anything but an int to a dims attribute, or anything but a tuple of ints to a shapes attribute, raises TypeError and leaves the previous value in force; a dimension expression which evaluates to a non-integer, or which divides by zero, raises TypeError.",
  ["histories", "inputs"], "every annotation using unset variables (alone, in expressions, in sums, in containers) x every argument; every invalid value",
  "One or two fixed cases are tested.",
  ["substitution.py", "dims.py", "shapes.py"], [("fail_uninitialized / fail_numerical_expression", "substitution.py"), ("__setattr__", "dims.py"), ("__setattr__", "shapes.py")],
  ["TypeError from the call or the assignment"])

p("C09", "Shape arithmetic denotes tuple concatenation in order",
  "Any expression which joins shape variables, tuples and dimension variables with + (on either side, associated in any way) or with * unpacking denotes, once the variables have values, the concatenation of those values in the order written. Building an expression never changes the operands, so one variable can be used in many annotations, and operands which are not shapes are rejected with TypeError.",
  ["inputs", "histories"], "every expression tree over shape variables, tuples of sizes, symbols and expressions x every assignment",
  "A few fixed sums are tested; order and non-interference range over all trees.",
  ["placeholder.py", "substitution.py", "origins.py"], [("Placeholder.__add__ / __radd__ / __iter__", "placeholder.py"), ("substitute", "substitution.py")],
  ["calls of @typechecked functions"])

p("C10", "The decorator is transparent for calls that pass, and guards those that fail",
  "When all checks pass, a @typechecked callable runs its body exactly once, in the context of the call (thread, context variables, numpy error handling), with exactly the arguments given, returns the very object the body returned, lets the body's exceptions through unchanged, and keeps the function's name and module; arrays passed are not modified. Decorating a class changes the methods which the class itself defines and nothing else. When an argument fails the check, TypeError is raised before the body is entered; when the return value fails, TypeError is raised after the body ran once.",
  ["inputs", "histories"], "every signature, calling form, argument tuple, return value and exception raised by the body",
  "Tests look at whether TypeError is raised for a few functions, not at the number of executions, identity of arguments and results, or exceptions from the body.",
  ["decorators.py"], [("typechecked / _wrapper", "decorators.py")],
  ["effects of the decorated body"])

p("C11", "Every annotated parameter is checked against its own argument, however passed",
  "For every signature (positional-only, ordinary, keyword-only, defaulted, *args and **kwargs parameters) and every legal way to call it, a @typechecked callable checks each argument, including defaults and each extra argument, against the annotation of exactly the parameter Python binds it to, and the result against the return annotation. The same holds for functions, instance, class and static methods and whole decorated classes; calls Python itself would reject, and functions with unannotated parameters, raise TypeError.",
  ["inputs", "programs"], "every signature x every way to distribute arguments positionally and by keyword x which argument is wrong",
  "Tests use a few signatures, mostly called positionally with every argument right or the first wrong.",
  ["decorators.py"], [("validate_annotations", "decorators.py"), ("typechecked (classes)", "decorators.py")],
  ["TypeError or not"])

p("C12", "Containers are checked exhaustively and structurally",
  "For annotations nesting asta types within List, Tuple, Dict, Set, Sequence, Optional, Union (also spelled X | Y and list[X]), TypedDict (total or not, with inherited, Required and NotRequired keys) and NamedTuple (also with inherited fields) to any depth, a call is accepted if and only if the value has the container structure and every element matches (with check-all-sequence-elements=no, only the first element of a list or sequence is examined). A mismatch anywhere, however deep, raises TypeError.",
  ["inputs", "configurations"], "every nesting of container annotations x every value tree with zero or one or more mismatches at any position",
  "Tests use depth-one containers with one or two elements.",
  ["origins.py"], [("check_annotation and check_list/tuple/dict/set/sequence/union/typed_dict", "origins.py")],
  ["TypeError or not"])

p("C13", "raise-errors and print-passes change only how outcomes are reported",
  "With raise-errors=no, failed checks never raise: every call runs its body and returns its result exactly as the undecorated function would, and a report is printed if and only if the same call would have raised under raise-errors=yes. With print-passes=no, a call which passes prints nothing; with print-passes=yes, each passed check of an asta annotation is reported, and what passes or fails is the same under both.",
  ["inputs", "configurations"], "every combination of the two options x every call",
  "The tests run under one configuration only.",
  ["display.py", "decorators.py", "origins.py"], [("handle_error / handle_pass", "display.py")],
  ["stdout, exceptions and results"])

p("C14", "Typechecking is on iff both the configuration and the environment allow it",
  "A decorated callable is checked if and only if the configured on option is yes and ASTA_TYPECHECK, at the time of decoration, is either unset or \"1\"; otherwise the decorator returns the function itself, unchanged. The decision is made afresh for every decoration, so switching the variable off and on again changes only what is decorated meanwhile. Importing asta prints a warning exactly when checks are on and passes are not printed.",
  ["configurations", "histories"], "every configuration x every history of values of the environment variable interleaved with decorations and calls",
  "The tests fix the variable to one value for the whole process.",
  ["decorators.py", "warning.py", "config.py"], [("typechecked", "decorators.py"), ("get_ox", "config.py")],
  ["identity of the decorated function; TypeError or not"])

p("C15", "Configuration is found in the documented places, by precedence, with defaults",
  "The options in force are those of the first configuration found among astarc, .astarc, pyproject.toml and setup.cfg in the working directory (files of the last two kinds counting only if they have a section for asta), then astarc files in enclosing packages, the file named by ASTARC (or else the user's files); every option the file does not set has its documented default. Importing asta works whatever unrelated content these files have.",
  ["configurations", "inputs"], "every set of present files x their sections, options and unrelated contents",
  "No test touches configuration files.",
  ["config.py", "defaults/astarc"], [("find_default_config_files / read_config / get_ox", "config.py")],
  ["behaviour of decorated functions in a fresh process"])

p("C16", "Equality and hashing of annotations are coherent and mean 'same annotation'",
  "Annotations are equal if and only if they are of the same class (Array, Tensor, TFTensor) and have the same dtype, shape pattern and attribute constraints; equality is symmetric, and equal annotations have equal hashes, whenever and in whatever order those are computed. Hence sets, dictionaries and typing generics such as List[Array[...]] and Union[...] keep distinct annotations distinct.",
  ["inputs", "histories"], "every pair of annotations, however spelled or derived from one another, x every order of hashing and comparing",
  "Tests compare a few fixed pairs.",
  ["classes.py", "_array.py", "_tensor.py", "_tftensor.py"], [("__eq__ / __hash__", "classes.py")],
  ["==, hash(), set membership, typing generics"])

p("C17", "Equivalent subscript spellings agree and invalid subscripts raise TypeError",
  "All documented spellings of the same annotation (sizes listed or in one tuple, () or Scalar, Python type or its dtype, dtype omitted, a shape attribute of a value) give annotations which are equal and match the same values. A subscript with adjacent ellipses, a dimension of an unsupported type (floats, strings, lists, booleans, numpy integers), several scalar markers, or a type from another framework raises TypeError; so does calling an annotation as if it were a constructor.",
  ["inputs"], "every valid annotation x its spellings; every invalid element at every position",
  "Tests check a few invalid subscripts and spellings.",
  ["parser.py", "classes.py", "_array.py", "_tftensor.py"], [("parse_subscript / verify_dimensions", "parser.py"), ("get_shape", "classes.py")],
  ["TypeError from the subscript; isinstance"])

p("C18", "Aliases accumulate constraints without affecting the alias",
  "Subscripting an annotation again (an alias such as Float = Array[float]; Float[3, -1]) yields the annotation with the earlier dtype, shape and attributes except those the new subscript gives, in any order and number of steps, equal to the one written at once. Neither the alias nor other annotations derived from it change what they match.",
  ["inputs", "histories"], "every chain or tree of subscriptions supplying dtype, shape, attributes",
  "No test subscripts an annotation twice with a different kind of argument.",
  ["parser.py", "classes.py"], [("parse_subscript", "parser.py"), ("__getitem__", "classes.py")],
  ["isinstance, =="])

p("C19", "Attribute constraints require every listed attribute to be present and equal",
  "An annotation whose subscript ends with a dictionary matches a value if and only if dtype and shape match and the value has every named attribute with a value equal to the given one; this holds in isinstance and in @typechecked calls, in containers, and for symbolic attribute values, which in a call must agree with the other uses of the symbols.",
  ["inputs"], "every dictionary of attributes x every array/tensor, dtype and shape",
  "One fixed example is tested.",
  ["utils.py", "parser.py", "origins.py"], [("attrcheck", "utils.py"), ("refresh", "origins.py")],
  ["isinstance and @typechecked"])

p("C20", "A missing framework disables only its own annotation class",
  "With torch and/or TensorFlow absent, importing asta, and everything about the annotation classes of the frameworks which are present, behaves exactly as with all of them installed; any use of the missing class (subscripting, isinstance) raises ImportError rather than giving an answer. Values of one framework never match the annotations of another.",
  ["configurations", "inputs"], "every subset of installed frameworks x every annotation and value",
  "The tests run in one environment, which has TensorFlow and not torch.",
  ["switchboard.py", "unusable.py", "constants.py", "origins.py", "display.py"], [("Tensor / TFTensor stand-ins", "unusable.py"), ("TorchModule / TFModule", "constants.py")],
  ["isinstance, subscripts, @typechecked under each subset"])

p("C21", "check-non-asta-types checks ordinary annotations and nothing else does",
  "With check-non-asta-types=yes, a @typechecked call is accepted if and only if every argument and the result is an instance of its ordinary annotation (builtin types, user classes, None, Any, Callable and its arity, Type, Literal, IO types, and containers of these). With the default (no), a builtin type, class, Callable, Type, Literal or IO annotation never causes an error, whatever the value, while asta annotations next to or inside it, and the containers they sit in, are still enforced.",
  ["inputs", "configurations"], "every non-asta annotation x every value, under both settings",
  "The stable tests run with the default configuration, where none of this code runs.",
  ["origins.py"], [("check_annotation / NON_ASTA_CHECKERS", "origins.py")],
  ["TypeError or not"])

p("C22", "isinstance and @typechecked give the same verdict on the same annotation",
  "For every annotation without dims or shapes variables or symbolic attribute values, and every value, calling a @typechecked function with a parameter of that annotation raises TypeError if and only if isinstance(value, annotation) is false, and so does returning the value from one annotated with it.",
  ["inputs"], "every annotation (dtype, kind, pattern, symbols, attributes) x every value",
  "Tests cover each of the two ways on its own.",
  ["origins.py", "decorators.py", "_array.py", "_tftensor.py"], [("refresh / check_asta", "origins.py"), ("__instancecheck__", "_array.py")],
  ["isinstance vs TypeError"])

p("C23", "Diagnostics name the argument, what was expected and what was given",
  "When a check of an asta annotation fails, the TypeError message (or the printed report) identifies the function (by module and qualified name) and the parameter (with the path to the element within containers, or the return value), the expected annotation and the actual type with its dtype and shape; reports of passed checks carry the same, and so do failures of containers (with the actual type, length or keys) and ordinary annotations. The textual form of an annotation shows its dtype, shape pattern and attributes.",
  ["inputs"], "every failing or passing call, every annotation and value, every path",
  "Tests only look at the exception type.",
  ["display.py", "classes.py", "utils.py", "origins.py"], [("fail_argument / type_representation", "display.py"), ("__repr__", "classes.py"), ("shape_repr", "utils.py")],
  ["str(exception), stdout, repr(annotation)"])

p("C24", "Checks are pure: verdicts do not depend on what was checked before",
  "The verdict of a check is a function of the annotation, the value and the current variables only: repeating, interleaving or reordering checks (passing, failing, or raising) and calls never changes a later verdict, and checks modify neither values nor annotations, nor the state of Python's and numpy's random generators.",
  ["histories", "inputs"], "every sequence of isinstance checks, decorated calls, hashes and reprs, in any order",
  "Each test looks at a fixed short history.",
  ["utils.py", "classes.py", "origins.py", "decorators.py", "display.py"], [("shapecheck / attrcheck", "utils.py"), ("refresh", "origins.py")],
  ["verdicts compared with those of a fresh process or a fresh annotation"])

p("C25", "Scalar matches exactly the scalars of every framework and of Python",
  "isinstance(value, Scalar) is true if and only if value is a Python scalar (bool, int, float, complex, bytes, str, datetime, timedelta or a subclass) or a 0-d array or tensor of an installed framework. As a dimension, Scalar is interchangeable with () and matches exactly 0-d values.",
  ["inputs"], "every value of Python, numpy and TensorFlow, of every rank and dtype",
  "Few values are tested.",
  ["scalar.py", "constants.py", "parser.py"], [("ScalarMeta.__instancecheck__", "constants.py"), ("Scalar in parse_subscript", "parser.py")],
  ["isinstance(value, Scalar), Array[Scalar]"])

p("C26", "Checks which overlap in time do not affect one another",
  "Calls of @typechecked functions, isinstance checks and the writing of annotations may overlap: in several threads, with their steps interleaved in any way, or because a check runs code of the value (its iteration, properties, text) which itself makes checks. Each has the outcome it has alone: the same verdict and error, its own arguments given to its own body once, its own result returned, its own report printed, and no symbol gets a value from another call.",
  ["schedules", "inputs"], "every interleaving of the steps of every set of overlapping checks, every point at which a check calls back",
  "Tests make one check at a time; races need a particular interleaving.",
  ["decorators.py", "origins.py", "utils.py", "classes.py", "config.py", "dims.py", "shapes.py"], [("_wrapper", "decorators.py"), ("check_annotation / check_union", "origins.py"), ("__getitem__ / __hash__", "classes.py")],
  ["outcomes of each call and check, compared with those it has alone"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), [len(x["title"]) for x in P if len(x["title"]) > 80])
