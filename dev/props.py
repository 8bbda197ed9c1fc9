p("C04", "Conditional jumps and loops follow the truth and iteration protocols",
  "For every tested value, a conditional branch evaluates its truth exactly once, takes the branch that version "
  "specifies and keeps or drops the tested value as specified; an error in the test propagates. For every iterable, a "
  "`for` loop runs its body once per item, in order, and its `else` exactly when the items run out.",
  "inputs configurations fault_sequences", "all truth values, iterables of bounded length, early exits and raising tests",
  "Tests branch on plain booleans and small lists; value-keeping jumps, objects with unusual truth and errors raised "
  "by the test or the iterator in each version's opcode variants are not sampled.",
  [B + "byteop24.py", B + "byteop27.py", B + "byteop32.py", B + "byteop311.py", B + "byteop312.py", VM],
  [("conditional jumps", B + "byteop24.py:JUMP_IF_FALSE"), ("iteration", B + "byteop24.py:FOR_ITER"),
   ("block unwinding", VM + ":manage_block_stack")])
p("C05", "Names resolve to the right scope; binding and deleting affect only that scope",
  "Whatever names are bound in the local, enclosing, global and builtin scopes, reading a name yields the binding that "
  "Python's scoping rules pick, or raises NameError/UnboundLocalError when there is none. Binding or deleting changes "
  "exactly the one binding the statement denotes, and cells are shared between every scope that refers to them.",
  "inputs programs configurations", "all combinations of presence of a name in each scope, for each kind of access and version",
  "Tests rarely shadow one name in several scopes or read unbound and deleted names, and never for each version's "
  "opcodes.",
  [B + "byteop24.py", B + "byteop.py", B + "byteop32.py", B + "byteop34.py", B + "byteop311.py", "xpython/pyobj.py"],
  [("name lookup", B + "byteop.py:lookup_name"), ("cells", "xpython/pyobj.py:Frame")])
p("C06", "Collection displays, unpacking, subscripts and slices match Python",
  "For all element values and counts, building, extending, unpacking, subscripting and slicing collections evaluates and "
  "stores elements in source order and gives the collection, the assignment or the exception that Python gives.",
  "inputs configurations fault_sequences", "all element values, element counts up to the bound, and operand choices, per version",
  "Tests use a few literals of small size; wrong counts, key/value order, duplicate keys, raising operations and each "
  "version's own instructions are not covered.",
  [B + "byteop24.py", B + "byteop27.py", B + "byteop32.py", B + "byteop35.py", B + "byteop36.py", B + "byteop39.py",
   B + "byteop312.py", VM],
  [("displays", B + "byteop24.py:BUILD_TUPLE"), ("unpacking", B + "byteop24.py:UNPACK_SEQUENCE"),
   ("slices", VM + ":sliceOperator")])
p("C07", "Calls deliver exactly the arguments that were written",
  "For every combination of positional, keyword, `*` and `**` arguments, a call instruction hands the callee exactly "
  "those positional arguments in order and those keywords, once, and leaves the callee's result (or exception) as the "
  "value of the call.",
  "inputs configurations fault_sequences", "all argument counts up to the bound, keyword names, and call forms, per version",
  "Tests call a few functions with few arguments; per-version call encodings with many arguments, mixed forms and "
  "duplicates are not covered.",
  [B + "byteop24.py", B + "byteop35.py", B + "byteop36.py", B + "byteop37.py", B + "byteop311.py", B + "byteop312.py"],
  [("argument collection", B + "byteop24.py:call_function"), ("3.6+ calls", B + "byteop36.py:CALL_FUNCTION_KW")])
p("C08", "Parameters are bound exactly as Python binds them",
  "For every signature and every call, a function run by the interpreter binds its parameters to the values Python "
  "would bind them to, applying positional, keyword, variadic, keyword-only, positional-only and default rules. Where "
  "Python raises TypeError, so does the interpreter, and no body code runs.",
  "inputs programs configurations", "all signatures and call shapes within the bound, argument values symbolic",
  "The space of signature/call combinations is far larger than the few calls tests make, especially the failing ones.",
  ["xpython/pyobj.py", "xpython/stdlib/inspect3.py", B + "byteop24.py"],
  [("binding", "xpython/pyobj.py:Function.__call__"), ("argument matching", "xpython/stdlib/inspect3.py:getcallargs")])
p("C09", "Function objects carry their code, defaults, annotations and captured variables",
  "For every function definition, the function object created has the defaults, keyword-only defaults, annotations, "
  "name and captured variables that were written, evaluated once at definition time, and later calls use them.",
  "inputs configurations programs", "all combinations of defaults, keyword defaults, annotations and closure sizes, per version",
  "Each version encodes these differently, and tests only define a handful of functions.",
  [B + "byteop24.py", B + "byteop32.py", B + "byteop33.py", B + "byteop36.py", B + "byteop311.py", "xpython/pyobj.py"],
  [("function creation", B + "byteop36.py:MAKE_FUNCTION"), ("function object", "xpython/pyobj.py:Function")])
p("C10", "Exceptions reach the right handler and `finally` code always runs",
  "Whatever operation raises at whatever point, control goes to the innermost matching handler with the exception "
  "available there, enclosing `finally` code runs exactly once on every way out (exception, return, break, continue), "
  "and an unhandled exception propagates to the caller frame by frame.",
  "programs fault_sequences configurations", "all fault points in nested try/except/finally/loop/with programs up to the bound",
  "Tests raise at a few fixed places; every combination of fault point, exit kind and nesting, per version, is a "
  "much larger space.",
  [VM, B + "byteop24.py", B + "byteop32.py", B + "byteop35.py", B + "byteop38.py", B + "byteop39.py", B + "byteop311.py"],
  [("unwinding", VM + ":manage_block_stack"), ("propagation", VM + ":propagate_exception"),
   ("end of finally", B + "byteop24.py:END_FINALLY")])
p("C11", "`raise` raises exactly the exception that was written",
  "For every form of raise (bare, class, instance, with argument, with cause), the exception that handlers see has the "
  "type, value and cause (and, since 3.0, context) Python gives it, and an illegal operand raises TypeError.",
  "inputs configurations", "all raise forms and operand kinds, per version",
  "Tests raise a few instances; classes, causes, non-exceptions and bare re-raises in each version's encoding are not "
  "covered.",
  [B + "byteop24.py", B + "byteop32.py", B + "byteop35.py", B + "byteop39.py", VM],
  [("raise", B + "byteop24.py:RAISE_VARARGS"), ("three-way raise", B + "byteop32.py:do_raise")])
p("C12", "`with` enters and exits its context manager exactly once",
  "For every way of leaving a `with` body, the manager's exit is called exactly once, with the exception or with Nones, "
  "after the body and before control continues; a true result from exit suppresses the exception, and a false one "
  "lets it continue.",
  "programs fault_sequences configurations", "all fault points in the body, the enter and the exit, all exit results, per version",
  "Tests exercise a few with statements; faults at each point and every exit kind for each version's encoding are not.",
  [B + "byteop26.py", B + "byteop27.py", B + "byteop32.py", B + "byteop35.py", B + "byteop38.py", B + "byteop39.py",
   B + "byteop311.py", VM],
  [("enter/exit", B + "byteop32.py:SETUP_WITH"), ("cleanup", B + "byteop35.py:WITH_CLEANUP_START")])
p("C13", "Generators obey the generator protocol over any sequence of resumptions",
  "For every sequence of next, send, throw and close on a generator run by the interpreter, the values yielded, "
  "received and returned, and the exceptions raised, are those of Python's generator protocol. A finished generator "
  "stays finished, and each generator keeps its own state whatever else runs in between.",
  "histories inputs configurations", "all histories of resumptions up to the bound, interleaved over two generators",
  "Tests consume generators with for loops; histories mixing send, throw, close, exhaustion and interleaving are not "
  "sampled.",
  ["xpython/pyobj.py", B + "byteop25.py", B + "byteop33.py", B + "byteop311.py", VM],
  [("generator object", "xpython/pyobj.py:Generator"), ("resumption", VM + ":resume_frame")])
p("C14", "Creating an interpreter for one version never changes another version",
  "For every sequence of interpreter creations over supported versions, each interpreter executes its own version's "
  "instructions exactly as if it had been created first and alone.",
  "histories configurations", "all pairs (and, thorough, triples) of versions created before the interpreter under test",
  "Each test process uses one order of creation; the effect of creating another version first is never compared.",
  [B + "__init__.py", B + "byteop25.py", B + "byteop38.py", B + "byteop311.py"],
  [("version selection", B + "__init__.py:get_byteop")])
p("C15", "Instructions a version does not have are refused, and those it has are not",
  "For every supported version, executing an instruction the version does not define is reported as an interpreter "
  "error and never silently executed; an unsupported version is refused when the interpreter is created.",
  "configurations inputs", "all instruction numbers 0..255 of every version, and all version numbers in a range",
  "Tests only run valid compiled code.",
  [B + "__init__.py", VM], [("version selection", B + "__init__.py:get_byteop"), ("dispatch", VM + ":dispatch")])
p("C16", "Tracing and breakpoints do not change what the program computes",
  "For every program in the bound and every set of traced events and breakpoints, a traced run has the same results, "
  "exceptions and side effects as an untraced run. The trace callback sees call, line, exception and return events "
  "in the order of execution, each with the frame's true location.",
  "programs inputs configurations", "all subsets of traced event kinds and all breakpoint positions over the bounded programs",
  "Tests trace one or two programs with all events; subsets, exceptions and breakpoints are not compared with an "
  "untraced run.",
  ["xpython/vmtrace.py", VM], [("traced evaluation", "xpython/vmtrace.py:PyVMTraced.eval_frame")])
p("C17", "The current line number is always the line of the instruction being executed",
  "For every line table and every control-flow path, the line number reported for a frame (in tracebacks and frame "
  "objects) is the source line the table assigns to the instruction being executed.",
  "inputs programs", "all line tables over a small program and all paths through it",
  "Tests never check line numbers along jumps or through tables with unusual shapes.",
  [VM, "xpython/pyobj.py"], [("line tracking", VM + ":parse_byte_and_args"), ("line of a frame", "xpython/pyobj.py:Frame.line_number")])
p("C18", "A run ends with a truthful status and report",
  "Running a program reports success if and only if the program finished normally; otherwise it reports failure and "
  "prints the exception's type and message whatever the exception is. A later run on the same interpreter is not "
  "affected by an earlier one.",
  "programs inputs fault_sequences", "all endings of a program, and exceptions whose printing itself fails",
  "Tests only run programs that succeed or compare output of a few that fail.",
  [VM, "xpython/execfile.py"], [("top-level run", VM + ":run_code")])
p("C19", "Running a file, module or string restores the host's argv, path and main module",
  "However the program ends, including by raising or exiting, running a file or string leaves the host's argument "
  "list, import path and main module as they were before, while the program itself sees its own.",
  "fault_sequences inputs", "all points at which the run may fail",
  "Tests never look at the host's state after a failing run.",
  ["xpython/execfile.py"], [("running a program", "xpython/execfile.py:exec_code_object"),
                            ("running a file", "xpython/execfile.py:run_python_file")])
p("C20", "Class statements build the class Python would build",
  "For every class body, base list and metaclass keyword, the class created has the name, bases, metaclass and "
  "namespace Python gives it, with the metaclass hooks called in Python's order and `super()`/`__class__` working.",
  "programs inputs configurations", "all base lists, metaclass choices and keyword sets within the bound, per version",
  "Tests define a few simple classes.",
  [B + "byteop24.py", B + "byteop32.py", B + "byteop34.py", "xpython/builtins.py", "xpython/pyobj.py"],
  [("class construction", "xpython/builtins.py:build_class"), ("Python 2 classes", B + "byteop24.py:BUILD_CLASS")])
p("C21", "Import statements request and bind exactly what was written",
  "For every import form, the module, level and name list written are requested once, and exactly the names written "
  "(or, for star imports, the module's public names) are bound; failures raise ImportError.",
  "inputs configurations fault_sequences", "all import forms, module contents and failures within the bound, per version",
  "Tests import a few standard modules.",
  [B + "byteop24.py", B + "byteop37.py", B + "byteop311.py"],
  [("import", B + "byteop24.py:IMPORT_NAME"), ("star import", B + "byteop24.py:IMPORT_STAR")])
p("C22", "Formatted strings apply the written conversion and format specification",
  "For every value, conversion and format specification, a formatted-string field equals what Python's format of the "
  "converted value gives, and the pieces are joined in order.",
  "inputs configurations", "all flag combinations, values and specifications within the bound, per version",
  "Tests format a few integers and strings.",
  [B + "byteop36.py"], [("field formatting", B + "byteop36.py:FORMAT_VALUE"), ("joining", B + "byteop36.py:BUILD_STRING")])
p("C23", "Attribute access uses the written object and name and propagates its errors",
  "For every object, reading, writing or deleting an attribute or calling a method acts on the written object with the "
  "written name exactly once, binds methods as Python does, and raises the exception the object raises.",
  "inputs configurations fault_sequences", "all attribute outcomes (value, descriptor kind, exception) per version",
  "Tests access ordinary attributes of a few objects.",
  [B + "byteop24.py", B + "byteop37.py", B + "byteop311.py", B + "byteop312.py", B + "byteop37pypy.py"],
  [("attributes", B + "byteop24.py:LOAD_ATTR"), ("methods", B + "byteop37.py:LOAD_METHOD")])
p("C24", "Python 2 print writes exactly the text Python 2 writes",
  "For every sequence of items, newlines and destinations, Python 2's print statement writes the same characters "
  "to the same stream as Python 2, including its spacing rule.",
  "inputs histories configurations", "all sequences of print operations up to the bound, on standard output or another stream",
  "Tests compare the output of a few print statements.",
  [B + "byteop24.py"], [("print", B + "byteop24.py:PRINT_ITEM")])
p("C25", "Logging and formatting instructions never disturb the program",
  "For every program in the bound, turning instruction logging on does not change the program's results, exceptions "
  "or side effects, and instruction formatting never fails, whatever is on the stack.",
  "programs inputs configurations", "all instructions and stack depths within the bound, at every logging level",
  "Tests run with logging off or do not compare with a run with it off.",
  [VM, B + "byteop24.py"], [("formatting", VM + ":format_instruction")])
p("C26", "Namespace builtins see and affect the interpreted program's own scopes",
  "Inside interpreted code, globals(), locals(), vars(), dir(), eval(), exec() and execfile() read and write the "
  "interpreted frame's namespaces, or the explicitly given ones, as in Python, and evaluate in the interpreter.",
  "inputs programs configurations", "all combinations of explicit/implicit namespaces and calling scopes",
  "Tests call eval and exec in one or two ways.",
  ["xpython/builtins.py", B + "byteop.py", B + "byteop24.py"],
  [("builtins", "xpython/builtins.py:make_compatible_builtins"), ("eval/exec", B + "byteop.py:call_function_with_args_resolved")])
p("C27", "A compiled program behaves as it does under the host Python",
  "For every program in the grammar and every input in the bound, running its compiled code gives the same result, "
  "output and exception type as the host Python running the same program.",
  "programs inputs", "all inputs to the bounded set of programs, the inputs symbolic",
  "Tests compare single concrete runs.",
  ["xpython/vm.py", "xpython/byteop/byteop312.py", "xpython/byteop/byteop311.py"],
  [("interpreter loop", VM + ":eval_frame")])
p("C28", "Running out of stack in a call fails that call and damages nothing else",
  "For every program in the bound and every amount of stack space the host has left, a call that runs out of it raises "
  "RecursionError in the caller, which can handle it: clean-up code runs, no frame or handled exception is left behind, "
  "generators are not damaged, and the program goes on as after any other exception.",
  "programs fault_sequences", "all amounts of host stack left, over callees of all kinds",
  "Where the host's stack ends inside the interpreter depends on call depth; tests never get near the limit.",
  [VM, "xpython/pyobj.py"], [("leaving calls", VM + ":dispatch"), ("running a generator", "xpython/pyobj.py:Generator.send")])
