#!/usr/bin/env python3
# Writes /verif/properties.jsonl. The property texts live here so that they can be edited comfortably.
import json, os
I='CppLisp/CppLispInterpreter/'
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=state or [],observe_at=observe or [],hook_needed=None)))
EV=I+'Environment.cpp'
p('C01','Tokens are exactly the source text, in order, at the right place',
 'For every source text, the tokenizer yields the brackets, quote marks, atoms, string literals and comments of the text completely and in order, and nothing else: white space only separates, a line comment ends at the end of its line, and a string literal keeps every character with its escapes decoded (\\n, \\r, \\t; a backslash in front of another backslash, white space or a delimiter stands for that character); quote marks, strings and brackets end an atom in front of them. Escapes of other characters and strings that are not closed are LISP errors. Each token carries the number of the line on which it ends and a stop offset: the index of its last character, for an atom the index behind it, for a comment that of its semicolon; its start offset is the place behind the stop offset of the previous token. A backslash outside of a string is unspecified.',
 ['inputs'],'every source text (any characters, any length)',
 'The tests tokenize about a dozen fixed texts; adjacency of escapes, comments, newlines and brackets has far more combinations than that.',
 [I+'Tokenizer.cpp',I+'Token.cpp'],[('LispTokenizer::Tokenize',I+'Tokenizer.cpp'),('LispToken ctor',I+'Token.cpp')],['LispTokenizer::Tokenize'])
p('C02','A program parses exactly if its brackets balance, into the same nesting',
 'Parsing a program succeeds exactly if its tokens form balanced bracketed expressions with an expression after every quote mark; any other sequence is reported as a LISP error with a position instead of yielding a tree or crashing. The tree has the nesting and element order of the source (quote marks become quote, quasiquote and unquote forms, comments vanish), and printing a parsed expression (whose strings contain no quotation mark or backslash) gives text that parses to an equal expression.',
 ['inputs'],'every bracket/atom/quote/comment sequence',
 'Tests parse a handful of well-formed and three malformed programs.',
 [I+'Parser.cpp',I+'Tokenizer.cpp',I+'Variant.cpp'],[('LispParser::ParseTokens',I+'Parser.cpp'),('LispVariant::ToString',I+'Variant.cpp')],['LispParser::Parse','Lisp::Eval'])
p('C03','Literals denote the value they spell',
 'Every integer literal in the range of the 32-bit integer type evaluates to exactly that integer, every decimal literal and every integer literal out of that range to the nearest double, #t/#f/true/false/nil to their constants, and every string literal to its decoded characters; any other atom is a symbol. An integer, Boolean, nil or a string without quotation marks and backslashes printed (as an element of a list) and read back gives an equal value of the same type.',
 ['inputs'],'every atom text',
 'Tests use a few small numbers; sign, leading zeros, range limits and near-numbers such as 1a or 1.2.3 are not enumerated.',
 [I+'Token.cpp',I+'Utils.cpp',I+'csobject.cpp'],[('LispToken ctor',I+'Token.cpp'),('Int32_TryParse/Double_TryParse',I+'Utils.cpp')],['Lisp::Eval'])
p('C04','Arithmetic gives the mathematical result with the documented promotion',
 'For all operands, + - * / and % on integers compute the exact integer result whenever it fits the 32-bit type and wrap around otherwise (the quotient is cut towards zero and the remainder has the sign of the dividend), compute in double as soon as one operand is a double, add strings by concatenation and lists by appending (nil counts as the empty list), and fold left to right over any number of arguments; (- x) negates. Operand types for which an operation is undefined, and integer division or remainder by zero, raise a LISP error; operands are never modified.',
 ['inputs'],'every operand tuple of every type',
 'Tests use a few dozen constant expressions.',
 [I+'Variant.cpp',EV],[('LispVariant operators',I+'Variant.cpp'),('ArithmetricOperation',EV)],['Lisp::Eval'])
p('C05','Comparison and equality are coherent orders',
 'For two integers or two strings exactly one of <, =, > holds (numerically, and by character code); doubles, and integers and Booleans mixed with numbers, are ordered numerically, and are = if they differ by less than 1e-8. a <= b and a >= b mean not greater and not less, = is symmetric and != is its negation; lists are equal element by element, and a string equals a number or Boolean only if that prints as the string. = on any other values of different kinds is false and never an error. Ordering values that have no order (two Booleans, nil, lists, symbols, dictionaries, functions) raises a LISP error, as does any number of arguments other than two.',
 ['inputs'],'every pair of values',
 'Tests compare selected constants; order laws quantify over all pairs and triples.',
 [I+'Variant.cpp',I+'csobject.cpp',EV],[('LispVariant::operator<, EqualOp',I+'Variant.cpp'),('CompareOperation',EV)],['Lisp::Eval'])
p('C06','Bit and shift operations act on 32-bit integers',
 '& | ^ << and >> of two integers and ~ of one give the two\'s-complement 32-bit result for all integer operands (>> keeps the sign); shift counts outside 0 to 31 give some integer and never undefined behaviour. Operands that are not integers and other numbers of arguments raise a LISP error.',
 ['inputs'],'every operand tuple',
 'One or two constants per operation are tested.',
 [EV,I+'Variant.cpp'],[('BitAnd/BitOr/BitXOr/BitNot/shift builtins',EV)],['Lisp::Eval'])
p('C07','List operations obey the sequence laws',
 'For every list and every index in range, len, first, rest, last, nth, reverse, append, cons, list, map, reduce (function of element and accumulated value, from the left), push and pop (at a position) return what the corresponding sequence operation defines, with order and multiplicity preserved, and only push, pop, and setf on elements change a list. push and pop at or behind the end of the list return nil and change nothing. Accessing an element that does not exist, a negative position, a value that is not a list and a wrong number of arguments raise a LISP error; the rest of the empty list is the empty list.',
 ['inputs','programs'],'every list (length, element types) and every index',
 'Tests use lists of two or three fixed elements and indices in range.',
 [EV],[('Length/First/Rest/Last/Nth/Push/Pop/Append/Reverse/Map/Reduce/Sort',EV)],['Lisp::Eval'])
p('C08','String functions obey their definitions for every text and index',
 'search finds the first occurrence at or after the given position (at most the given number of characters further) or yields -1, for a list the first element that prints as the text; slice returns exactly the addressed characters (a length past the end stops at the end, a negative length means to the end), replace replaces every non-overlapping occurrence from the left, trim removes only surrounding white space, upper-case/lower-case change only letters, and len, first, last, rest, nth and reverse treat a string as its character sequence. Indices outside the text raise a LISP error (first of the empty text is the empty text), and arguments are not modified.',
 ['inputs'],'every string and every index',
 'Tests use a few literals.',
 [EV,I+'csstring.cpp',I+'csstring.h'],[('Search/Slice/Replace/Trim/UpperCase/LowerCase',EV),('string helpers',I+'csstring.h')],['Lisp::Eval'])
p('C09','A dictionary is a finite map',
 'After any sequence of dict-set, dict-remove and dict-clear, dict-get returns the value last stored under an equal key and the undefined value otherwise, dict-remove tells if the key was present, dict-contains-key and dict-contains-value answer by equality, and dict-keys and len list each present key exactly once. Keys are equal if they are of the same kind and equal, where an integer and a double of the same value are the same key. Operations on one dictionary do not affect another one; all names for one dictionary see its changes.',
 ['histories','inputs'],'every operation sequence over every key and value',
 'Tests run fixed three- or four-step sequences with constant keys.',
 [EV,I+'cstypes.h',I+'csobject.cpp'],[('DictSet/DictGet/DictRemove/...',EV),('Dictionary',I+'cstypes.h'),('object::operator<',I+'csobject.cpp')],['Lisp::Eval'])
p('C10','Variables follow lexical scoping',
 'A name resolves to the innermost binding visible at the place of use: parameters and local definitions of the running function, then those of the functions around its place of definition (not of its callers), then global ones, then those of imported modules; a name without binding stands for its symbol, and calling it is a LISP error. def binds in the scope of the running function, gdef in the global one, setf changes the binding that resolution finds and raises a LISP error if there is none, and local names never leak out. A function value keeps access to the bindings of its place of definition after that scope was left, and every call of a function has bindings of its own.',
 ['programs'],'every arrangement of definitions, shadowing, assignment, closures and calls',
 'Tests contain a few scoping programs, none with shadowing on several levels combined with assignment.',
 [I+'Scope.cpp',EV,I+'Interpreter.cpp'],[('ResolveInScopes/SetInScopes',I+'Scope.cpp'),('def/gdef/setf/fn forms',EV)],['Lisp::Eval'],
 [dict(name='scope chain',meaning='dictionary of bindings with links to closure, global and calling scope',where=I+'Scope.h')])
p('C11','A call binds its arguments positionally and runs the body once',
 'Calling a user-defined function evaluates every argument exactly once in the scope of the caller (names first, then nested forms from left to right), binds them to the parameters in order, evaluates the body and yields its value or, if a return is executed as a statement of the body (also inside of do, if and while), the value of that return at once; missing arguments are nil and surplus ones are reachable by arg, args and argscount. apply and a direct call see the same arguments, recursion gives every activation its own bindings, and a return ends only the function in which it is executed.',
 ['programs','inputs'],'every function shape, argument count and nesting of calls',
 'Tests call a few fixed functions.',
 [EV,I+'Interpreter.cpp',I+'Scope.cpp'],[('fn_form',EV),('EvalAst, ResolveArgsInScopes',I+'Interpreter.cpp')],['Lisp::Eval'])
p('C12','Macros substitute unevaluated arguments for parameters',
 'A macro call behaves as evaluating, in the scope of the call, the macro body with each parameter replaced by the corresponding argument form; arguments are not evaluated by the call itself. This holds for run-time macros (define-macro-eval, define-macro) with a list as body, and for compile-time macros (define-macro-expand), whose replaced body is evaluated at expansion and whose value then stands in the code in place of the call. Nested calls are expanded too, and a call with too few arguments raises a LISP error.',
 ['programs'],'every macro body and argument form',
 'Tests expand a few fixed macros.',
 [EV,I+'Interpreter.cpp'],[('define-macro-eval/define-macro-expand',EV),('ExpandMacros, ReplaceFormalArguments',I+'Interpreter.cpp')],['Lisp::Eval'])
p('C13','Quoting returns code as data, unquoting inserts values',
 'quote returns its argument unevaluated with its structure; quasiquote does so except that at any nesting depth an unquoted form is replaced by its value and a spliced form by the elements of its list value. Evaluating a quoted expression with eval gives what evaluating the expression itself gives.',
 ['programs'],'every template structure and every position of unquote and splice',
 'Tests use a few flat templates.',
 [EV,I+'Parser.cpp'],[('quasiquote form, ProcessQuotedSExpression',EV)],['Lisp::Eval'])
p('C14','Control forms evaluate exactly the branches they select',
 'if evaluates its condition once and exactly one branch (none, with an undefined value, if the condition fails and there is no else branch); and, or evaluate left to right and stop as soon as the result is known, with the Boolean result of conjunction and disjunction; while evaluates its condition before every repetition and repeats its body exactly as long as it holds (a number holds if it is not zero); do and begin evaluate all forms in order and yield the last value. A condition of if, and, or, not that is not Boolean, and a condition of while that is neither Boolean nor a number, raises a LISP error and evaluates nothing further.',
 ['programs','inputs'],'every condition value and body with side effects',
 'Tests observe results on constants and rarely side-effect order.',
 [EV],[('if/while/do/begin/and/or forms',EV)],['Lisp::Eval'])
p('C15','Every program ends in a value or a reported LISP error',
 'Whatever text is evaluated and whatever arguments, of any type and number, a built-in function is called with, evaluation (as long as it terminates and builds no value that contains itself) either yields a value or raises a LISP error with a message: it never crashes, reads or writes memory it does not own, executes undefined arithmetic, or lets another exception escape. The protected entry point (SaveEval) lets no error escape.',
 ['inputs','programs'],'every program text and every builtin/argument combination',
 'Tests run a few dozen deliberate errors; the remaining builtin x type x count space is untouched.',
 [EV,I+'Lisp.cpp',I+'Parser.cpp',I+'Tokenizer.cpp',I+'Interpreter.cpp'],[('CheckArgs/CheckOptionalArgs',EV),('Lisp::SaveEval',I+'Lisp.cpp')],['Lisp::SaveEval'])
p('C16','A failed evaluation leaves the session usable and unchanged',
 'When an evaluation in a session ends in an error at any point, everything defined before stays as it was, the effects completed before the error stay in force, and any later program in the same session behaves as if the failed form had stopped right before the failing step: no mode, scope or flag of the failed evaluation lingers.',
 ['fault_sequences','programs'],'every point of failure inside every form, and every later program',
 'No test continues a session after an error inside nested forms.',
 [EV,I+'Interpreter.cpp',I+'Scope.cpp',I+'Lisp.cpp'],[('NeedsLValue, IsInEval, IsInReturn, scope chain',EV)],['Lisp::SaveEval with a persistent scope'],
 [dict(name='scope flags',meaning='NeedsLValue, IsInEval, IsInReturn, ModuleName, Next/Previous',where=I+'Scope.h')])
p('C17','Breakpoints stop exactly where set and steps follow the call depth',
 'A program run in the debugger stops in front of the call of a form (after its arguments are evaluated; in front of the arguments for special forms) exactly if the form begins in a line of a module for which a breakpoint is active whose condition is true in the current scope, or if a step command selects it: step selects the next form, step-over the next one that is not deeper in the call stack than the current (or selected) function, step-out the next one that is less deep, run none. Every stop shows form, line and module of the code that is executed. An error inside functions stops once in every active function. Adding, replacing, removing, listing and clearing breakpoints keeps exactly the set that the commands describe, malformed commands are answered by a warning, and evaluating conditions or texts while stopped neither stops again nor changes where the program stops later.',
 ['histories','programs'],'every command sequence and every breakpoint line and condition',
 'Tests replay a few fixed debugger sessions.',
 ['CppLisp/CppLispDebugger/Debugger.cpp',I+'Interpreter.cpp'],[('LispDebugger::NeedsBreak/HitsBreakpoint/InteractiveLoop','CppLisp/CppLispDebugger/Debugger.cpp')],['LispDebugger','debugger prompt'])
p('C18','Debugging and tracing do not change what a program does',
 'Running a program with a debugger attached (with no stop, or with stops that only inspect and continue), or with call tracing enabled, gives the same value, the same effects in the same order, the same program output (apart from the trace lines and the text of the debugger itself) and the same error at the same position as running it without, and later programs in the same session behave the same too.',
 ['programs','configurations'],'every program and every breakpoint placement',
 'Tests never compare a debugged run with a plain one.',
 ['CppLisp/CppLispDebugger/Debugger.cpp',I+'Interpreter.cpp',I+'Lisp.cpp'],[('EvalAst debugger hook',I+'Interpreter.cpp')],['Lisp::Eval with and without debugger'])
p('C19','Command line options do what the usage text says, in any combination',
 'For every combination and order of the documented options (each given at most once) each option has its documented effect: -e runs the given script instead of files, -l adds the library path, -t prints the calls and the result, -x extends the error output, -m reports the time, --macro-expand shows the expanded code without running it, --doc and --html show the documentation, -v and -h only give information, -d and -i start the debugger and the shell; script files are run one after the other, each on its own, and the error of one is reported once and does not keep the others from running. An unknown option, a second library path, a missing script or a missing file yields a message and never a crash; with an error in the option list nothing is run.',
 ['configurations','inputs'],'every option list',
 'Tests run one option at a time.',
 [I+'fuel.cpp'],[('Fuel::MainExtended',I+'fuel.cpp')],['Fuel::MainExtended'])
p('C20','Text output and formatting print the value given',
 'print, println and string conversion render every value by one rule set (strings bare at the top level and quoted inside lists, integers in decimal, doubles with six decimals, lists in brackets, nil as NIL and Booleans as #t and #f), and print exactly the arguments in order, separated by blanks (no blank in front of the first text that is not empty). format replaces each placeholder {n} and {n,width} (n from 0 to 4, width with an optional sign, minus for left-aligned) by the text of the n-th argument, padded to the width, and copies all other text unchanged, whatever the arguments contain; a missing argument is a LISP error.',
 ['inputs'],'every value and every format text',
 'Tests use fixed texts with harmless arguments.',
 [EV,I+'csstring.cpp',I+'Variant.cpp'],[('GetStringRepresentation, Format',EV),('string::Format',I+'csstring.cpp'),('LispVariant::ToString',I+'Variant.cpp')],['Lisp::Eval','standard output'])
p('C21','Importing a module loads its definitions once into reach',
 'After import of modules that exist at the given path, in the library path directory, in ./Library, in ./lib/fuel or in the directory FUELPATH (searched in this order), the definitions of the modules are visible to the importer everywhere (behind the importer\'s own names and global names), can be changed by setf, and what functions of the module change is seen by the importer; the module text runs once for every import executed; everything defined before stays as it was. A module that is not found gives a warning and changes nothing, and the modules named behind it are still imported. An undefined name or function used inside a module is reported with that module and the line in it, and a module that fails leaves no definitions except those it made global.',
 ['programs','histories'],'every import order, nesting and module content',
 'Tests import the standard library and one or two fixed modules.',
 [EV,I+'Lisp.cpp'],[('Import',EV)],['Lisp::Eval with files'])
p('C22','The standard library functions meet their documentation',
 'For all arguments of the documented types the functions and macros of fuellib (second, length, strlen, dict-len, find, foreach, dotimes, setq, defstruct with its constructor, predicate and accessors, arg-list-expression, create-call-expression and the other code generators, isNET/isCpp/isHaxe) give the documented result: foreach applies its function once to every element in order, dotimes evaluates its body once for every counter value from zero below its limit, defstruct defines exactly the named constructor, predicate and accessors, whose results agree with each other; and they do not capture or leak variables of the caller other than those documented (the counter of dotimes does not exist afterwards).',
 ['inputs','programs'],'every argument and body',
 'Tests call each library function once or twice.',
 ['Library/fuellib.fuel'],[('definitions','Library/fuellib.fuel')],['Lisp::Eval with (import "fuellib")'])
p('C23','Type predicates and conversions partition and preserve values',
 'For every value, however it was obtained, type and typestr name exactly its type; int, float, str, sym, parse-integer and parse-float give the value the source denotes (int cuts off towards zero) and agree with each other on round trips, and text or values that denote none, or none that can be represented, yield the documented undefined value.',
 ['inputs'],'every value and every text',
 'Tests convert a few constants.',
 [EV,I+'Variant.cpp',I+'csobject.cpp'],[('predicates, ToInt, ToFloat, ParseInteger, ParseFloat',EV)],['Lisp::Eval'])
p('C24','Values keep their identity: no hidden sharing, no hidden change',
 'Binding, passing, storing and returning a value never changes any value observable through another name, except through the operations documented as modifying a list or dictionary in place; evaluating a program does not modify the program, so that evaluating the same expression again (in loops, functions, or quoted data) gives the same result.',
 ['programs','histories'],'every sequence of value-producing and modifying operations',
 'Tests never re-evaluate code that handled literals destructively.',
 [EV,I+'csobject.cpp',I+'Variant.h'],[('object copy, shared_ptr sharing',I+'csobject.cpp')],['Lisp::Eval'])
p('C25','Files and evaluated text round-trip',
 'A text written to a file is returned unchanged by a later read of that file, other files stay untouched, and the test for existence agrees; a file that cannot be written yields false, one that does not exist reads as the empty text. evalstr of a text behaves like evaluating the text in place: in the same session and scope, with the same value, effects and errors.',
 ['inputs','histories'],'every text and every sequence of file operations',
 'Tests write one fixed file.',
 [EV],[('file builtins, EvalStr',EV)],['Lisp::Eval with files'])
p('C26','The C#, Haxe and C++ interpreters agree',
 'Every program without platform-specific functions gives the same result and the same errors in the three implementations of the language.',
 ['programs'],'every program',
 'Each implementation has its own tests.',
 ['CsLisp','HaxeLisp','CppLisp'],[('three implementations','CsLisp, HaxeLisp, CppLisp')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
