#!/usr/bin/env python3
"""Writes properties.jsonl (edit here)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, **kw):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": dict(files=files, mechanism=[{"name": a, "where": b} for a, b in mech], **kw)})


CC = "compiler/x1algc.c"
PR = "simulator/processor.cpp"
OP = "simulator/opcodes.cpp"
VS = "simulator/virtual_stack.cpp"
MA = "simulator/machine.cpp"

p("P01", "Expressions and assignments mean what Algol 60 says",
  "In a compiled and simulated program every arithmetic, Boolean, relational and conditional expression yields the value that Algol 60 "
  "gives it for the current values of its operands, whatever its size and nesting: operator precedence, left-to-right evaluation, mixed "
  "integer and real operands, subscripted variables and function designators. An assignment, single or multiple, gives each of its left "
  "parts the value of the right side, converted to the type of the variable (real to integer by rounding), and changes nothing else.",
  ["programs", "inputs"], "every program over the supported language whose expressions stay in the number range",
  "The tests evaluate a few dozen fixed expressions; an error in operator priority, in code for mixed types, in a conditional inside a "
  "subscript or in one operand order needs a specific shape of expression.",
  [CC, PR, OP, MA], [("operator stack and priorities, fill_t_list / production of object code", CC),
                     ("arithmetic, relation and store operations of the simulated run-time system", OP),
                     ("Machine::add, subtract, multiply, divide", MA)],
  observe_at=["standard output of x1sim for generated programs"])

p("P02", "Statements, blocks and scopes execute as Algol 60 prescribes",
  "Compound, conditional and block statements of a program are executed in the order and under the conditions that Algol 60 prescribes, "
  "at any nesting. An identifier always denotes the quantity of the innermost enclosing declaration, entering a block (also again, also "
  "recursively) creates its local variables anew without disturbing any other live variable, and leaving it restores the outer ones.",
  ["programs"], "every program: all nestings of blocks, conditionals, procedures and declarations, any declaration order and shadowing",
  "The tests have a handful of blocks with one or two levels; wrong block numbers, name list handling or stack offsets show only with "
  "particular nestings, orders of declaration and shadowing.",
  [CC, OP, PR], [("name list and block administration", CC), ("block introduction, SCC/ETMP/RET and display", OP),
                 ("frame handling", PR)])

p("P03", "Procedures and their parameters: value, name, recursion, procedures passed",
  "A procedure call has the effect of the copy rule: value parameters are evaluated once on entry and converted to the specified type, a "
  "parameter called by name is evaluated (or assigned to, including array elements) in the caller's environment at each use, and formal "
  "procedures run in the environment of their own declaration. This holds in recursive and mutually recursive calls, for parameters "
  "passed on from procedure to procedure, and for arrays, labels, switches, strings, declared procedures and standard procedures of at most one argument as parameters; a function designator "
  "yields the value last assigned to its name in that activation.",
  ["programs"], "every call graph, parameter kind and combination, recursion depth and passing chain",
  "Some tens of fixed procedures are tested; environment mistakes appear only with particular combinations of recursion, passing on and "
  "nested declarations.",
  [CC, OP, PR, VS], [("generation of parameter descriptors (PORDs) and implicit subroutines", CC),
                     ("call, entry, thunk evaluation and return: ETMR ETMP FTMR FTMP RET EIS TRAD TFA...", OP),
                     ("take_formal, frame_create, get_actual", PR)])

p("P04", "Goto and switch reach the designated label in the right activation",
  "A goto statement continues at the statement carrying the designated label, in the activation of the block in which that label is "
  "local, however many blocks, procedure calls, for statements, expressions and thunks it leaves. Switches, conditional designational "
  "expressions and formal labels select the same label and environment that Algol 60 designates, and all variables still in scope keep "
  "their values afterwards.",
  ["programs", "histories"], "every sequence of jumps out of any nesting of blocks, procedures, by-name parameters and function designators",
  "The tests jump over one or two levels; a stale display, frame pointer or leftover stack cell needs a jump out of a deeper or recursive "
  "context followed by further use of the environment.",
  [CC, OP, PR], [("label list, GTA/JUA code and switch tables", CC), ("GTA, SSTI, switch selection", OP), ("roll_back of frames", PR)])

p("P05", "For statements run the body for exactly the values Algol 60 defines",
  "A for statement assigns to its controlled variable the values of its list elements in order (expressions, step-until with positive, "
  "negative or zero-trip ranges, while elements) and executes the body once for each, re-evaluating step, limit and conditions as Algol "
  "60 prescribes. It does so in every nesting, with integer and real steps, with any controlled variable, and with the body changing "
  "variables that the list depends on or leaving by a goto.",
  ["programs"], "every combination of list elements, bounds, signs, nesting and side effects of the body",
  "The tests cover a few loops with constant bounds; order of re-evaluation, sign handling and mixtures of elements are sampled only once.",
  [CC, OP, PR], [("for list code: FOR0..FOR8", CC), ("FOR0..FOR8", OP)])

p("P06", "Array elements are distinct cells and no access leaves its array",
  "After an assignment to an array element, exactly that element has changed, for arrays of any type, number of dimensions and bounds "
  "(negative, constant or computed), local, global, own or passed by value or by name; reading it yields the value last assigned. A "
  "subscript combination addressing outside the storage of the array ends the program with an error before any other variable is read or "
  "changed; for an array of one dimension the message names the subscript and the bounds.",
  ["programs", "inputs"], "all bounds, dimensions, subscripts, types and access sequences",
  "The tests use a few arrays with small bounds and never check that neighbouring arrays and variables stay intact.",
  [CC, OP, PR, VS], [("storage function computation for static arrays", CC), ("RSF/ISF/RVA/IVA, IND, STA/STSR, LAP", OP),
                     ("storage function with bounds check", PR)])

p("P07", "Integer arithmetic is exact or stops with an error",
  "For all integer operands of the machine's range (27-bit ones complement) sum and difference, integer quotient, non-negative integer "
  "power, sign, entier, comparison and the transfer from real to integer give the mathematically exact result, and integer multiplication "
  "gives the exact product or, when it does not fit, its real value. A sum, difference, power or transfer whose result does not fit in an "
  "integer, and division by zero, end the program with an error message; a wrong integer is never delivered.",
  ["inputs"], "all pairs of integer operands, with weight on the limits of the range and on signs",
  "The unit tests check a few sums and products; overflow limits, ones complement zero and sign combinations have a value space of 2**54.",
  [MA, "simulator/x1_arch.cpp", OP], [("Machine::add/subtract/multiply/..., integer overflow checks", MA),
                                      ("conversion of words", "simulator/x1_arch.cpp"), ("ENTIER, IDI, ttp", OP)])

p("P08", "Real arithmetic is correctly rounded to 40 bits; constants and printing agree",
  "Real constants in the program text and real sums, differences, products and quotients have the value nearest to the exact one that 40 "
  "significant bits can hold, over the whole exponent range of the machine; a result above the range ends the program with an error and one "
  "below it becomes zero. The print procedure shows every such number to 13 significant digits correctly, so that equal values print "
  "equal and different values print different.",
  ["inputs"], "all pairs of real values with exponents from -2048 to 2047, all spellings of numbers",
  "The tests convert and add a few small numbers; rounding carries, cancellation, denormal limits and exponent overflow are not reached.",
  ["simulator/x1_arch.cpp", MA, CC, "simulator/ieee_arch.cpp"],
  [("normalisation and rounding of reals", "simulator/x1_arch.cpp"), ("decimal to binary conversion of constants", CC),
   ("add, multiply, divide for reals", MA)])

p("P09", "Elementary functions are accurate to machine precision or stop with an error",
  "sqrt, sin, cos, arctan, ln and exp of every integer or real argument in their domain, and powers with a real base or exponent, agree "
  "with the mathematical function to within one unit in the last of the 40 bits of the result (sin and cos of arguments beyond 2**30 and powers with "
  "integer exponents beyond 10000: to within the error that a one-unit change of the argument's last place causes); abs and sign are exact. An argument outside the domain (negative sqrt, "
  "non-positive ln, undefined power) or a result above the range ends the program with an error instead of a number.",
  ["inputs"], "all real and integer arguments, all combinations of base and exponent types",
  "The tests call each function on one or two arguments.",
  [OP, MA], [("standard functions", OP), ("real power", MA)])

p("P10", "Formatted output shows the right digits in the documented layout",
  "FIXT, ABSFIXT and FLOT print for every value and every integer layout argument a decimal representation, correctly rounded as far as "
  "18 digits go, in their documented layout: sign, digits before and after the point, leading zeroes suppressed, exponent, fixed width, with "
  "numbers too large for the layout, and invalid layouts, printed as FLOT(13,3,x) rather than truncated. print separates its values by a space, and TAB, NLCR, SPACE and "
  "PRINTTEXT write exactly the characters requested.",
  ["inputs"], "all values (integer and real, both signs, zero, halves, powers of ten) times all layout arguments",
  "The tests print about twenty value and layout combinations; carries, roundings to zero and field limits are countless.",
  [OP, PR, "simulator/x1_arch.cpp"], [("print_fixt, print_absfixt, print_flot, print", PR)])

p("P11", "Input procedures deliver exactly the numbers and symbols of the input",
  "read delivers, one after the other, exactly the numbers of the input text, whatever their layout (signs, decimal fractions, exponents "
  "after e, E or ⏨, blanks and line breaks before the number, any other single ASCII symbol after it), with the value the same number has as a "
  "constant in a program. RESYM delivers the documented code of every following input symbol in sequence (the symbol that ended a number is "
  "consumed with it, unless it is a sign), and PRSYM prints the symbol of every such code, so that copying a text through RESYM and PRSYM "
  "reproduces it. At end of input RESYM delivers 255, and read, there or at a text that is no number, ends the program with an error.",
  ["inputs", "histories"], "all input texts, all interleavings of read and RESYM",
  "The tests read three or four numbers; the parser's states, UTF-8 decoding and the hand-over between read and RESYM are hardly touched.",
  [OP, PR, "simulator/encoding.cpp"], [("read and number parser", PR), ("code tables", "simulator/encoding.cpp")])

p("P12", "All notations of a program compile to the same object program",
  "Programs that differ only in notation (word delimiters underlined with preceding underscores or with combining characters, Unicode "
  "operators or their ASCII forms, either form of quotes, blanks, tabs and line breaks anywhere outside strings except within composite symbols and "
  "underlined words, comments after begin and semicolon, text of letters and digits after end) compile to identical object "
  "programs. Renaming identifiers so that their first nine characters keep distinct does not change what the program computes, and "
  "characters after the ninth never matter.",
  ["programs", "inputs"], "all programs, all mixtures of notations at all positions",
  "The tests use one notation per program; a wrong table entry or lookahead matters only for specific neighbouring symbols.",
  [CC], [("read_utf8_symbol, next_ALGOL_symbol, read_next_symbol", CC), ("identifier packing", CC)])

p("P13", "The compiler survives every input text",
  "For every byte sequence given as source text, the compiler ends by itself in reasonable time, either with an object program or with an "
  "error message and a failure status, and never reads or writes outside its data, uses uninitialised data, overflows an integer in an "
  "undefined way or crashes. Neither the size nor the nesting of the text changes that.",
  ["inputs"], "all byte sequences: well-formed, mutated, truncated, random, oversized",
  "Every test compiles a correct program; error paths and table limits are never executed.",
  [CC], [("stop(n) error exits and table limit checks", CC)])

p("P14", "The simulator survives every object program and input",
  "For every object file (correct, corrupted, truncated or arbitrary) and every input, the simulator's execution either completes or ends with an error "
  "message and failure status, with no access outside its own data, no undefined behaviour and no abnormal termination by signal; an "
  "endless program is the only reason not to end. Host files and processes are not affected.",
  ["inputs", "programs"], "all object files and inputs: mutations of compiled programs, random words, random texts",
  "Tests only load well-formed object programs.",
  [MA, PR, OP, VS, "simulator/main.cpp"], [("load and bounds checks", MA), ("instruction decoding and checks", PR),
                                            ("typed access to stack cells", VS)])

p("P15", "Errors are reported and nothing is run after a failed step",
  "Whenever compilation, loading or execution fails, x1sim prints an error message on standard error, exits with a non-zero status and does not "
  "go on: a program with a compile error is never executed (not even a stale or partial object file), output printed before a "
  "run-time error is kept and nothing is printed after it. A program that runs to its end exits with status zero, "
  "an empty standard error and complete output.",
  ["programs", "fault_sequences", "histories"], "all kinds of failure at all points: missing or unreadable files, compiler missing, failing or killed, "
  "unwritable directory, full output, run-time errors anywhere in a program",
  "Only two CLI tests exist, both for successful runs.",
  ["simulator/main.cpp", "simulator/machine.cpp", CC], [("compile step and status check", "simulator/main.cpp"), ("error handling", "simulator/main.cpp")])

p("P16", "Tracing does not change a run, and the trace is true",
  "Running a program with any trace option gives the same output, input consumption and exit status as running it without. The "
  "trace records the executed instructions in execution order with their addresses and words as in the object program, and the register and stack changes it "
  "reports are consistent with each other from line to line.",
  ["programs", "inputs"], "all programs, with trace to a file or standard output",
  "No test looks at a trace beyond its existence.",
  ["simulator/trace.cpp", "simulator/machine.cpp", PR], [("trace printing", "simulator/trace.cpp")])

p("P17", "Library tapes: every procedure is loaded intact, corruption is detected",
  "The library assembler and the compiler's loader agree: any procedure assembled onto a library tape, in any order and combination with others, is "
  "loaded into the object program word for word with its addresses relocated, exactly when the program uses it and once. "
  "A single wrong bit on a tape, a tape cut short, and a procedure that is missing or has another length than the compiler reserves for it lead "
  "to an error message or leave the loaded program unchanged; they never silently load a different program. A message names the missing procedures. The assembler refuses a source with a word left out or out of sequence. No tape makes the compiler access data outside its own.",
  ["inputs", "histories", "fault_sequences"], "all library sources, tape orders, sets of used procedures, and single corruptions of a tape",
  "The tests use one library in one order.",
  ["library/objfile.cc", CC], [("bit string coding of words and parities", "library/objfile.cc"), ("program_loader, read_bit_string", CC)])

p("P18", "Compiling and running are deterministic and independent of the way they are done",
  "Compiling the same source with the same library always gives the same object program, and running it on the same input always gives "
  "the same output and status (except through TIMEOFDAY), whatever the environment, directory, file name or earlier files. Running a source directly is "
  "the same as compiling it and running the object program, and RANDOM after SETRANDOM with a given seed always gives the same sequence.",
  ["programs", "configurations", "histories"], "all programs, environments, repetitions and memory layouts",
  "Tests run each program once in one way.",
  ["simulator/main.cpp", CC, OP], [("initialisation of all state", CC), ("initialisation of memory and registers", MA)])

p("P19", "Run-time storage is released: loops run in constant stack, recursion is exact",
  "The stack is back at its previous level after every completed statement, call, for statement, block (with its arrays) and goto, also a goto "
  "out of blocks, for statements, procedures and half-evaluated expressions, so that a program repeating them indefinitely never fails for lack of storage, nor does the memory of the simulator itself grow with the repetitions. Recursion as deep as the storage allows gives right "
  "results, and when the storage is really exhausted the program ends with an error message; data are never silently overwritten.",
  ["programs", "histories"], "all statement kinds repeated many times, all recursion depths",
  "Tests run a few iterations; a leak of one cell per iteration stays invisible until a long run.",
  [VS, OP, PR], [("frame release", PR), ("stack limit", VS)],
  state=[{"name": "stack pointer", "meaning": "cells in use", "where": VS}])

p("P20", "Programs beyond the capacity are rejected, never miscompiled",
  "However large a program is, in number or size of constants, identifiers, labels, statements, parameters, strings, switches, variables, arrays, "
  "nesting of blocks, parentheses, conditionals or calls, it either compiles to an object program with exactly the specified behaviour or is "
  "rejected by compiler or simulator with an error message and failure status. Exceeding a table never damages other data of the compiled program.",
  ["programs"], "all sizes along each dimension and pairs of them, up to and beyond the limits",
  "All tests are small programs.",
  [CC, MA], [("table limits and stop numbers", CC), ("memory check on loading", MA)])

p("P21", "SUM, EVEN, RANDOM, TIMEOFDAY, PRINTTEXT and XEEN do what they document",
  "The library procedures have their documented effect for all arguments in all contexts. SUM(i, a, b, x) takes a and b by value, evaluates its by-name term x for i = a, ..., b "
  "(0 if b < a) and adds, also nested, recursively and with parameters passed on through formals. EVEN(n) is 1 for even and -1 for odd integers, negative ones included. "
  "RANDOM lies in [0,1), takes many different values from all of that interval, and its sequence is determined by the seed given to SETRANDOM, in every program and context. "
  "TIMEOFDAY is the current local time of day in seconds. PRINTTEXT prints exactly the symbols of its string, also when the string arrives through a chain of formal parameters. XEEN(n) gives the "
  "bits of the console word selected by the bits of n (negative integers as one's complement; zero selects all of them); the word is read once, and again after a call of stop.",
  ["inputs", "programs"], "all arguments and contexts, including strings passed through formal parameters",
  "One test each.",
  ["library/sum.src", "library/even.src", "library/printtext.src", OP, CC], [("library code on tape", "library/x1algol.lib"),
                                                                             ("machine code for EVEN and PRINTTEXT", CC), ("RANDOM, TIMEOFDAY", MA), ("XEEN", OP)])

p("P22", "The command line does what it documents, and writes only its own object file",
  "x1sim compiles a .a60 argument with the libraries given after it, searched in their order, and runs it; without library arguments it takes the first of: $X1ALGOL_LIB (if set), "
  "$HOME/.x1algol.lib, lib/x1algol.lib and ../library/x1algol.lib in the parent of x1sim's directory. A .x1 argument is run as it is, without a library. Options may stand anywhere: -h and -V "
  "only print usage and version and succeed; -d traces; --trace=FILE or -T FILE sends the trace to the file and leaves the program's output unchanged. x1algc compiles its argument or standard input "
  "with text tapes, with -b binary tapes, with the same result. Wrong options, extensions, missing or superfluous files, or missing libraries give a message and exit status 1 and run nothing. The only files "
  "created or changed are the object file, with the source's name and extension .x1 in the current directory, and the trace file; x1algc writes none. All this holds for all file names.",
  ["configurations", "inputs"], "all option combinations, file names, and library placements",
  "Two CLI tests with one option each.",
  ["simulator/main.cpp", MA, CC], [("option parsing", "simulator/main.cpp"), ("library search", MA), ("starting the compiler", MA), ("compiler options and tapes", CC)])

p("P23", "The Pascal and the C compiler produce the same object program",
  "For every correct program within the limits of both, in any layout the Pascal version of the compiler can read, the Pascal version (_build/pascal/x1algol LIBRARY < source) and the C "
  "version (x1algc source) write the same object program, line by line: the same labels, addresses and words. Not covered are the differences documented in the "
  "README (a formal parameter passed on directly as an actual parameter, a standard function passed as a parameter, a constant as a parameter after a standard function) and procedures loaded from a library tape. "
  "An otherwise correct program in which a name is used that is not declared is rejected by both with stop 0-7; a constant out of range by both with the same stop.",
  ["programs", "constants", "layouts of the source"], "all programs without the documented differences",
  "The Pascal version has no test at all; a difference needs a particular combination of constructs, constants or layout.",
  ["compiler/x1algol.pas", CC], [("both compilers follow the original text procedure by procedure", "compiler/x1algol.pas")])

p("P24", "Machine instructions have exactly their documented effect",
  "For all contents of registers and memory, the plain machine instructions of which object programs and library procedures consist (taking and storing A, S and B, also through B; negative and "
  "direct operands; adding to B; logical product and comparison with an address; clear and round shifts of A and S over any distance; taking the top of the stack with its condition; counting jump, direct "
  "jump and jump by a number; and the Y and N forms of all of them) change registers, condition, memory and order of execution as the X1 does and nothing else, also when a program stores "
  "instructions into itself. Any other instruction word ends the program with an error message, after the output made before it.",
  ["object programs", "register and memory contents"], "all object programs of plain machine instructions, all operands",
  "The tests run a few library procedures; most instructions appear there with one or two operands, shifts with one distance.",
  [PR], [("execution of one instruction", PR)])

p("P25", "The compiler's list gives every label its address; each cell is listed once",
  "For every program the compiler accepts, it prints one line for each label, procedure and switch declared, and for nothing else, in the order of the program text: the first nine characters of its name and, in "
  "three numbers below 32, the address of its code counted from the first instruction. After that the object program gives the address of the first instruction (START) and the lowest address, "
  "and then every cell from the lowest to the highest address exactly once, in ascending order, with a word of 27 bits. Jumps, calls and switch designators refer to the addresses listed.",
  ["programs", "sets of identifiers"], "all accepted programs: any nesting, number and length of names",
  "The tests compare results of programs; the list is discarded by the simulator and looked at by no test.",
  [CC], [("label_declaration, program_loader, typ_address", CC)])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w", encoding="utf-8") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
