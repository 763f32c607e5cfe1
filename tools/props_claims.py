# claims: check(id, technique, level_note) / na(id, reason)
check("M04", "abstract interpretation of decoded machine code, normal-form equality with the effect the mnemonic names",
      "Decides every DEFINE of the three tables for all register, memory and immediate values. Trusts the hand-written "
      "instruction semantics in vt/x86.py and vt/arm.py (cross-checked against llvm-mc during development) and the reading "
      "of the spellings in vt/mnem.py and vt/arm.py.")
_B = ("Decides every entry of the backend table for symbolic operands over their whole ranges and for 0, 1 and 2 allocated "
      "registers, through emitter, M1 writer, mnemonic table and instruction semantics. Trusts the specification of the "
      "intermediate instructions in vt/irspec.py (derived from compile.scm's use) and the instruction semantics.")
for _i in ("M01", "M02", "M03"):
    check(_i, "abstract evaluation of the emitters with symbolic operands, normal-form equality of the machine-level effect with the instruction's specification", _B)
check("G01", "abstract interpretation of the collector over LLVM IR: per-type copy/scan effects compared with the reference fields of each type",
      "Decides gc_copy and the Cheney scan for every type tag and every component, for all heap contents. Which components are "
      "references is taken from how the constructors fill them; the GC's heap-walk structure is matched by effect, not text.")
check("G02", "abstract interpretation of gc_: inventory of root globals and stack slots vs. locations traced and flipped",
      "Decides all global cell-typed locations and saved frame slots. The inventory is derived from every store of a cell "
      "reference to a global in the linked interpreter.")
check("G04", "abstract interpretation of eval_apply as a state machine; comparison of every transition with a specification table",
      "Decides every path between two resume points for all register and heap contents. Trusts support/eval_apply.spec (derived by reading eval_apply, after "
      "repairing three locals that outlived a nested evaluation) and the helpers taken by name.")
check("G03", "liveness of object references in SSA form across every call that can reach the collector through the call graph",
      "Decides every function of the interpreter, 32- and 64-bit, with the debug level 0. error, exit and a failed assertion are taken not to return. "
      "The order of evaluation of arguments is the one clang compiles.")
check("G05", "abstract interpretation: collected registrations compared with definitions; application evaluated per arity",
      "Decides every registration and every arity in use. Name-to-function binding is checked for arity, uniqueness and crossed bindings only. src/m2.c is not "
      "compiled (no M2-Planet here); src/cc.c is.")
check("G07", "abstract interpretation with difference bounds: every address resolved to owner, index and field, compared with the owner's length",
      "Decides every element access of the listed routines and their helpers for all indices and lengths. Assumes lengths stored in objects are not negative and "
      "that a text's length fits an int (make_string bounds it by MAX_STRING).")
check("G08", "abstract interpretation of each primitive per operand type: no access to a typed slot on a path where the type does not hold",
      "Decides each listed primitive for every operand type in every operand position. Helpers that only print are taken as silent.")
check("G09", "abstract interpretation of each predicate over one abstract object per type and marked sub-kind",
      "Decides each predicate over all type tags; objects of one kind differ only in components the predicates do not read.")
check("G10", "abstract interpretation with symbolic operands, normal-form comparison of the result with the fold",
      "Decides 0 to 5 operands (1 to 3 for /), all values; the fold loops treat every further operand alike. Sign conditions are taken from the path.")
check("G12", "abstract evaluation of the start-up code: identity, text, table entry and binding of every special object",
      "Decides all special objects and type tags, both passes of the symbol set-up. The names they are documented under are in support/specials.txt.")
check("G11", "abstract interpretation of the writer and the reader on an unknown byte; value-set comparison of the two",
      "Decides all 256 character values in front of every kind of delimiter and unknown bytes in strings of length 1 and 2 (second byte sampled at the values that decide how an escape ends).")
check("G13", "abstract interpretation of each primitive on unknown operands with the C library's functions opaque: calls, argument terms, answers, ports afterwards",
      "Decides the 30 primitives of src/posix.c except get-internal-run-time, on x86_64 and x86. The C library behind them is L01-L11; which operands are accepted is G08.")
check("G14", "abstract interpretation of each primitive down to the allocator on operands of every small shape with unknown contents; the abstract heap afterwards compared with the object Scheme defines under the equalities each path has decided",
      "Decides lists of up to four elements and vectors of up to four, strings of up to three unknown bytes, tables of up to seven buckets and five stores with keys of known names, x86_64 and x86. Longer operands are not evaluated; "
      "freshness of strings and vectors, and hash-table-printer, are not stated.")
check("G15", "abstract interpretation of the reader on tokens of unknown characters and of the printer on an unknown number; value terms compared with the number denoted on every combination of representatives that takes a path",
      "Decides tokens of up to three unknown characters (representatives around every class boundary) in front of every delimiter, radix tokens of up to three digits, long tokens at the limits of the word, and printed numbers at "
      "the limits, x86_64 and x86. Digits are the C library's (L15), character classes are L05. Numbers beyond the word are not stated.")
check("L05", "abstract interpretation over value sets: the set of inputs for which each function answers true, compared with the C locale",
      "Decides all 257 inputs of every classification and mapping function, and the value digits take in abtol, on three architectures.")
check("L01", "abstract interpretation of every system-call function with the kernel's answer unknown",
      "Decides every answer of the kernel, for every system-call entry, three architectures, the GCC and the MesCC variants. The M2-Planet variants (lib/linux/*-m2) are not analysed.")
check("L02", "machine-level abstract execution of the inline assembly (assembled per operand allocation) up to the kernel entry",
      "Decides the registers at the kernel entry for every operand allocation the constraints allow (GCC) and for the frame layout MesCC makes, three architectures. Trusts clang's assembler and the instruction models of M01-M03.")
check("L03", "abstract interpretation of each wrapper with unknown arguments: system-call number, argument terms, structure contents, result",
      "Decides each wrapper of lib/linux and lib/posix on three architectures; the system-call layer itself is L01/L02. read through the buffer is not part of it.")
check("L04", "layout and constant evaluation: clang's record layouts and enumerated constant values compared with kernel tables",
      "Decides every macro and structure of include/ that names a kernel value, per architecture, and every assembler-level system call number. The tables in support/ "
      "were written from the kernel's interface; values the kernel does not define are not compared.")
check("L07", "abstract interpretation of setjmp and longjmp down to machine level: saved terms substituted into the registers at the jump",
      "Decides both functions for five of the six variants (arm with gcc is declared unsupported by the header). Assumes code compiled with a frame pointer and "
      "without callee-saved registers live across setjmp, and an environment that does not overlap the stack words used.")
check("L08", "abstract interpretation of _start at machine level from the kernel's initial stack",
      "Decides all Linux and FreeBSD entry points for every argument count. Assumes a frame pointer prologue, registers cleared by the kernel and image data apart from the stack. "
      "The Hurd's entry point needs Mach headers that are not here; M2-Planet's entry is in M1 code outside crt1.c.")
check("L06", "fixpoint over a finite abstract domain (offsets and counts exact near the size, everything else unknown): every access checked against the size",
      "Decides each function for 16 (strings, memory) or 8 (formatted and line output) sizes with unknown contents, formats and arguments; the code treats the size only by comparison and stepping, so the sizes stand for "
      "all. mbstowcs is a documented stub and left out.")
check("L11", "fixpoint of each operation over a finite abstract domain (named bytes, every buffer state, a nondeterministic kernel), with the pending input as the inductive invariant",
      "Decides every operation from every state of a buffer of 0 to 3 bytes (the code compares and steps the fill only) on x86 and x86_64, gcc build. "
      "Assumes descriptors below __FILEDES_MAX, at most one pushed-back byte, and for write a file that can be positioned.")
check("L10", "fixpoint over an abstract heap (offsets from an aligned start) with a granting and refusing kernel; null-pointer collecting analysis with every allocation failing",
      "Decides malloc for every alignment of the break, small sizes, sizes next to constants in the code and sizes whose end wraps; calloc, realloc, strdup, alloca, sbrk against malloc's contract; and every library "
      "function that calls an allocator directly or through one that passes its null pointer on (callees up to depth 7), gcc build, x86 and x86_64. The interpreter's own start-up allocations are not part of it.")
check("L14", "path-sensitive abstract interpretation over arrays of unknown bytes; each path's value set, result term and final memory compared with the standard's definition",
      "Decides 33 functions on three architectures for arrays of up to 4 unknown bytes (7 for block copies with every overlap) plus arrays of 300 bytes; byte values are represented by NUL, 1, letters and a byte above 127, "
      "which is exact for code that compares bytes with each other, with 0 and with arguments. strerror is not part of it.")
check("L12", "path-sensitive abstract interpretation with unknown characters, strings and numbers; bytes handed to write, or left in the buffer, compared with the text the format denotes",
      "Decides 12 plain functions, 6 members that hand on, and every combination of conversion, flag, width, precision and modifier (about 1250 formats per function and architecture), each between literal text and three "
      "more conversions, on three architectures, gcc build. The digits themselves are L15. Not stated: floating point, the result of fputc and puts, precisions that cut numbers or lengthen strings, and short writes.")
check("L15", "path-sensitive abstract interpretation: digits as terms over an unknown number, values as terms over unknown bytes, compared per value set with the definition",
      "Decides 13 functions on three architectures. Numbers: symbolic up to base 10, otherwise by constant propagation for about 150 numbers per base and 1024 small ones. Texts: every text of up to 3 characters over 22 "
      "representatives of the character classes, plus long ones. Overflow, octal and other unsupported forms of strtol are not stated.")
check("L16", "path-sensitive abstract interpretation with a comparison function of which only transitivity is known: every weak order is a path",
      "Decides qsort for up to 5 elements of 1 to 8 bytes, and for 2 and 3 elements of up to 132 bytes, on three architectures, with small and large comparison results.")
check("L17", "path-sensitive abstract interpretation over environments of unknown bytes and a kernel and allocator that may fail at any point",
      "Decides getenv, setenv, unsetenv, search_path and execvp on three architectures for up to three variables of up to 4 bytes. Not stated: duplicate variables, empty entries of PATH.")
check("L09", "definite-assignment fixpoint: locals (structures byte by byte) start as 'not set', propagated through every path with infeasible combinations of conditions kept out",
      "Decides every function of the C library (three architectures, gcc build) and of the interpreter (x86_64, x86) within the function: a callee that gets a variable's address is taken to set it, and heap memory is not "
      "followed. Twelve large functions are explored without arithmetic on values.")

check("G06", "exhaustive exploration of the allocators, the collector's copy, frame push and the text-buffer functions over a finite abstract domain, with every distance from the limit and every request size",
      "Decides every function that moves the allocation pointer or calls the block allocator, gc_copy, gc_push_frame, every function that writes the text buffer, and the start-up, setenv and execl buffers; x86_64 and x86 gcc "
      "builds. The arena, the stack and the limit are small symbolic sizes, which is exact because the code only compares and subtracts them. Start-up functions that fill the fresh arena and gc_up_arena (never reached in these builds) are not part of it.")

na("M05", "each backend's table is decided entry by entry (M01-M03) and each mnemonic (M04); which instruction the compiler issues is computed from type sizes by string construction in compile.scm, so the set issued is the image of a "
   "run-time value and no sound static bound short of all constructible names is in reach")
na("M06", "the compiler's sizes live in Scheme tables consulted through run-time dispatch on the target; comparing the tables alone would not show that code generation uses them, and the headers' part is not separable from the "
   "known char signedness difference between gcc and MesCC")
na("M07", "which operation an expression compiles to depends on types inferred at compile time by a recursive evaluator over the program's syntax tree: it quantifies over all C programs and no abstraction at hand of compile.scm's AST walk is sound and exact")
na("M08", "register allocation is state threaded through compile.scm's recursive evaluator; the balance holds per syntax tree and depends on the shapes nyacc produces, which no type or effect system for the compiler's Scheme is at hand to bound")
na("M09", "labels are built from the name of the function and the length of the text generated so far, a run-time quantity; uniqueness needs arithmetic on the lengths of all generated texts")
na("M10", "initialisers are laid out from run-time byte lists; exactness for all values needs an inductive proof over compile.scm's initialiser recursion, which path enumeration over unknown trees does not give")
na("M11", "whether a tool fails is decided by the operating system; the driver is a shell/Guile script using Guile's own process primitives, outside the compiled program that is analysed here")
na("M12", "determinism of the compiler's Scheme under Guile depends on Guile's hash tables and primitives; the library part (no clock, process identity or random source in module/mescc) is a reference scan that would not establish the property")
na("S01", "the Scheme library binds names by macros expanded at run time (define-syntax, module definitions evaluated by boot-0), so the set of bindings is only known by running the expander")

for _p in P:
    assert _p["id"] in CK or _p["id"] in NA, _p["id"]
