# ---------------------------------------------------------------- interpreter
prop("G01", "Garbage collection follows every reference of every object type",
     "For every type of Scheme object, a garbage collection keeps alive and relocates exactly the components that hold references to other objects, and copies every raw component (numbers, lengths, byte data, addresses) unchanged. A live object therefore denotes the same value before and after any number of collections, whatever its type.",
     ["histories", "programs"], "every object type and component, for every heap shape and every moment a collection happens",
     "The suite runs with an arena so large that collections are rare; a component that is not followed only shows when the one object reaching it through that component survives a collection.",
     ["src/gc.c", "include/mes/mes.h", "include/mes/constants.h"],
     [("per-type dispatch of the Cheney scan", "src/gc.c: gc_loop"), ("per-type copying", "src/gc.c: gc_copy, gc_cellcpy")],
     ["contents of any reachable object after (gc)"])
prop("G02", "Every root of the interpreter survives a collection, relocated",
     "Every place outside the heap through which the interpreter reaches Scheme objects (the machine registers, the saved frames on its stack, the symbol table, macro table, port list, module and the global special objects) is traced by a garbage collection and afterwards refers to the relocated object. No such place is left pointing into the discarded half of the arena.",
     ["histories", "programs"], "every global or stack slot that can hold a cell reference, over all collections",
     "Tests rarely collect, and a dangling root keeps its old contents until the old arena is reused by a second collection.",
     ["src/gc.c", "src/globals.c", "src/stack.c", "src/symbol.c"],
     [("root copying and flipping", "src/gc.c: gc_, gc_flip, gc_push_frame/gc_pop_frame")],
     ["any root after (gc)"])
prop("G03", "No object reference is held across a collection outside the roots",
     "A collection can start only at the interpreter's safe points, and at each of them no native routine still intends to use an object address it obtained before; everything needed afterwards is reloaded from the registers or the saved frames that the collector updates.",
     ["histories", "programs"], "every call path that can reach the collector and every value live across it",
     "A stale address is only visible when a collection happens at that exact point and the old arena has been overwritten.",
     ["src/eval-apply.c", "src/gc.c", "src/reader.c", "src/lib.c"],
     [("safe points", "src/eval-apply.c: eval_apply (gc_check)"), ("register frames", "src/gc.c: push_frame/pop_frame")],
     ["behaviour of any program under a small arena"])
prop("G04", "Every continuation the evaluator saves is one it can resume",
     "Every resume point that the evaluator saves when it starts evaluating a sub-expression is recognised by its dispatcher when the sub-expression returns, and the frame restored there is the frame that was saved: each register comes back from the slot it was saved in. Evaluation never falls through to the unknown-continuation error for a program, and nested evaluation never exchanges or loses the saved expression, environment or result.",
     ["programs", "histories"], "all programs, over all evaluator resume points and frame slots",
     "Only combinations of special forms that the tests nest are exercised; the saved frame is wrong only after a specific nested evaluation.",
     ["src/eval-apply.c", "src/gc.c", "src/stack.c"],
     [("resume dispatch", "src/eval-apply.c: eval_apply"), ("frames", "src/gc.c: gc_push_frame, gc_peek_frame, gc_pop_frame")],
     ["any nested evaluation"])
prop("G05", "Every built-in is called with the number of arguments it takes",
     "Every procedure the interpreter provides is registered under a unique name with the arity its implementation has, and applying it passes exactly the supplied arguments in order: the first argument of the call reaches the first parameter, the second the second, and so on, while a variadic procedure receives the whole argument list. A call with too few or too many arguments to a fixed-arity procedure is reported as wrong-number-of-args instead of running it.",
     ["programs", "inputs"], "all built-in procedures and all argument counts",
     "Many built-ins are called by no test, and on most machines a mismatched count reads leftover register contents that often look right.",
     ["src/builtins.c", "src/eval-apply.c"],
     [("registration table", "src/builtins.c: mes_builtins, init_builtin"), ("dispatch", "src/builtins.c: apply_builtin; src/eval-apply.c: check_formals")],
     ["(apply builtin args)"])
prop("G06", "Exhausted memory is detected before it is overrun",
     "Allocating Scheme objects, pushing evaluator frames, and accumulating text in the interpreter's fixed-size text buffers never writes outside the arena, the stack or the buffer: each operation compares what it needs against what remains and reports an error, or collects, before writing. This holds for every allocation size, nesting depth and token or string length.",
     ["programs", "inputs", "histories"], "every allocation, frame push and text-buffer write",
     "Tests run with a 20-million-cell arena and short tokens; the boundary cases are never reached.",
     ["src/gc.c", "src/stack.c", "src/string.c", "src/reader.c", "src/posix.c"],
     [("arena check", "src/gc.c: alloc, make_cell"), ("stack check", "src/gc.c: gc_push_frame"), ("buffer check", "src/string.c: assert_max_string; src/reader.c")],
     ["allocation at the limit"])
prop("G07", "Indexing a vector, structure, string or byte area stays inside it",
     "Reading or writing an element of a vector, a structure or a string checks the index against both ends before touching memory: an index below zero or at/after the length raises an error and reads or writes nothing. An index that is accepted addresses the element it names.",
     ["inputs", "programs"], "all index values, including negative ones and the length itself",
     "Tests index in range; out-of-range accesses touch neighbouring arena cells silently.",
     ["src/vector.c", "src/struct.c", "src/string.c"],
     [("bounds checks", "src/vector.c: vector_ref_, vector_set_x_; src/struct.c: struct_ref_, struct_set_x_; src/string.c: string_ref")],
     ["(vector-ref v k), (vector-set! v k x), (struct-ref s k), (string-ref s k)"])
prop("G08", "Primitives reject operands of the wrong type",
     "A primitive that documents a required operand type (pair access and mutation, vector, string, symbol, keyword, character, number, hash-table and structure primitives) signals an error for an operand of any other type before it reads or writes through that operand as if it had the required type.",
     ["inputs", "programs"], "every checked operand of every primitive, over all object types",
     "Tests pass well-typed operands; a missing check reads another type's raw words as a reference.",
     ["src/core.c", "src/lib.c", "src/math.c", "src/vector.c", "src/string.c", "src/struct.c", "src/hash.c"],
     [("type assertions", "src/math.c: assert_number; assert_msg at the head of each primitive")],
     ["(primitive wrong-type-object)"])
prop("G09", "Type predicates are exact and disjoint",
     "Each type predicate of the interpreter returns true for every object of its type and false for every object of every other type, and never anything else. The predicate's answer depends only on the operand's type (and, for the few sub-type predicates, the documented component).",
     ["inputs", "programs"], "every predicate over every object type",
     "Tests apply each predicate to a handful of types.",
     ["src/builtins.c", "src/lib.c", "mes/module/mes/type-0.mes", "src/module.c", "src/vector.c", "src/hash.c"],
     [("predicates", "src/builtins.c, src/core.c")],
     ["(pair? x), (string? x), ..."])
prop("G10", "Integer arithmetic applies the operator it names, to all operands",
     "Each arithmetic, comparison and bit operation of the interpreter folds the operation it is named after over all of its operands in order, and fails, without using it, for a non-number in any position and for a zero divisor. No operand is skipped, except that a comparison may answer false as soon as one adjacent pair does not stand in the relation. Division truncates toward zero, modulo takes the sign of the divisor, and a shift count outside the word acts like the limit of the shifts inside it.",
     ["inputs", "programs"], "all operand counts and types, all divisors",
     "Tests use two or three small numbers; later operands, non-number operands and zero divisors are not tried.",
     ["src/math.c"],
     [("folding loops", "src/math.c: plus, minus, divide, modulo, multiply, logand, logior, logxor, ash, greater_p, less_p, is_p")],
     ["(op a b c ...)"])
prop("G11", "What write prints for characters and strings is what read reads back",
     "For every byte value, the external form that write gives a character, and the form it gives that byte inside a string, is read back by the reader as the same byte; a character that would end or alter the surrounding literal is escaped.",
     ["inputs"], "all 256 byte values as characters and as string elements",
     "Tests write and read a few printable characters.",
     ["src/display.c", "src/reader.c"],
     [("character names and escapes", "src/display.c: display_helper; src/reader.c: reader_read_character, reader_read_string")],
     ["(read (open-input-string (with-output-to-string (lambda () (write x)))))"])
prop("G12", "Every special object and type tag is created, once, with its own identity",
     "After start-up every special object, keyword symbol and resume marker that the interpreter refers to has been created, has the printed name it is documented under, and is distinct from every other; each type tag is bound to its own symbol in the Scheme environment with the number the Scheme library uses.",
     ["programs", "configurations"], "all special objects, symbols and type tags",
     "An object that is never created or is created twice shows only when a program reaches the one path that mentions it.",
     ["src/symbol.c", "src/mes.c", "include/mes/symbols.h", "include/mes/constants.h", "mes/module/mes/type-0.mes"],
     [("symbol initialisation", "src/symbol.c: init_symbols_, init_symbols")],
     ["eq? and printed names of special objects"])
prop("G13", "System and port primitives do to the outside what they are named after",
     "Each primitive of the interpreter that opens, deletes, duplicates or inspects files, reads or sets the environment, or starts, replaces, waits for or ends processes makes the corresponding C library call once, with its own operands in that call's order, and gives back that call's answer. Reading, peeking, pushing back and writing a character or byte act on the port given or else the current one, and a string port yields each byte of its string once, in order, then end of file.",
     ["inputs", "histories"], "every operand, every answer of the C library, every port",
     "The suite uses few of these primitives, mostly with succeeding calls and small descriptors.",
     ["src/posix.c", "src/gc.c", "src/builtins.c"],
     [("system and port primitives", "src/posix.c"), ("string ports", "src/posix.c: peekchar, readchar, unreadchar")],
     ["the C library calls made", "answers of the primitives"])
prop("G14", "List, string, vector and table primitives compute what they are named after",
     "For every list, string, symbol, keyword, vector, structure and hash table: the pair and list primitives (cons, car, cdr, set-car!, set-cdr!, acons, length, append2, append-reverse, core:reverse!, last-pair, pairlis, add-formals, values), "
     "the equalities (eq?, equal2?, string=?) and the searches built on them (memq, assq, assoc, xassq), the string and symbol conversions, string-append, string->symbol (one symbol per name), the vector and structure accessors and "
     "conversions, hash tables (what is stored under a key is what is got, everything else is the default), module lookup (locals first, then what was defined) and the built-in objects give the result Scheme defines, sharing and copying what they should, and change no operand that they are not named after changing.",
     ["inputs", "history"], "every operand, every sharing of objects, every sequence of stores in a table",
     "The suite's operands are few and small, hardly ever shared, and results are compared with primitives that come from the same code.",
     ["src/core.c", "src/lib.c", "src/gc.c", "src/string.c", "src/vector.c", "src/struct.c", "src/hash.c", "src/module.c", "src/builtins.c", "src/eval-apply.c"],
     [("lists", "src/core.c, src/lib.c"), ("strings, symbols", "src/string.c"), ("vectors, structures", "src/vector.c, src/struct.c"), ("tables, modules", "src/hash.c, src/module.c"), ("binding", "src/eval-apply.c: pairlis, add_formals")],
     ["objects returned", "operands afterwards"])
prop("G15", "Numbers are read and printed exactly",
     "Every token that is a decimal integer with an optional sign reads as the number it denotes, and so does every #b, #o and #x token of digits of its base with an optional minus, for every number of the machine's word; every other token of the same characters is the symbol of exactly these characters. Reading takes the token and nothing behind it. display and write print every number as its decimal text.",
     ["inputs"], "every token, every number of the machine's word, every delimiter",
     "The suite's numbers are small; limits of the word and tokens that only begin like a number are rarely seen.",
     ["src/reader.c", "src/display.c"],
     [("numbers and symbols", "src/reader.c: reader_read_identifier_or_number, reader_read_hex, reader_read_octal, reader_read_binary"), ("printing", "src/display.c: display_helper")],
     ["objects read, texts printed"])
# ---------------------------------------------------------------- C library
prop("L01", "A failed system call is reported as -1 with the right errno",
     "For every architecture and compiler the library supports, when the kernel answers a system call with an error number the C library returns -1 and sets errno to that (positive) number, and when the kernel answers success it returns the kernel's value and does not report an error.",
     ["fault_sequences", "inputs"], "every system call result on every architecture/compiler variant",
     "The suite runs x86_64 only and hardly provokes failing system calls.",
     ["lib/linux/x86-mes-gcc/syscall.c", "lib/linux/x86_64-mes-gcc/syscall.c", "lib/linux/arm-mes-gcc/syscall.c", "lib/linux/x86-mes-mescc/syscall.c", "lib/linux/x86_64-mes-mescc/syscall.c", "lib/linux/arm-mes-mescc/syscall.c"],
     [("result conversion", "lib/linux/*/syscall.c: _sys_call..4")],
     ["return value and errno of any system call wrapper"])
prop("L02", "System calls pass their number and arguments in the kernel's registers",
     "On every supported architecture and for both the GCC and the MesCC build, a system call issued by the library puts the call number and each argument, in order and unchanged, into the register the Linux ABI assigns to it and returns the kernel's result register. The low-level _write and _exit stubs issue exactly the write and exit calls with their own arguments.",
     ["inputs", "configurations"], "all argument values, all architecture/compiler variants",
     "Only the x86_64 variants run in the suite, and most calls there use fewer than the maximum number of arguments.",
     ["lib/linux/x86-mes-gcc", "lib/linux/x86_64-mes-gcc", "lib/linux/arm-mes-gcc", "lib/linux/x86-mes-mescc", "lib/linux/x86_64-mes-mescc", "lib/linux/arm-mes-mescc"],
     [("assembly stubs", "lib/linux/*/syscall.c, syscall-internal.c, _write.c, _exit.c")],
     ["strace of any program"])
prop("L03", "Each POSIX wrapper makes the system call it is named after",
     "Each C library function that wraps a Linux system call issues that system call with the caller's arguments in the kernel's order, adding only the documented constants, and returns its result. This holds on every architecture, including where an architecture has only a substitute call (such as waitpid through wait4 or time through a 64-bit variant).",
     ["inputs", "configurations"], "all wrappers, all arguments, x86, x86_64 and arm",
     "The tests call a third of the wrappers, on x86_64 only, mostly with arguments for which a swapped order is not observable.",
     ["lib/linux", "include/linux/x86/syscall.h", "include/linux/x86_64/syscall.h", "include/linux/arm/syscall.h"],
     [("wrappers", "lib/linux/*.c"), ("numbers", "include/linux/*/syscall.h")],
     ["strace of any program"])
prop("L04", "Kernel numbers, constants and structures match the Linux ABI",
     "On x86, x86_64 and arm, every system-call number, open/seek/mode/signal/errno constant that the headers define has the value the Linux kernel gives it on that architecture, and every structure passed to the kernel (such as the file status, directory entry, time and resource-usage structures) has the kernel's field offsets and size.",
     ["configurations", "programs"], "all constants and structure fields on each architecture",
     "The suite only sees x86_64 and a handful of constants and fields.",
     ["include/linux", "include/sys", "include/errno.h", "include/fcntl.h", "include/signal.h", "include/dirent.h", "include/time.h"],
     [("ABI tables", "include/linux/*/syscall.h, include/linux/*/kernel-stat.h, include/errno.h")],
     ["sizeof/offsetof, macro values"])
prop("L05", "Character classification and case mapping are exact",
     "For every int value that is a byte or EOF, each character-class function answers as the C locale of the ISO C standard prescribes, and toupper/tolower map exactly the letters. In particular the functions agree with each other: alnum is alpha or digit, alpha is upper or lower, and xdigit covers both cases.",
     ["inputs"], "all 257 inputs of each function",
     "Tests probe a few characters.",
     ["lib/ctype"],
     [("classification", "lib/ctype/*.c")],
     ["isalpha(c), ..."])
prop("L06", "Bounded output and copies never pass the size they were given",
     "snprintf and vsnprintf write at most the given number of bytes to the destination, including the terminating NUL that they write unless the size is 0, whatever the format and arguments. The n-bounded string, memory and line-input functions never read or write beyond the count they were given, and getcwd, readlink and read let the kernel write no more than the caller's (or their own) buffer holds. No library function passes the end of a local array of its own, whatever its input.",
     ["inputs"], "all formats, arguments, string contents and sizes",
     "Tests use ample buffers.",
     ["lib/stdio/vsnprintf.c", "lib/stdio/snprintf.c", "lib/string/strncpy.c", "lib/string/strncat.c", "lib/string/strncmp.c", "lib/string/memcpy.c", "lib/string/memmove.c", "lib/string/memset.c", "lib/string/memcmp.c", "lib/string/memchr.c", "lib/mes/fdgets.c", "lib/posix/getcwd.c"],
     [("count guards", "lib/stdio/vsnprintf.c, lib/string/*.c, lib/mes/fdgets.c")],
     ["memory beyond the bound"])
prop("L07", "longjmp restores exactly the context setjmp saved",
     "On every architecture and for both compilers, longjmp resumes at the matching setjmp call with the stack pointer, frame pointer and return address that setjmp saved, and makes setjmp return the given value, or 1 if the value is 0; setjmp itself returns 0 when called directly.",
     ["inputs", "histories", "configurations"], "all values, all architecture/compiler variants",
     "Only the x86_64 variants run, with one value.",
     ["lib/x86-mes-gcc/setjmp.c", "lib/x86_64-mes-gcc/setjmp.c", "lib/arm-mes-gcc/setjmp.c", "lib/x86-mes-mescc/setjmp.c", "lib/x86_64-mes-mescc/setjmp.c", "lib/arm-mes-mescc/setjmp.c"],
     [("context save/restore", "lib/*-mes-*/setjmp.c")],
     ["setjmp/longjmp"])
prop("L08", "Programs start with the kernel's argc, argv and envp and exit with main's result",
     "On every architecture and for both compilers, the program entry point passes main the argument count, argument vector and environment the kernel placed on the stack, sets environ, and terminates the process with main's return value as exit status.",
     ["inputs", "configurations"], "all argument/environment shapes, all architecture/compiler variants",
     "Only x86_64 start-up code runs in the suite.",
     ["lib/linux/x86-mes-gcc/crt1.c", "lib/linux/x86_64-mes-gcc/crt1.c", "lib/linux/arm-mes-gcc/crt1.c", "lib/linux/x86-mes-mescc/crt1.c", "lib/linux/x86_64-mes-mescc/crt1.c", "lib/linux/arm-mes-mescc/crt1.c"],
     [("_start", "lib/linux/*/crt1.c")],
     ["argc, argv, environ, exit status"])
prop("L09", "No C library or interpreter result depends on uninitialised memory",
     "Every value that a C library or interpreter function returns, branches on, or passes on is computed from its inputs: no path reads a local variable before it is set, and no path reaches the end of a value-returning function without a value.",
     ["inputs", "programs"], "all paths of all functions",
     "Uninitialised reads usually happen to yield plausible values; the affected paths are rare.",
     ["src", "lib"], [("definite assignment", "all functions")], ["any result"])
prop("L10", "Running out of memory is reported, not dereferenced",
     "When the kernel refuses to extend the heap, malloc, calloc, realloc and the library functions that allocate return a null pointer (or fail) instead of handing out or writing to memory that was not obtained; a block that is handed out is at least as large as requested and does not overlap an earlier one.",
     ["fault_sequences", "inputs"], "all sizes and failure points",
     "No test exhausts memory.",
     ["lib/linux/malloc.c", "lib/string/strdup.c", "lib/stdlib/alloca.c", "lib/posix/setenv.c", "lib/stdlib/calloc.c", "lib/stdlib/realloc.c"],
     [("brk result check", "lib/linux/malloc.c")], ["malloc(n) under memory limit"])
# ---------------------------------------------------------------- MesCC
prop("L11", "Buffered input hands out every byte exactly once and in order",
     "Whatever sequence of read, getc, fgetc, ungetc, fgets, fread, feof, ftell, fseek, lseek and write a program makes on a descriptor, and however the kernel splits or fails its answers, the bytes the program gets are the bytes of the file, each once and in order; seeking and writing take place at the position the program has reached, and opening, closing or replacing a descriptor leaves no byte of the earlier file behind.",
     ["inputs", "histories", "fault_sequences"], "all histories of operations, all short reads and errors",
     "Tests read small files from regular files and never see a short read, an error after data, or a pushed-back byte before a seek.",
     ["lib/mes/__buffered_read.c", "lib/mes/fdgetc.c", "lib/mes/fdungetc.c", "lib/mes/fdgets.c", "lib/stdio/fread.c", "lib/stdio/fseek.c", "lib/stdio/ftell.c", "lib/linux/lseek.c", "lib/linux/close.c", "lib/linux/dup2.c", "lib/linux/_open3.c", "lib/posix/write.c"],
     [("read buffer", "lib/mes/__buffered_read.c"), ("pushed-back byte", "lib/mes/fdgetc.c"), ("positions", "lib/linux/lseek.c, lib/stdio/fseek.c")],
     ["the bytes read, file positions"])
prop("L14", "String and memory functions compute what ISO C defines",
     "For all contents, lengths and alignments, and for overlapping arrays where the function allows them, every function of lib/string returns the value ISO C (or POSIX, argz) defines, leaves in memory exactly what it defines, compares bytes as unsigned, and touches no byte outside the arrays it is given even when these are as small as the standard permits.",
     ["inputs"], "all contents; arrays up to the bound of the analysis",
     "Tests use a handful of short ASCII strings; empty needles, bytes above 127, exact-fit arrays, overlaps and characters out of range are not tried.",
     ["lib/string"], [("comparison", "lib/string/strcmp.c, lib/string/memcmp.c"), ("search", "lib/string/memmem.c, lib/string/strchr.c"), ("copying", "lib/string/memmove.c, lib/string/strncpy.c")],
     ["return values, memory contents"])
prop("L12", "Output functions write exactly the text asked for, to the stream named",
     "fputc, putc, putchar, fputs, puts, fwrite, fdputc, fdputs, eputs and oputs hand the kernel exactly the bytes they are given, all of them and in order, on the descriptor named. Every supported conversion of the printf family (d i u x X o c s % n with flags -, 0, width, precision and l) takes its own argument and writes exactly the text the format denotes, padding included, whatever the argument's value; vsnprintf keeps as much of it as fits, ends it, and returns its full length; the other members hand on stream, size, format and arguments unchanged.",
     ["inputs"], "all arguments for the enumerated format language",
     "Tests print a few formats with small arguments; width and precision taken from arguments, truncation at the exact length and bytes above 127 are not tried.",
     ["lib/stdio/vfprintf.c", "lib/stdio/vsnprintf.c", "lib/stdio/fwrite.c", "lib/stdio/fputs.c", "lib/mes/fdputs.c", "lib/mes/eputs.c", "lib/stdlib/puts.c", "lib/stdio/printf.c", "lib/stdio/sprintf.c"],
     [("conversions", "lib/stdio/vfprintf.c, lib/stdio/vsnprintf.c"), ("plain output", "lib/mes/fdputc.c, lib/stdio/fwrite.c")], ["bytes written, strings made"])
prop("L15", "Numbers and text convert exactly",
     "ntoab, itoa, ltoa, ltoab, utoa and ultoa write exactly the digits of the number, for every number of the type including the most negative and the largest unsigned one, in every base. abtol, atoi, atol, strtol and strtoul skip white space, take a sign, read exactly the digits of the base (upper and lower case letters alike, 0x in base 16), return the number they denote when the type holds it, and leave the end at the first character that is not a digit.",
     ["inputs"], "all numbers; all texts of up to 3 characters over every class of character, and long texts of digits",
     "Tests convert a few small numbers.",
     ["lib/mes/ntoab.c", "lib/mes/abtol.c", "lib/stdlib/strtol.c", "lib/stdlib/atoi.c", "lib/mes/itoa.c", "lib/mes/ultoa.c"],
     [("digits", "lib/mes/ntoab.c"), ("reading", "lib/mes/abtol.c")], ["the text of a number, the value of a text"])
prop("L16", "qsort sorts",
     "For every array, element size and comparison function, qsort leaves every element in the array exactly once and whole, in an order in which no element compares greater than the next, also when elements compare equal; it compares and touches only elements of the array.",
     ["inputs"], "every order, with every pattern of equal elements, of up to 5 elements",
     "Tests sort two fixed arrays.",
     ["lib/stdlib/qsort.c"], [("partition", "lib/stdlib/qsort.c")], ["array contents"])
prop("L17", "The environment and the search path",
     "getenv finds exactly the variable of that name; setenv replaces it (only if asked to), or adds it, keeping every other variable, and fails without changing anything when memory runs out; unsetenv removes it and nothing else; none of them touches memory outside the environment's array and strings. search_path probes the directories of PATH in order and returns the first that has the program, and execvp runs exactly that one, or the file itself if its name has a slash, with the arguments and the environment given, and fails with ENOENT otherwise.",
     ["inputs", "fault_sequences"], "environments of up to three variables, several forms of search path, every outcome of every probe and allocation",
     "Tests look up one variable and never add one, run out of memory, or search a path.",
     ["lib/posix/getenv.c", "lib/posix/setenv.c", "lib/posix/unsetenv.c", "lib/mes/search-path.c", "lib/posix/execvp.c"],
     [("lookup", "lib/posix/getenv.c"), ("growth", "lib/posix/setenv.c"), ("probes", "lib/mes/search-path.c")], ["environment contents, program executed"])
prop("M01", "x86_64 backend: every intermediate instruction computes its meaning",
     "For every intermediate instruction the MesCC compiler can issue and every operand it can be given (offsets, sizes and constants of any magnitude), the x86_64 machine code finally emitted performs exactly that instruction's documented effect on the target registers, memory, stack or flow of control, and disturbs nothing the compiler relies on. Constants and offsets are never truncated or wrongly extended.",
     ["programs", "inputs"], "every backend instruction over all operand values, for every register assignment the compiler makes",
     "The test programs use small offsets and constants and a subset of the instructions; a wrong encoding for a large operand compiles and passes them.",
     ["module/mescc/x86_64/as.scm", "lib/x86_64-mes/x86_64.M1", "module/mescc/M1.scm"],
     [("instruction emitters", "module/mescc/x86_64/as.scm"), ("encodings", "lib/x86_64-mes/x86_64.M1")],
     ["machine code of any compiled program"])
prop("M02", "i386 backend: every intermediate instruction computes its meaning",
     "For every intermediate instruction the MesCC compiler can issue and every operand it can be given (offsets, sizes and constants of any magnitude), the i386 machine code finally emitted performs exactly that instruction's documented effect on the target registers, memory, stack or flow of control, and disturbs nothing the compiler relies on. Constants and offsets are never truncated or wrongly extended.",
     ["programs", "inputs"], "every backend instruction over all operand values, for every register assignment the compiler makes",
     "No i386 code is compiled or run by the suite.",
     ["module/mescc/i386/as.scm", "lib/x86-mes/x86.M1", "module/mescc/M1.scm"],
     [("instruction emitters", "module/mescc/i386/as.scm"), ("encodings", "lib/x86-mes/x86.M1")],
     ["machine code of any compiled program"])
prop("M03", "armv4 backend: every intermediate instruction computes its meaning",
     "For every intermediate instruction the MesCC compiler can issue and every operand it can be given (offsets, sizes and constants of any magnitude), the ARM machine code finally emitted performs exactly that instruction's documented effect on the target registers, memory, stack or flow of control, and disturbs nothing the compiler relies on. Constants and offsets are never truncated or wrongly extended.",
     ["programs", "inputs"], "every backend instruction over all operand values, for every register assignment the compiler makes",
     "No ARM code is compiled or run by the suite.",
     ["module/mescc/armv4/as.scm", "lib/arm-mes/arm.M1", "module/mescc/M1.scm"],
     [("instruction emitters", "module/mescc/armv4/as.scm"), ("encodings", "lib/arm-mes/arm.M1")],
     ["machine code of any compiled program"])
prop("M04", "Each assembly mnemonic is defined as the machine instruction it names",
     "In the assembler macro definitions of each architecture, every mnemonic stands for the byte sequence that the processor executes as the operation, operand order, width and addressing mode spelled by the mnemonic.",
     ["programs", "configurations"], "all mnemonics of x86, x86_64 and arm",
     "Only mnemonics that the x86_64 tests happen to emit are executed.",
     ["lib/x86-mes/x86.M1", "lib/x86_64-mes/x86_64.M1", "lib/arm-mes/arm.M1"],
     [("DEFINE lines", "lib/*-mes/*.M1")], ["assembled bytes"])
prop("M05", "All backends implement every instruction the compiler issues",
     "Every intermediate instruction that the compiler can issue for a target exists in that target's backend and accepts the operands it is issued with, and every mnemonic that a backend, or an inline assembly statement of the C library for that target, uses is defined for that architecture. Compilation or assembly of a valid program never fails for want of an instruction.",
     ["programs", "configurations"], "all instructions issued by the code generator, for x86, x86_64 and arm",
     "The suite compiles for x86_64 only and with a limited set of C constructs.",
     ["module/mescc/compile.scm", "module/mescc/as.scm", "module/mescc/x86_64/as.scm", "module/mescc/i386/as.scm", "module/mescc/armv4/as.scm", "lib/x86-mes/x86.M1", "lib/x86_64-mes/x86_64.M1", "lib/arm-mes/arm.M1"],
     [("instruction tables", "module/mescc/*/as.scm")], ["mescc -S; M1"])
prop("M06", "The compiler's type sizes and signedness match the target ABI",
     "For each target the compiler's sizes for char, short, int, long, long long, pointers and the floating types, in signed and unsigned form, are those of the target's C ABI, signed types are signed and unsigned types unsigned, and the C library headers' limits and fixed-width types agree with them.",
     ["programs", "configurations"], "all basic types on x86, x86_64 and arm",
     "The suite checks a few sizes on x86_64.",
     ["module/mescc/x86_64/info.scm", "module/mescc/i386/info.scm", "module/mescc/armv4/info.scm", "include/limits.h", "include/stdint.h"],
     [("type tables", "module/mescc/*/info.scm")], ["sizeof, limits"])
prop("M07", "Each C operator compiles to the operation it denotes",
     "For every C arithmetic, bitwise, shift, comparison and logical operator, including the compound assignments and constant expressions, the compiler selects the operation that C prescribes, on the operands in source order, in its signed or unsigned form according to the operands' types.",
     ["programs", "inputs"], "all operators and operand types",
     "Tests combine operators with few types and values; a wrong signedness or order shows only for particular values.",
     ["module/mescc/compile.scm"], [("expression compiler", "module/mescc/compile.scm: expr->register, expr->number, assignment")], ["value of any C expression"])
prop("M08", "Register allocation balances in every expression and statement",
     "Compiling any expression allocates exactly one register more than before, for its result, and compiling any statement leaves the allocation as it was, on every path through the code generator. Saved registers are restored in the reverse order of saving.",
     ["programs"], "all expressions and statements",
     "A leak or double free shows only in particular nestings.",
     ["module/mescc/compile.scm"], [("allocate-register/free-register", "module/mescc/compile.scm")], ["code of any nested expression"])
prop("M09", "Every jump the compiler emits has exactly one target",
     "Every label that generated code jumps to is defined exactly once in the generated function, break and continue go to the end and the next iteration of the innermost enclosing construct, and labels of different statements never coincide.",
     ["programs"], "all statements and nestings",
     "Tests nest few constructs.",
     ["module/mescc/compile.scm", "module/mescc/M1.scm"], [("labels", "module/mescc/compile.scm: statement->info")], ["control flow of any compiled function"])
prop("M10", "Data is laid out byte-exactly in the output",
     "Every constant initialiser and string literal reaches the output as exactly its bytes, little-endian and in the width of its type, whatever its value; no string containing special characters is written in a form that the assembler reads differently.",
     ["programs", "inputs"], "all strings and constants",
     "Tests use printable strings and small constants.",
     ["module/mescc/M1.scm", "module/mescc/bytevectors.scm", "module/mescc/compile.scm"], [("data writer", "module/mescc/M1.scm")], ["data section"])
prop("M11", "A failing tool or missing file makes the compiler driver fail",
     "When the assembler, linker, blood-elf or any other program that the compiler driver runs fails, or an input or library file cannot be found, the driver stops with a non-zero exit status instead of continuing and reporting success.",
     ["fault_sequences"], "all external commands and files the driver uses",
     "Tests never make a tool fail.",
     ["module/mescc/mescc.scm", "scripts/mescc.scm.in"], [("status checks", "module/mescc/mescc.scm")], ["exit status"])
prop("M12", "Compiler output is a function of its inputs only",
     "The compiler's output depends only on its input files and options: nothing reachable from the compiler reads the clock, process identity, random numbers, object addresses or the iteration order of hash tables.",
     ["schedules", "programs", "configurations"], "every procedure reachable from the compiler's entry points",
     "Two runs in the same environment agree even when a hidden dependency exists.",
     ["module/mescc"], [("purity", "module/mescc/*.scm")], ["byte-identical output"])
prop("S01", "The Scheme library refers only to bindings that exist",
     "Every variable that a module of the Scheme library or the compiler refers to is bound: by the module itself, by a module it loads or imports, or by the interpreter, and every name a module exports is defined. Calls to known procedures pass a number of arguments they accept.",
     ["programs", "configurations"], "all references in all modules, reachable or not by tests",
     "An unbound variable is only noticed when the one expression using it is evaluated.",
     ["module", "mes/module"], [("definitions", "module/**/*.scm, mes/module/**/*.mes")], ["unbound-variable error"])
