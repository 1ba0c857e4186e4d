"""Which harness decides which property, within which bounds."""

ASSUMPTIONS = [
    "rustc/LLVM at opt-level 1 with debug assertions and overflow checks translate the source faithfully",
    "the executor's semantics of the LLVM IR subset and its memory model (validated by native replay of witnesses)",
    "z3 / cvc5 verdicts",
    "x86-64 Linux, 64 KiB data space of rtforth::mock_vm::VM with core.fth loaded",
]

Q, T = "quick", "thorough"

PROPS = {}


def prop(pid, jobs, bounds, outside="", **kw):
    PROPS[pid] = dict(jobs=jobs, bounds=bounds, outside=outside, **kw)


prop("C02",
     [("h_c02_bin", range(22), Q), ("h_c02_un", range(15), Q), ("h_c02_within", [0], Q)],
     "every word named, interpreted and compiled, for all 64-bit operand values, three arbitrary cells below",
     "stack depths other than three below the operands (see C03 for all depths)")

prop("C03",
     [("h_c03_s", range(12), Q), ("h_c03_misc", range(3), Q), ("h_c03_r", range(6), Q),
      ("h_c03_rdef", range(7), Q), ("h_c03_f", range(7), Q)],
     "every word at every depth 0..64 that fits it, all cells arbitrary",
     "")

prop("C04",
     [("h_c04_generic", range(8), Q), ("h_c04_word", range(30), Q), ("h_c04_fword", range(12), Q),
      ("h_c04_nest", range(3), Q)],
     "all four stacks; excursions up to 64 items beyond either end, arbitrary values",
     "values equal to the fill pattern of the stack (excluded by the statement)")

prop("C05",
     [("h_c05_prim", range(6), Q), ("h_c05_move", range(5), Q), ("h_c05_move", range(5, 9), T), ("h_c05_move_bad", range(2), Q),
      ("h_c05_fill", range(5), Q), ("h_c05_fill", range(5, 9), T), ("h_c05_fill_bad", range(1, 4), Q),
      ("h_c05_comp", range(6), Q), ("h_c05_comma", range(5), Q), ("h_c05_full", range(5), Q)],
     "all 64-bit addresses, all values, all contents of the free data space, any probed byte; move/fill of up to 4 (thorough: 8) bytes inside, any length outside",
     "longer valid moves and fills; the null cell at the start of the data space; stores into the running word's own code")

prop("C21",
     [("h_c21_un", range(16), Q), ("h_c21_bin", range(10), Q), ("h_c21_misc", range(4), Q), ("h_c21_bits", [0], Q)],
     "every float word, interpreted and compiled, for all bit patterns of its operands, arbitrary items below",
     "the values of the transcendental functions themselves (libm), taken as given functions")

prop("C25", [("h_c25", range(16), Q)],
     "every unit word, interpreted and compiled, for all doubles, arbitrary items below", "")

prop("C26",
     [("h_c26_arith", range(13), Q), ("h_c26_allot", range(4), Q), ("h_c26_xt", [0], Q), ("h_c26_field", range(2), Q)],
     "every operand and amount (64 bits), interpreted and compiled; append of up to 4 to up to 4 characters",
     "longer strings for append")

prop("C06",
     [("h_c06_base", range(1, 4), Q), ("h_c06_base", [4, 5], T), ("h_c06_case", range(9), Q), ("h_c06_new", [1, 4, 7], Q), ("h_c06_new", [2, 5, 8], T), ("h_c06_scene", range(8), Q),
      ("h_c06_tick", range(1, 3), Q)],
     "every 7-bit token of up to 3 (thorough: 5) characters against the whole dictionary; two definitions with arbitrary names of 2 (thorough: 3) characters in two of the 64 buckets and a token of these buckets; eight scenes of redefinitions and collisions with any token of up to 4 characters; every word in any mixture of cases",
     "longer arbitrary names")

prop("C08",
     [("h_c08_one", range(7), Q), ("h_c08_seq", range(7), Q), ("h_c08_two", range(7), Q), ("h_c08_three", range(7), Q), ("h_c08_four", range(7), T), ("h_c08_many", range(8), Q), ("h_c08_ladder", range(4), Q)],
     "every structure alone, every pair in sequence, every structure in every place of every other, three (thorough: four) levels deep; case with up to seven branches and an inner case in any of them; four ladders of five conditionals; eight arbitrary flags or selectors, up to 24 notes",
     "deeper nesting; executions that read more than eight flags")

prop("C09",
     [("h_c09_one", range(6), Q), ("h_c09_nest", range(3), Q), ("h_c09_leave", range(7), Q)],
     "all 64-bit starts, limits and increments; the first 6 iterations (12 notes when nested)",
     "what happens after the first iterations, beyond that each iteration is the same code")

prop("C10",
     [("h_c10_four", range(17), Q), ("h_c10_five", range(17), T), ("h_c10_edit", range(8), Q)],
     "every sequence of up to four (thorough: five) of the 17 control-flow words; eight longer texts with any one word exchanged, left out or doubled",
     "longer arbitrary sequences")

prop("C23",
     [("h_c23_three", range(54), Q), ("h_c23_four", range(54), Q), ("h_c23_five", range(54), T), ("h_c23_fix", range(6), Q), ("h_c23_num", range(5), Q)],
     "every program of up to four (thorough: five) label/goto/call/conditional goto/exit items over two labels, for six pairs of label numbers; every invalid label number; four arbitrary flags, up to six notes",
     "longer programs")

prop("C07",
     [("h_c07_two", range(14), Q), ("h_c07_three", range(14), T), ("h_c07_name", [0, 3, 5, 9, 14], Q), ("h_c07_name", [1, 2, 4, 6, 7, 8, 10, 11, 12, 13, 15], T), ("h_c07_buckets", range(3), Q)],
     "up to two (thorough: three) of 14 groups of definitions between marker and its execution (redefinitions, equal hash values, nested markers, abandoned and deferred words), three alignments, arbitrary stored values; four words with arbitrary 2-character names in two buckets; 120 to 192 definitions covering all buckets, a third of them redefinitions",
     "longer histories")

prop("C11",
     [("h_c11_any", [k for k in range(47) if k != 35], Q), ("h_c11_any", range(48, 59), T), ("h_c11_long", range(11), Q),
      ("h_c11_char", [0], Q), ("h_c11_eval", range(8), Q)],
     "every 7-bit token of up to 4 (thorough: 5) characters in bases 10, 16, 2, 8, 36, 1, 0, -10, 3, 7, 2^63-1 and, up to 2 characters, any base at all; tokens of 16 to 65 arbitrary digits with and without prefix and sign; interpreted and compiled; through the interpreter any 1- or 2-character token (all buckets of 1, four of 2) and 3- and 4-character tokens of two buckets",
     "longer arbitrary tokens; fully symbolic bases for longer tokens")

prop("C12",
     [("h_c12_any", range(1, 8), Q), ("h_c12_any", range(8, 11), T), ("h_c12_form", range(22), Q), ("h_c12_long", range(20), Q), ("h_c12_eval", range(10), Q)],
     "every 7-bit token of up to 7 (thorough: 10) characters; 22 longer forms with arbitrary digits and characters; 20 forms at the limits of integers and exponents; interpreted and compiled; five forms with arbitrary characters through the interpreter",
     "longer arbitrary tokens; values compared as expressions, and digit by digit where those differ (powers of ten as computed by powi)")

prop("C13",
     [("h_c13_dot_r", range(16), Q), ("h_c13_dot", range(4), Q), ("h_c13_question", range(4), Q), ("h_c13_hex", range(2), Q),
      ("h_c13_dot_s", range(1, 4), Q), ("h_c13_dot_s", range(4, 8), T), ("h_c13_base", range(2), Q), ("h_c13_switch", range(2), Q)],
     "all 64-bit numbers in bases 10, 2, 8 and 16, all other bases; every negative width, widths around the length, up to 90; interpreted and compiled; .s with up to 3 (thorough: 7) items, one of them arbitrary",
     "f. and f.r (float formatting); widths beyond 90")

prop("C14",
     [("h_c14_tokens", [*range(11), *range(16, 20)], Q), ("h_c14_tokens", [11, 12, 20, 21], T),
      ("h_c14_ops", [*range(42), *range(56, 77)], Q), ("h_c14_ops", [*range(42, 56), *range(77, 84)], T),
      ("h_c14_char", [*range(6), *range(8, 12)], Q), ("h_c14_line", range(25), Q), ("h_c14_line", range(25, 50), T), ("h_c14_long", range(4), Q)],
     "all texts of up to 10 (thorough: 12) 7-bit characters, and up to 3 (5) characters of any UTF-8 width; two parsing words with arbitrary delimiters and the next token on texts of up to 5 (7) or 2 (3) such characters; all lines of 5 (7) digits, blanks, parentheses and backslashes through the interpreter; words of 254 to 300 characters",
     "longer texts")

prop("C22",
     [("h_c22_s", [*range(13), *range(16, 20)], Q), ("h_c22_s", [13, 14, 15, 20, 21], T), ("h_c22_dot", [*range(13), *range(16, 20)], Q), ("h_c22_dot", [13, 14, 15, 20, 21], T),
      ("h_c22_paren", [*range(13), *range(16, 20)], Q), ("h_c22_paren", [13, 14, 15, 20], T),
      ("h_c22_line", range(64), Q), ("h_c22_emit", range(4), Q), ("h_c22_type", range(5), Q), ("h_c22_word", range(2), Q), ("h_c22_long", range(4), Q)],
     "all texts of up to 12 (thorough: 15) 7-bit characters or 3 (5) characters of any UTF-8 width, delimiters anywhere or missing, directly and through the interpreter (up to 7); strings of 255 to 1023 characters, a tenth of them arbitrary; emit of any cell",
     "longer arbitrary texts")

prop("C15",
     [("h_c15_pair", [k for k in range(153) if k != 74], Q), ("h_c15_pair", [74], T), ("h_c15_chain", [1, 7, 11, 23, 37, 53], Q),
      ("h_c15_chain", [k for k in range(2, 77) if k not in (7, 11, 23, 37, 53)], T), ("h_c15_forms", range(10), Q), ("h_c15_lit", range(4), Q),
      ("h_c15_only", [0], Q), ("h_c15_flags", [0], Q), ("h_c15_own", range(12), Q)],
     "all ordered pairs out of 153 words, literals and phrases, and 918 (thorough: 11628) sequences of four, compiled at two alignments, on 12 arbitrary cells, 8 arbitrary floats and 4 arbitrary cells of memory; every one of them by [ ], immediate, postpone, ['] execute, compile,, defer; all compile-only words; literals of any value at 9 alignments",
     "other sequences; sequences that leave the limits of a stack in between; tokens whose meaning depends on a base changed within the sequence; f. and f.r")

prop("C16",
     [("h_c16_three", range(144), Q), ("h_c16_same", range(12), Q), ("h_c16_defer", [0], Q), ("h_c16_does", range(10), Q), ("h_c16_noname", [0], Q)],
     "all triples of 12 kinds of defining words at 16 combinations of alignments, for all values; the same name twice; chains of deferred words; ten shapes of create ... does>; missing names",
     "more than three definitions at a time (nine for one shape); an exhausted data space (see C01, C05)")

prop("C18",
     [("h_c18_line", range(4), Q), ("h_c18_words", [0], Q), ("h_c18_reset", range(3), Q), ("h_c18_pending", range(2), Q), ("h_c18_handler", range(3), Q), ("h_c18_session", range(4), Q), ("h_c18_multi", [0], Q)],
     "40 ways to an error with arbitrary values on the stacks, at three places of a line, in the library's interpreter and in the interactive program's own loop (rtf.fth) with lines before and after; all 58 exceptions and all pairs of descriptions; any handler token at all, failing and forgotten handlers",
     "return-stack errors in the middle of a definition (C04); handlers written in Forth other than rtf.fth's")

prop("C01",
     [("h_c01_word", range(41), Q), ("h_c01_full", range(12), Q), ("h_c01_endless", [0, *range(2, 8)], Q), ("h_c01_naked", [0, 1, 2, 17], Q), ("h_c01_file", range(18), Q)],
     "every word of the dictionary (those on files with any cells, some areas and names, and a failing system call; more in C19 and C20), with 0 to 6 or 64 arbitrary cells and floats on the stacks, up to four on the return stack, four source texts, nine kinds of constructs under construction; compile-only words inside a definition, and naked through execute; a data space with any of 0 to 40, 96 to 232, 520 to 680 bytes left for 12 definitions; words that compile without end",
     "stores and moves into the dictionary's code and return addresses that lead into it (they may do anything); widths and counts that only exhaust memory or time; text shown (C13, C22); sequences of words (C15)")

prop("C24",
     [("h_c24_clock", range(4), Q), ("h_c24_four", range(6), Q), ("h_c24_five", range(6), T), ("h_c24_xtime", [0, 1], Q), ("h_c24_word", range(9), Q)],
     "all clock readings; all histories of up to four (thorough: five) measurements of three words, clearings and showings, with arbitrary durations from four ranges; xtime of one or two executions that take arbitrary time at five clock readings; every word of the dictionary measured twice",
     "longer histories; start times in the future (C01)")

prop("C17",
     [("h_c17_pause", range(10), Q), ("h_c17_number", range(6), Q), ("h_c17_turns", range(4), Q), ("h_c17_all", range(4), Q),
      ("h_c17_facility", range(8), Q), ("h_c17_ms", [0, 1], Q), ("h_c17_stop", range(13), Q), ("h_c17_release", range(8), Q)],
     "all subsets of five tasks awake, from each task; suspend, resume, activate and me with any 64-bit number; two tasks started, then any two of thirteen operations (start, suspend, resume, pause) by them, between pauses, for four programs; all sequences over the users of one facility with suspensions; get and release of any cell by any task; all 64-bit waiting times over five clock readings; stop and halt in 13 situations",
     "pausing with no task awake (waits for ever); activating the task that runs; fractions of a millisecond")

prop("C19",
     [("h_c19_id", range(5), Q), ("h_c19_move", range(4), Q), ("h_c19_name", range(12), Q), ("h_c19_three", range(9), Q), ("h_c19_four", range(261), Q),
      ("h_c19_work", range(72), Q), ("h_c19_fault", [k for k in range(87) if k % 29 not in (11, 12, 13)], Q), ("h_c19_tasks", range(4), Q)],
     "all identifiers, addresses, lengths, offsets and access modes; names of any bytes up to 3 long, and of 255 to 258 bytes; every result of every system call with one failing, one interrupted and two short transfers; all histories of three and four operations, and longer ones of six, out of 29 on three files with contents; files of several tasks; against a model of the operating system that keeps the files' contents, positions and descriptors",
     "failures of close(2) (Rust's File drops them); other processes that change the files; names that are not UTF-8 on their way to the system")

prop("C20",
     [("h_c20_lines", [*range(6), *range(8, 13)], Q), ("h_c20_lines", [6, 13], T), ("h_c20_ends", range(4), Q), ("h_c20_ends", range(4, 8), T),
      ("h_c20_long", range(16), Q), ("h_c20_fault", range(5), Q), ("h_c20_fault", [5], T), ("h_c20_four", range(9), Q), ("h_c20_six", range(76), Q),
      ("h_c20_number", range(6), Q), ("h_c20_include", [k + 14 * (k % 4) for k in range(14) if k != 10], Q),
      ("h_c20_include", [k + 14 * j for k in range(14) for j in range(4) if j != k % 4 and k != 10], T),
      ("h_c20_pieces", range(16), Q), ("h_c20_deep", [0, 1], Q), ("h_c20_again", range(6), Q), ("h_c20_report", range(8), Q)],
     "all texts of 5 (thorough: 6) 7-bit or 4 (thorough: 5) arbitrary bytes and of 7 (thorough: 8) line ends and letters, lines around the reader's buffer size, in any pieces the system delivers, with a failing and an interrupted read; histories of four and six operations on sources; any number as source identifier; include of all files of three lines out of 14 that include a file of two lines out of 14; 1 to 17 files that include each other; up to 17 errors in included files; the error report of the interactive program",
     "files that change while they are read; multitasking during an include; sources stay open after an error")

prop("C27",
     [("h_c27_keys", range(10, 20), Q), ("h_c27_keys", range(20, 30), T), ("h_c27_strokes", range(6), Q), ("h_c27_strokes", range(6, 12), T),
      ("h_c27_recall", range(36), Q), ("h_c27_recall", range(36, 72), T), ("h_c27_session", range(21), Q), ("h_c27_session", range(21, 42), T),
      ("h_c27_file", range(28), Q)],
     "all sequences of 4 (thorough: 5) strokes out of any characters of one to four bytes, editing keys, ctrl-d and keys without a meaning, and of 6 (thorough: 7) strokes out of six; 0 to 2 lines and 6 (thorough: 7) strokes of typing and recalling; sessions of 4 (thorough: 5) strokes over several lines through the program's own interpreter, ended by bye, ctrl-d or after an error of the terminal; earlier sessions of 0 to 40 lines; crossterm, directories, getopts and unicode-width are stand-ins",
     "the command line; failures while the history is written; how wide characters are; lines longer than those; what crossterm makes of the bytes of a real terminal",
     crate="term")

prop("C28",
     [("h_c28_words", range(7), Q), ("h_c28_word", range(46), Q), ("h_c28_addresses", range(45), Q), ("h_c28_calls", range(9), Q), ("h_c28_deep", range(4), Q),
      ("h_c28_memory", range(4), Q), ("h_c28_dump", range(16), Q), ("h_c28_input", range(18), Q), ("h_c28_limits", range(8), Q)],
     "the listing after six kinds of definitions; every token and all numbers that are none; any address inside or outside of every word of the dictionary on the return stack; chains of up to four calls at nine kinds of errors, recursions up to 40 deep; 160 sizes of the data space in use; areas of up to 16 bytes, two of them arbitrary, in four bases; lines with up to five arbitrary characters",
     "floats shown by .s; values on the return stack that are no addresses (they may be given any name)")
