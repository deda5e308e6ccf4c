prop("I01", "Every instruction is encoded as the bytes its documentation gives",
     "For every documented instruction form and every acceptable combination of operand values, assembling the instruction at a location writes exactly the "
     "documented bytes there (opcode bits and operand bits, in the documented order) and nothing else, and the following statement starts right after them.",
     ["inputs", "programs"], "all 70 instruction forms, all operand values, all locations 0..65535",
     "The tests assemble a handful of programs; each form has up to 2^17 operand combinations and 65536 locations, and one wrong operand bit shows only for values using it.",
     INS + ["src/asm.rs"], [("bit patterns of the instruction set and the derived encoder", "src/instruction.rs, waterbear-instruction-derive"),
                            ("instruction evaluation and byte placement", "src/asm.rs generate_bytes")])
prop("I02", "Decoding inverts encoding and is defined on every byte sequence",
     "For every non-empty sequence of bytes, decoding yields the documented instruction whose pattern the leading bytes match, with exactly the documented operand "
     "values, and yields nothing if no pattern matches or the bytes end too early. Encoding the decoded instruction gives back exactly the bytes consumed, and its "
     "reported size is their number.",
     ["inputs"], "all byte sequences: 256 first bytes, unknown following bytes, every truncation",
     "The tests decode fixed programs only; the byte sequences number 2^24 and the operand fields overlap opcode bits in irregular places.",
     INS, [("derived decoder", "src/instruction.rs Instr::decode")],
     note="The empty sequence is excluded (documented precondition: the disassembler never decodes past the end).")
prop("I03", "Operands outside an instruction field's range are rejected, others accepted",
     "Assembling an instruction succeeds only if every operand value is representable in its field (immediate 0..255, direct address 0..511, bit number 0..7, absolute address 0..65535, branch distance of 8 or 16 signed bits) and "
     "reports an error otherwise; an instruction whose operands are all representable is never rejected.",
     ["inputs", "programs"], "all 70 instruction forms, all 32-bit operand values, all locations 0..65535",
     "Tests try few out-of-range values, at most one per form; a limit that is off by one, or wrong for one operand of one form, goes unnoticed.",
     INS + ["src/asm.rs"], [("operand range checks", "src/instruction.rs eval, src/asm.rs generate_bytes")])
prop("I04", "Branches and jumps encode the distance to exactly the named target",
     "Relative branches and calls store target minus the location following the instruction (16-bit forms: plus one), accepted exactly when the distance "
     "fits the field; 12-bit absolute jumps and calls store the target's low 12 bits, accepted exactly when target and following location lie in the same 4 KiB page.",
     ["inputs", "programs"], "all forms with relative or page-absolute operands, all targets, all locations 0..65535",
     "Tests use a few short branches; the limits (-128, 127, page edges, backward 16-bit) are reached by particular distances only.",
     INS + ["src/asm.rs"], [("relative and page-absolute operand evaluation", "src/instruction.rs eval")])
prop("I05", "Disassembled branch operands name the address the branch goes to",
     "For every instruction at every location the disassembler prints each branch, jump or call operand as the address the instruction really transfers to, or as the "
     "label standing at that address; it creates the label at that address, follows the flow to that address, and prints the other operands as decoded.",
     ["inputs", "programs"], "all 70 forms, all operand bits, all locations",
     "Tests disassemble a few binaries; sign extension and wrap-around errors show for particular distances only.",
     ["src/disasm.rs"], [("operand lifting", "src/disasm.rs lift_instr"), ("label creation", "src/disasm.rs compute_labels"), ("targets", "src/disasm.rs targets")])
prop("I06", "Exactly the documented mnemonic and operand shapes are accepted",
     "A mnemonic with a list of operands (immediates, expressions, indirection modes) is accepted exactly when the documentation lists that form, and then denotes "
     "that instruction with the operands in the order written; unknown mnemonics and unlisted operand combinations are rejected with an error naming the problem.",
     ["inputs", "programs"], "every mnemonic string, every operand-shape list of length 0..3 (thorough: 0..4) and longer lists",
     "Tests use common forms; there are 45 mnemonics times dozens of operand shapes, and swapped operands in one form pass unnoticed.",
     INS, [("instruction construction", "src/parser.rs / src/instruction.rs make_instr"), ("mnemonic table", "src/instruction.rs exists")])
prop("I07", "Wrong operands are answered with exactly the documented forms",
     "When an instruction is given an operand combination it does not have, the error lists the operand forms the documentation gives for that mnemonic, each once and no "
     "others, in the documentation's notation (#i8, d9, @Ri, b3, a12, a16, r8, r16), so that a form the message offers is one the assembler accepts.",
     ["inputs", "programs"], "every mnemonic, every undocumented operand-shape list of length 0..3 (thorough: 0..4) and longer lists",
     "Tests look at accepted programs; the 45 lists of allowed forms are written by hand next to the code and appear only in messages.",
     INS, [("lists of allowed forms", "src/parser.rs make_instr / wrong_args"), ("operand notation", "src/ast.rs ArgType::to_str")])
prop("I08", "Disassembly follows exactly the possible successors of each instruction",
     "When tracing code, the disassembler continues at the following location unless the instruction transfers control unconditionally, and at the target of each "
     "branch, jump or call (except a far jump right after the flash bank switch); it visits no other successors.",
     ["inputs", "programs"], "all 70 forms, all operand bits, all locations",
     "Tests disassemble a few binaries whose code happens to use some instructions; a missing or extra successor shows only on code that uses it.",
     ["src/disasm.rs"], [("successor computation", "src/disasm.rs build_instruction_graph / targets")])
PIPE = ["src/asm.rs", "src/ast.rs", "src/parser.rs", "src/expression.rs", "src/env.rs"]
PIPETECH = "path-sensitive abstract interpretation of the whole assembler pipeline (MIR) against a reference semantics, per statement schema"
PIPENOTE = ("Each schema fixes token kinds and layout and leaves numbers and string bytes unknown; the enumerated layouts bound what is covered. Lexing and file access are "
            "replaced by the schema's tokens.")
prop("D01", "Data directives emit exactly the documented bytes",
     ".byte writes each value in -128..255 as one byte and the bytes of each string in order; .word writes each value in -32768..65535 as two bytes, low byte first; .text and .string write the string's bytes "
     "and pad with spaces (.text) or zeros (.string) to the stated length; .cnop pads with zeros up to the next location that is the added amount above a multiple (a multiple of 0 or 1 never aligns); .org continues at the stated "
     "location, leaving zeros in any gap; later bytes overwrite earlier ones. A value or string that does not fit, or an .org location above 65535, is reported as an error, never truncated.",
     ["inputs", "programs"], "all values, all string contents, mixtures of directives, positions and alignments within the enumerated layouts",
     "The tests use a few literal values; sign limits, padding, alignment and byte order depend on value and position.",
     ["src/asm.rs", "src/ast.rs"], [("byte generation", "src/asm.rs generate_bytes"), ("directive sizes", "src/ast.rs Directive::size, eval_cnop")], note=PIPENOTE, technique=PIPETECH)
prop("L01", "A label's value is the location of the next byte emitted after it",
     "Wherever a label (global, local or from a macro) is defined and whatever kind of statement surrounds it, every reference to it, before or after, yields the location at which the next emitted byte "
     "is placed.", ["inputs", "programs"], "every kind of statement before and after a label, all operand values",
     "Layout and byte generation compute positions separately; a disagreement for one statement kind shows only in programs that refer to a label after it.",
     ["src/asm.rs", "src/ast.rs"], [("label layout", "src/asm.rs compute_labels"), ("byte placement", "src/asm.rs generate_bytes")], note=PIPENOTE, technique=PIPETECH)
prop("N01", "Defining a name twice in one scope is an error; shadow-free names are not",
     "A label, variable (=), alias (equ) or local label that is already defined in the same scope is rejected as a duplicate, however the definitions are mixed and also when they come out of macro "
     "expansion; different names, and equal local names under different global labels, are accepted. Names are case-insensitive.",
     ["inputs", "programs"], "every ordered pair of definition kinds, same or different scope and name",
     "Tests contain hardly any duplicate; silently taking one of two definitions assembles wrong code without any message.",
     ["src/asm.rs", "src/env.rs"], [("definition collection", "src/asm.rs compute_labels, compute_names")], note=PIPENOTE, technique=PIPETECH)
prop("N02", "Every reference denotes its definition in scope; undefined names are errors",
     "In every place that accepts an expression, a name denotes the label (defined anywhere), alias or variable of that name (case-insensitively), and a name starting with a dot denotes the local label under the same "
     "global label; a name without such a definition is reported as an error.",
     ["inputs", "programs"], "every operand position of every form and directive times every way of defining, or not defining, the name",
     "Tests use labels in branches and a few aliases; scope and lookup mistakes show only for particular combinations.",
     ["src/asm.rs", "src/env.rs", "src/expression.rs"], [("name lookup", "src/env.rs, src/expression.rs Expr::eval"), ("scopes", "src/asm.rs compute_names")], note=PIPENOTE, technique=PIPETECH)
prop("E01", "Expression operators compute the mathematical result or report an error",
     "+ - * / & | ^ and the prefix operators - < > applied to any 32-bit values yield the mathematical result (division truncates toward zero, < is bits 0-7, > is bits 8-15); division by zero and results "
     "outside 32 bits are reported as errors, never wrapped and never a crash.",
     ["inputs"], "all pairs and triples of 32-bit values, every operator and composition of two operators",
     "Tests evaluate a few constants; overflow, negative operands and zero divisors are single points in 2^64 pairs.",
     ["src/expression.rs"], [("expression evaluation", "src/expression.rs Expr::eval")], note=PIPENOTE, technique=PIPETECH)
prop("E02", "Operators group by the documented precedence, left to right",
     "In an expression without parentheses, prefix operators bind tightest, then * and /, then + and -, then & ^ and | (one level); operators of one level group to the left; parentheses override the grouping. "
     "The grouping is the same wherever an expression may occur.",
     ["inputs", "programs"], "all sequences of 2 (thorough: 3) operators with every prefix placement, all values",
     "Tests check single expressions; a precedence slip between two particular operators is invisible on most values.",
     ["src/parser.rs"], [("expression parser", "src/parser.rs parse_expr, parse_bitwise, parse_sum, parse_term, parse_factor (precedence levels)")], note=PIPENOTE, technique=PIPETECH)
prop("M01", "Macro invocations expand to the body with arguments substituted",
     "An invocation is equivalent to the macro's body with every parameter replaced by the argument in that position (the argument keeps its own meaning and grouping), including nested invocations and "
     "arguments passed on; the macro used is the one with that name and number of parameters.",
     ["inputs", "programs"], "every operand position a parameter may take, times argument kinds, times nesting",
     "Tests expand a few macros; capture, wrong grouping and swapped arguments need particular bodies and arguments.",
     ["src/asm.rs", "src/ast.rs"], [("expansion", "src/asm.rs expand_macros, expand, replace_args")], note=PIPENOTE, technique=PIPETECH)
prop("M02", "Hygienic macro labels are private to one expansion",
     "A label name% inside a macro denotes that expansion's own label: it has its own position in each expansion, never clashes with another expansion, another macro or the program, can be passed as an "
     "argument, and cannot be referred to from outside.",
     ["inputs", "programs", "histories"], "repeated, nested and mixed expansions of bodies with global and local hygienic labels",
     "Tests expand a macro once or twice; clashes need particular combinations of nested and repeated expansions.",
     ["src/asm.rs"], [("label renaming", "src/asm.rs gen_labels, expand")], note=PIPENOTE, technique=PIPETECH)
prop("M03", "Ill-formed macros and invocations are rejected, well-formed ones accepted",
     "An unknown macro, a wrong number of arguments, a duplicate definition (same name and parameter count), a repeated parameter name, a parameter that is not a %name, an unknown %name, an immediate or "
     "register argument used inside an expression, a macro named like an instruction, a missing or stray %end and a hygienic label outside a macro are each reported as errors.",
     ["inputs", "programs"], "definition headers, bodies and invocations enumerated over argument kinds and counts",
     "Tests contain few wrong programs; an unchecked condition silently assembles something else.",
     ["src/parser.rs", "src/asm.rs"], [("macro parsing", "src/parser.rs parse_macro"), ("macro table and expansion", "src/asm.rs expand_macros")], note=PIPENOTE, technique=PIPETECH)
prop("P01", "No part of a program is ignored: extra or missing tokens are errors",
     "A line that contains anything beyond a complete statement, or only part of one, is rejected with an error; nothing on one line is continued by or merged with the next line, and no token is silently dropped.",
     ["inputs", "programs"], "every statement kind times every kind of extra token, and every truncation of it",
     "Tests contain correct programs; a parser that stops early assembles a prefix of what was written.",
     ["src/parser.rs", "src/asm.rs"], [("statement parsing", "src/parser.rs Parser::parse and the check for trailing tokens")], note=PIPENOTE, technique=PIPETECH)
prop("Q01", "An error names the file and line of the construct it is about",
     "For each kind of error (bad operand, undefined or duplicate name, failed macro invocation, malformed statement, value out of range), the reported location lies in the file and on the line of the offending "
     "construct, also when it is in an included file or inside a macro body or argument; it never points to another line, file or to nothing.",
     ["inputs", "programs"], "every error kind times surrounding lines, include depth and macro nesting, for all operand values",
     "Tests compare success output; hardly any asserts where an error is reported.",
     PIPE, [("spans", "src/parser.rs (statement spans), src/asm.rs, src/ast.rs span()")], note=PIPENOTE, technique=PIPETECH)
prop("R02", "An include behaves as the included file's lines or bytes in its place",
     ".include (also asm) is equivalent to the included file's lines standing in its place, for labels, local labels, macros, variables and layout, at any nesting and repetition; .include bytes places exactly the file's "
     "bytes at the current location; each path is resolved against the file that contains the directive.",
     ["inputs", "programs"], "positions, nesting and contents of included files within the enumerated layouts, all byte contents",
     "Tests include one file; scoping across include boundaries, nested paths and repeated inclusion need particular combinations.",
     ["src/asm.rs", "src/parser.rs", "src/ast.rs"], [("include expansion", "src/asm.rs replace_includes, replace_byte_includes")], note=PIPENOTE, technique=PIPETECH)
prop("R03", "Included paths resolve relative to the including file; ids denote one file",
     "An absolute include path is used as it is; any other is looked up in the directory of the including file (the working directory for the main file) before the working directory; a file already loaded is not "
     "read again, every loaded file gets a fresh id, an id always denotes the file it was given to, and a failed read is an error.",
     ["inputs", "configurations"], "all paths, all outcomes of the file system queries, up to 3 files loaded before",
     "Tests run from one directory with one layout; a wrong base directory shows only with nested directories.",
     ["src/files.rs"], [("path resolution and loading", "src/files.rs SourceFiles::path, load, for_id")],
     note="Path::join, parent, is_absolute and reads are uninterpreted functions; the file system is not modelled further.")
prop("H01", "A #define in an included C header acts as an alias; anything else is an error",
     "#define NAME expression in a file included with .include cpp is the alias NAME equ expression with the same value, scope and duplicate rules; any other content of a header is rejected, never skipped.",
     ["inputs", "programs"], "define lines over expressions with unknown numbers, malformed lines, several headers and defines",
     "Tests include one header; leftover tokens and grouping errors need particular define lines.",
     ["src/cheader.rs", "src/asm.rs"], [("header parser", "src/cheader.rs"), ("splicing", "src/asm.rs replace_includes")], note=PIPENOTE, technique=PIPETECH)
LEXTECH = "path-sensitive abstract interpretation of the lexer (MIR) on texts with unknown characters against a reference lexer"
LEXNOTE = "Each text template fixes some characters and leaves up to three ASCII characters unknown; regular expressions are matched by their syntax trees, grapheme clusters follow CR LF and combining marks."
prop("X01", "Number literals denote their value; too large ones are rejected",
     "A decimal literal, or one prefixed with $ or 0x (hexadecimal), % or 0b (binary) or 0o (octal), in either case and with ' between digits, denotes exactly the number its digits write, and is written back in its radix; "
     "one above 2147483647 is rejected at its position, never wrapped; anything that is not a digit of the base ends it.",
     ["inputs"], "all characters at the unknown places of the number templates, every base, separators, lengths up to the 32-bit limit",
     "Tests lex a few short literals; digit ranges, separators and the overflow boundary are corner cases.",
     ["src/lexer.rs"], [("number matchers and conversions", "src/lexer.rs read_token, to_hex_num, to_bin_num, to_oct_num, to_dec_num")], note=LEXNOTE, technique=LEXTECH)
prop("X02", "String literals denote exactly their characters with escapes resolved",
     "A string literal is the characters between its quotes, where \\r \\n \\t \\b \\0 denote control characters and a backslash before any other character denotes that character (so \\\" and \\\\ work); it may span lines; "
     "an unterminated string is rejected at its opening quote.",
     ["inputs"], "all characters at the unknown places of the string templates, including escapes, quotes, comment characters and non-ASCII text",
     "Tests use plain strings; escapes at the end, doubled backslashes and comment characters inside strings are rare.",
     ["src/lexer.rs"], [("string matcher and clean_str", "src/lexer.rs read_token, clean_str")], note=LEXNOTE, technique=LEXTECH)
prop("X03", "Tokens are the longest match; names are case-insensitive; else an error",
     "Names, local names (.x), macro arguments (%x), hygienic labels (x%), registers @R0-@R3 and punctuation (:: before :) are recognised by longest match and names are folded to lower case; every character that begins no "
     "token is reported as an unexpected character at its position, and no character is dropped.",
     ["inputs"], "all characters before, between and after about 50 sample tokens, all pairs of characters",
     "Tests lex a handful of texts; what happens at the border of two tokens depends on pairs of characters.",
     ["src/lexer.rs"], [("token matchers", "src/lexer.rs read_token, lex_for_ws")], note=LEXNOTE, technique=LEXTECH)
prop("X04", "Blanks and comments only separate tokens; positions count what precedes",
     "White space, comments from ; to the end of the line and lines beginning with * contribute no token and hide nothing else (LF and CR LF end lines); each token's line and column, and the position of a rejected "
     "character, count all preceding characters and lines, including those in comments, strings and non-ASCII text.",
     ["inputs"], "all characters at the unknown places of white-space, comment and line-structure templates",
     "Tests cover one comment and one multi-line text; line endings, adjacent comments and combining characters interact.",
     ["src/lexer.rs", "src/input.rs"], [("skipping", "src/lexer.rs skip_whitespace_and_comments, skip_comment, skip_star_comment, skip_to_eol, end_of_line"), ("positions", "src/input.rs Input::update")],
     note=LEXNOTE, technique=LEXTECH)
prop("H02", "C header text is lexed with C comments and #define lines become aliases",
     "In a C header, // comments to the end of the line and /* */ comments (across lines, not nested, not inside strings) separate tokens and contribute nothing; ; and * do not start comments; all tokens keep their "
     "file positions; a #define line is passed on as NAME equ rest.",
     ["inputs"], "all characters at the unknown places of header templates",
     "Tests include one small header; comment borders interact with tokens and line ends.",
     ["src/cheader.rs", "src/lexer.rs"], [("header lexer", "src/cheader.rs lex_input, skip_line_comment, skip_multiline_comment")], note=LEXNOTE, technique=LEXTECH)
prop("R01", "Circular includes and recursive macros are reported, repeats are not",
     "A file that includes itself, directly or through other files, and a macro whose expansion calls itself, directly or through other macros, are rejected as such at the include or call that closes the circle; "
     "including a file or calling a macro again without a circle is accepted and means the same each time.",
     ["inputs", "programs"], "include graphs and macro call graphs with cycles of length 1 to 3 and diamonds, over unknown numbers",
     "No test has a circular include; termination depends on the shape of the include and call graphs.",
     ["src/asm.rs"], [("include stack", "src/asm.rs replace_includes"), ("macro stack", "src/asm.rs expand, expand_macros")], note=PIPENOTE, technique=PIPETECH)
prop("S01", "What expand prints assembles to the same image",
     "The text printed by expand is a complete program without macro calls and includes that assembles to exactly the bytes the original assembles to, and that is rejected exactly when the original is: numbers keep their "
     "value in their base, expressions their grouping, strings every character, labels their identity.",
     ["inputs", "programs"], "numbers of every base and size, all operator pairs and prefixes, all string characters, all 76 instruction forms, macros with hygienic labels, directives, includes",
     "No test reads back printed programs; wrong grouping, escapes or bases show only for particular expressions and characters.",
     ["src/ast.rs", "src/expression.rs", "src/instruction.rs", "src/asm.rs"],
     [("printers", "src/ast.rs Display for Statements, Statement, Directive, ByteValue, escape_string"), ("expressions", "src/expression.rs Display for Expr, complex"), ("instructions", "src/instruction.rs Display for Instr"), ("entry", "src/asm.rs expand_file")],
     note=PIPENOTE, technique=PIPETECH)
CLITECH = "path-sensitive abstract interpretation of run_command (MIR) with file operations as effects that may fail"
CLINOTE = "The argument parser, the assembler, the disassembler and the image code are replaced by any parsed arguments and any result; terminal messages are left out."
prop("C01", "The exit status says whether the command worked",
     "Every sub-command ends with exit status 0 exactly when everything it had to do succeeded: when the input cannot be read, assembling, disassembling or decoding an image fails, the output cannot be created or "
     "written, or the file type is unknown, the exit status is not 0.",
     ["inputs", "fault_sequences"], "every sub-command and combination of options, every operation free to fail at every point",
     "No test runs the command line; failures of the file system cannot be provoked by unit tests.",
     ["src/lib.rs"], [("sub-commands", "src/lib.rs run_command"), ("operations", "src/lib.rs assemble_cmd, disassemble_cmd, expand_cmd, generate_vmi")], note=CLINOTE, technique=CLITECH)
prop("C02", "Only OUTPUT is written, only after success, and completely",
     "No command removes a file or writes any file but its OUTPUT (vmi without OUTPUT: INPUT with .vmi in place of .vms); expand, icon and version write none. OUTPUT is created only once the operation has succeeded, so a "
     "failed assembly leaves an earlier output as it was, and when the command succeeds it holds exactly the whole result.",
     ["inputs", "fault_sequences"], "every sub-command and combination of options, every operation free to fail at every point",
     "No test looks at output files; failed and partial writes cannot be provoked by unit tests.",
     ["src/lib.rs"], [("sub-commands", "src/lib.rs run_command"), ("assemble", "src/lib.rs assemble_cmd"), ("disassemble", "src/lib.rs disassemble_cmd")], note=CLINOTE, technique=CLITECH)
prop("C03", "The disassembly file shows every statement once, in order, as listed",
     "disassemble hands the disassembler the input file's bytes, the --arrived-from option and the VMU's reset and interrupt vectors with the program entry 130h (for bios also the firmware's entry points), and writes each "
     "statement it returns as one line, in order: with --positions its address in hexadecimal or blanks, then its text, then its comment after a semicolon.",
     ["inputs", "programs"], "every file type and option, listings of up to 3 unknown statements with and without position and comment",
     "No test runs the disassemble command; the combinations of options, positions and comments are many.",
     ["src/lib.rs", "src/disasm.rs"], [("command", "src/lib.rs disassemble_cmd, run_command"), ("listing", "src/disasm.rs DStatements, DStatement")], note=CLINOTE, technique=CLITECH)
prop("K01", "A disassembly listing assembles back to the image it was made from",
     "For an image whose reachable code does not overlap itself and branches within 0000h-FFFFh, disassemble lists exactly the instructions reachable from the entry points, each at its address, and the text it writes "
     "(labels, names of registers and bits, .org, .byte, comments) is a correct program that assembles to exactly the bytes of the image, length included; where a reachable address holds no instruction it reports that address and byte.",
     ["inputs", "programs"], "350 image schemas: every instruction form with unknown operands and every kind of target, data and zero runs around the 16-byte chunk size before, between and after code, entry points in and outside the image, with and without --arrived-from",
     "No test disassembles an image; the listing of one place depends on what is reachable, on the mask of covered bytes and on the names of other places.",
     ["src/disasm.rs", "src/lib.rs", "src/ast.rs", "src/expression.rs"],
     [("listing", "src/disasm.rs disassemble, DStatements, DStatement"), ("graph", "src/disasm.rs build_instruction_graph, targets, InstructionGraph"), ("names", "src/disasm.rs build_names, compute_labels, lift_instr"),
      ("text", "src/lib.rs disassemble_cmd; src/ast.rs Display for Statement, Directive")],
     note="Images with overlapping instructions, with branch targets outside 0000h-FFFFh or longer than 64 KiB are outside the statement (their listings cannot be assembled); larger layouts than the schemas are not enumerated.",
     technique="path-sensitive abstract interpretation of the disassembler (MIR) on image schemas with unknown bytes; the abstract text is read back by an independent reference semantics")
prop("K02", "The remarks of a disassembly listing are true",
     "Every instruction of a listing, every .org and every run of .byte stands at its own address in the image; an instruction is remarked to overlap with exactly the other listed instructions that share a byte with it, and as an entry point "
     "exactly when it is one. With --arrived-from, each instruction names exactly the addresses of the instructions that control can reach it from by falling through, branching, jumping or calling, in ascending order. "
     "Bytes that hold printable text are remarked with that text (tab, newline and return as escapes, anything else unprintable as a dot).",
     ["inputs", "programs"], "250 images of known bytes: one-, two- and three-byte instructions overlapping in every way, every instruction form as the source of an arrival, several sources, loops, entry points in and outside the image, text and data, with and without --arrived-from",
     "No test disassembles an image; what overlaps or arrives is a relation between all reachable instructions.",
     ["src/disasm.rs"],
     [("remarks", "src/disasm.rs disassemble, DStatement::bytes"), ("graph", "src/disasm.rs InstructionGraph::find_overlaps, add_jump, targets")],
     note="Images of known bytes, up to some 40 bytes; where the listing writes an .org or how it words a remark is not fixed beyond 'Overlaps with:', 'Entry point' and 'Arrived from:'.",
     technique="path-sensitive abstract interpretation of the disassembler (MIR) on image schemas; the abstract statements are compared with an independent decoder and control-flow graph")
prop("V01", "VMI files describe the VMS file they were made from",
     "vmi writes one 108-byte file in the VMI layout: checksum (the resource name's first four bytes masked with SEGA), the description from the VMS header (200h further on for games), the copyright notice, the local date "
     "and time, version, resource name (the input's name without directory and .vms, 8 bytes), file name (12 bytes), game or data mode and the input's size, numbers low byte first; a file too short to have a header is reported.",
     ["inputs"], "all input bytes and lengths, all clock values, copyright notices of 0 to 60 unknown bytes, 11 shapes of file names, games and data files",
     "No test generates a VMI file; the layout depends on lengths of names and notices and on the clock.",
     ["src/lib.rs"], [("generator", "src/lib.rs generate_vmi"), ("command", "src/lib.rs run_command")], note=CLINOTE, technique=CLITECH)
DIAGTECH = "path-sensitive abstract interpretation of print_error (MIR) with terminal output as effects"
DIAGNOTE = "Colours are left out. Positions are placed in fixed source layouts; names, numbers and marked characters are unknown."
prop("C04", "Every error message shows where the error is and what it is about",
     "For each of the assembler's kinds of error the message shows, for every position the error carries and for every macro call that position was expanded from, the file (relative to the working directory), line and column, "
     "the source line and carets below the marked columns, and it shows every name, path and number the error carries (except the path of an oversized sprite).",
     ["inputs"], "all 47 kinds of errors with unknown contents, positions in two files, one expansion level",
     "No test prints an error; there are 47 kinds with up to three positions each.",
     ["src/lib.rs"], [("messages", "src/lib.rs print_error"), ("positions", "src/lib.rs highlight_line, highlight_line_indented")], note=DIAGNOTE, technique=DIAGTECH)
prop("C05", "Error messages quote the line the position is on and mark its columns",
     "Below file, line and column a message shows exactly the source line that holds the position, without its line ending, and carets below exactly the marked columns, counted in characters as the lexer counts them, with "
     "tabs kept; a span that continues on a later line is marked from its first column on. It never panics, whatever the text or position.",
     ["inputs"], "every position and spans of up to 5 columns in 25 layouts of lines with unknown characters, tabs, CR LF, combining and wide characters, with and without a final line ending",
     "No test prints an error; ends of files, line endings and columns beyond the line are corner cases.",
     ["src/lib.rs"], [("excerpts", "src/lib.rs line_for_pos, start_of_line, end_of_line"), ("markers", "src/lib.rs caret")], note=DIAGNOTE, technique=DIAGTECH)
prop("C06", "Errors keep their kind, positions and values on their way out",
     "When an error of the lexer, parser, evaluator, encoder, file or image code is passed on as an error of the assembler, it stays the same kind of error with the same positions, names and numbers, each in its place.",
     ["inputs"], "every conversion between error types, every variant, all contents",
     "Tests provoke few kinds of errors and do not compare their contents.",
     ["src/asm.rs", "src/parser.rs", "src/img.rs", "src/instruction.rs"], [("conversions", "src/asm.rs impl From for AssemblyError; src/parser.rs impl From for ParseError; src/img.rs impl From for IconError; src/instruction.rs impl From for EncodingError")],
     note="Conversions written as impl From are covered; errors rebuilt elsewhere are judged by the other properties.", technique="abstract interpretation of every From impl between error types (MIR), per variant")
prop("G01", "An included sprite becomes exactly its documented size, mask and pixel bits",
     "Including an image as a sprite puts, for every frame in order: one byte width and one byte height (unless header=\"no\"); if type=\"masked\", the mask with a 1 for every transparent pixel (alpha at most 127) and for the "
     "padding; then the image with a 1 for every dark pixel (luminance at most 127) and 0 for the padding. Rows go from top to bottom, each padded to whole bytes, the leftmost pixel in the highest bit. An image wider or higher than 255 "
     "is an error exactly when the header is wanted, and so are other values of type and header.",
     ["inputs"], "widths 1..17 (thorough: to 48), several rows and frames, patterns that tell every pixel position, every grey level, every alpha level, colour grids, unknown alpha, sizes at 255/256",
     "The tests include no images; padding, row order and the inverted padding of the mask show only for widths that do not fill bytes or for several rows and frames.",
     ["src/img.rs", "src/asm.rs", "src/parser.rs"], [("sprite bits", "src/img.rs Frame::to_1bit_asm"), ("size limits and options", "src/asm.rs replace_byte_includes, src/parser.rs parse_directive")],
     note="A pixel whose luminance lies exactly on the threshold may fall on either side. Decoding image files is the image crate's part.", technique="abstract interpretation of the assembler (MIR) on images given pixel by pixel")
prop("G02", "An included icon becomes exactly its header, palette, pixels and eyecatch",
     "Including an icon puts the VMU icon header (number of frames, animation speed as given or 10, eyecatch type, zero checksum, size and reserved bytes), a palette of 16 words, and the pixels of every frame as palette "
     "indices, high half of a byte first, so that each pixel's index selects its colour with every channel rounded to 4 bits (alpha, red, green, blue). An eyecatch follows: 16 colours with a 16-word palette, up to 256 with a "
     "256-word palette, above that as 16-bit colours. An icon that is not 32x32 or has over 16 colours, an eyecatch that is not 72x56, an image that cannot be loaded, a speed no word holds and values of the wrong kind are errors.",
     ["inputs"], "about 50 schemas of icons and eyecatches with 1..257 colours, up to three frames, every level of every channel, an unknown speed, all error kinds, two orders of the palette table",
     "The tests include no icons; the boundaries 16/17 and 256/257 colours and colours that merge when reduced need particular images.",
     ["src/img.rs", "src/asm.rs", "src/parser.rs"], [("icon layout", "src/img.rs to_icon, Image::to_icon, get_palette, scale_channels"), ("options", "src/asm.rs replace_byte_includes")],
     note="The order of the palette and its unused entries are free. A channel exactly between two levels may be rounded either way.", technique="abstract interpretation of the assembler (MIR) on images given pixel by pixel")
prop("G03", "Image paths are resolved against the file that names them, options are kept",
     "The path of an included sprite or icon and the path of its eyecatch are resolved exactly once, against the source file that contains the directive, however deeply it is included; the other options keep the values "
     "written, also when one of them has the same text as a path.",
     ["inputs", "programs"], "sprites and icons in the main file and in files included one and two levels deep, names equal to option values",
     "The tests include no images from other directories.",
     ["src/asm.rs", "src/files.rs"], [("path replacement", "src/asm.rs replace_includes"), ("resolution", "src/files.rs SourceFiles::path")],
     note="What a path resolves to in the file system is R03.", technique="abstract interpretation of the assembler (MIR) on images given pixel by pixel")
prop("G04", "Loading an image keeps every frame and pixel in place and reports every failure",
     "Loading an image file yields all frames of an animated PNG or GIF in order with their delays, or the one picture of any other file; each with all its rows from top to bottom, pixels from left to right and channels in "
     "place. If opening or decoding fails at any step, the error tells whether the file could not be opened or not be decoded, and names the file.",
     ["inputs", "fault_sequences"], "every instance of load_image, five kinds of file names, still and animated, several sizes and frame counts (thorough: to 72x56), failure of each step, all pixel values",
     "The tests load no images; exchanged coordinates pass with square pictures, and failures of later steps need broken files.",
     ["src/img.rs"], [("loading", "src/img.rs load_image, load_png, load_gif"), ("pixels", "src/img.rs to_frame, to_image")],
     note="The image crate's decoders are replaced by unknown pixels.", technique="abstract interpretation (MIR) with decoders as unknowns")
prop("T01", "Assembling or disassembling the same input again gives the same result",
     "The image, the listing and the kind and places of an error depend on the input files and options alone: not on the iteration order of hash tables, random identifiers (which only name the private labels that expand prints), "
     "the clock or the environment.",
     ["inputs", "programs", "schedules"], "about 540 program and image schemas with several labels, aliases, macros, registers and jump sources, under three iteration orders of every hash table",
     "Each process has other hash seeds; a test passes with whatever order it happens to get, and small tables often agree by chance.",
     ["src/asm.rs", "src/disasm.rs", "src/env.rs"], [("name tables", "src/asm.rs compute_names, gen_labels"), ("listing", "src/disasm.rs disassemble, compute_labels, sorted_aliases, sorted_psw_bits")],
     note="Only iteration orders of tables whose entries are known in the schema are permuted; places that iterate a table and are not reached so are reported as undecided.",
     technique="abstract interpretation (MIR) under permuted iteration orders, and taint of varying values")
