"""The property list; tools/gen.py writes properties.jsonl and MANIFEST.json from it.
fields: id, title, statement, over, quantifier text, why tests can't, files, mechanisms, technique, level note  (technique None: not applicable,
level note is the reason)"""
P = []


def p(id, title, statement, over, qtext, why, files, mech, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state))


p("P01", "A failing run says so and writes no assembly; a good run writes all of it",
  "When the input cannot be read, tokenised, parsed or type-checked, the compiler prints a diagnostic, exits with a non-zero status and neither "
  "creates nor overwrites the output file. When the compilation succeeds it exits with status zero and the output file holds every generated "
  "assembly line, in order. A source or output file that cannot be opened is reported, never ignored.",
  ["inputs", "fault_sequences"], "every input program, every stage that can fail, every open failure",
  "No test runs the driver: the suite links the stages one by one and never reaches the program's main function.",
  ["src/main.c", "src/error/error.c"], [("driver", "src/main.c main")],
  'abstract interpretation of main and the file reader against every outcome of the file system and of each stage',
  'stages are replaced by their contract: the parser, resolver and generator internals are judged by the other properties')

p("P02", "An error found by any stage is reported, and only then",
  "If any part of a source program is rejected while it is tokenised, parsed or type-checked, the whole stage fails and hands back the errors that "
  "were found: an error is never dropped, never replaced by a result and never turned into a success. A stage that found no error hands back its result.",
  ["inputs", "programs"], "every production and every construct, with any subset of its parts failing",
  "The tests feed a few dozen erroneous sources; which sub-part fails, in which combination, is unbounded.",
  ["src/parser", "src/resolver", "src/lexer"], [("error propagation", "src/parser/*.c, src/resolver/*.c *_assign sites")],
  'abstract interpretation of resolver and parser with every subset of parts failing; error-propagation obligations on every path',
  'the tokeniser part is judged with the lexer rules')

p("P03", "Memory handed over is released exactly once and never used afterwards",
  "On every path of the compiler, including the ones that report errors, an object that was released is not read, written or released again.",
  ["inputs", "programs"], "every control path through every function of the compiler",
  "The tests run without a sanitizer and mostly on accepted programs.",
  ["src"], [("ownership", "delete_* functions and their call sites")],
  'typestate/ownership analysis (live, released, handed over) on the abstract heap along every path',
  'covers parser and semantic stage including all error paths')

p("P04", "A declaration declares exactly the type and the constants that are written",
  "Every declaration gives each of its names the type that C's specifiers and declarator syntax spell, for every order of specifiers and every nesting of pointers, arrays, functions and parentheses; parameter types adjust as in C, "
  "typedef names stand for exactly their type, enumerators get the values C counts, and each declared object or typedef of a list is declared once. A declaration whose type C forbids (functions returning arrays, arrays of functions, "
  "void objects, conflicting specifiers and the like) is rejected.",
  ["programs"], "every combination of specifiers and every nesting of declarators, over the type expressions up to the enumerated depth",
  "The tests contain a few dozen declarations; the combinations of specifiers and declarators are unbounded.",
  ["src/resolver/declaration.c", "src/dtype"], [("declaration types", "src/resolver/declaration.c resolve_decl_specifiers, resolve_declarator")],
  'abstract interpretation of the declaration resolver on enumerated specifier lists and declarators, declared types compared with a reference reading of C11 6.7',
  'sub-expressions (array sizes, enumerator values) are opaque typed parts; every specifier multiset and declarator nesting up to the stated depth is analysed over all paths')

p("P05", "Every keyword, operator and punctuator is recognised as itself",
  "Each C keyword and each operator or punctuator of the supported language is turned into its own token, always by longest match, and any other word "
  "becomes an identifier with exactly that spelling. No two spellings give the same token and no token is unreachable.",
  ["inputs"], "every keyword, every punctuator prefix and every following character",
  "The tests contain some tokens in some contexts; longest-match behaviour depends on every following character.",
  ["src/lexer/lexer.c", "src/lexer/util.c", "src/ctoken/ctoken.c"], [("token tables", "src/lexer/lexer.c read_punctuator")],
  'abstract interpretation of the tokeniser over sets of characters, all paths compared with a reference tokeniser (C11 6.4)',
  'all texts of up to 2 bytes, words of up to 10 letters, every keyword perturbed at every place; longer words by representatives')

p("P06", "No part of the source text is lost and tokenising always ends",
  "Tokenising ends on every text. The tokens it hands back cover the text to its last byte: white space separates, everything else belongs to a token. A text "
  "that is not a sequence of tokens (a byte outside the language, a literal cut off by the end of the line or of the file, an invalid escape sequence, digits that are missing) "
  "is rejected with an error, never skipped, shortened or taken for the end of the file.",
  ["inputs"], "every text, every position at which it may end",
  "The tests tokenise a few dozen texts; the claim is about every byte value in every place, including the end of the text.",
  ["src/lexer"], [("token readers", "src/lexer/reader.c"), ("current byte", "src/lexer/util.c get_content_top")],
  'abstract interpretation of the tokeniser over sets of characters; end-of-text and rejection obligations on every path, loop-progress analysis',
  'same scenarios as P05 plus literals; NUL bytes end the text in the file reader')

p("P07", "Expressions group by C precedence and associativity",
  "Every expression is parsed into the tree that C's operator precedence and associativity prescribe, with the operator that was written and its "
  "operands in source order.",
  ["inputs", "programs"], "every sequence of operators and operands, of any length and nesting",
  "The tests parse some two-operator combinations; the claim is about every combination.",
  ["src/parser/expression.c"], [("expression productions", "src/parser/expression.c")],
  "abstract interpretation of every expression production over symbolic token streams, trees compared with C11 6.5's grammar",
  'every production with opaque sub-phrases; repetitions unrolled; nesting follows by composition')

p("P08", "Statements and declarations are parsed into what was written",
  "Every statement, declaration, declarator, type specifier and initializer is parsed into a tree that contains exactly the parts that were written, in source order, with the kind that was written; a missing or wrong token is an error. A typedef name is taken for a type exactly while its declaration is in force.",
  ["inputs", "programs"], "every statement and declaration form with any parts",
  "The tests parse a few examples of each form.",
  ["src/parser/statement.c", "src/parser/declaration.c"], [("productions", "src/parser")],
  "abstract interpretation of every statement and declaration production over symbolic token streams, trees compared with C11 6.7-6.9's grammar",
  'every production with opaque sub-phrases; repetitions unrolled; nesting follows by composition')

p("P09", "Operands of wrong types are rejected, right ones accepted",
  "An expression, assignment, call, return or initializer is accepted exactly when C's constraints on the types of its operands hold within the supported types; in "
  "every other case the program is rejected with a diagnostic.",
  ["programs"], "every operator applied to every combination of operand types",
  "The tests try a handful of type combinations per operator out of several hundred.",
  ["src/resolver/expression.c", "src/dtype/dtype.c"], [("operand constraints", "src/resolver/expression.c")],
  "abstract interpretation of the resolver on every operator x operand-type combination, acceptance compared with C11's constraints",
  'every operator, call, member access, cast, condition and return over a catalogue of operand types with one representative per distinguishable class; sub-expressions opaque')

p("P10", "Accepted expressions get C's result type and conversions",
  "Every accepted expression has the type that C prescribes for it, and every implicit conversion C prescribes (promotion, usual arithmetic conversion, conversion on assignment, call and "
  "return, decay of arrays and functions) is made explicit on exactly the operands it applies to.",
  ["programs"], "every operator applied to every combination of operand types",
  "The tests check result types for a handful of combinations.",
  ["src/resolver/expression.c", "src/resolver/util.c"], [("conversions", "src/resolver/util.c")],
  'abstract interpretation of the resolver, the typed tree it builds compared with the conversions and result types of C11',
  'every accepted operator x operand-type combination; sub-expressions opaque, so nesting follows by composition')

p("P11", "Jumps and labels are accepted only where C allows them",
  "A break, continue, case, default or return is accepted exactly in the contexts C allows, whatever constructs enclose or precede it; in particular what one nested statement declares or allows "
  "does not leak into the statements after it.",
  ["programs", "histories"], "every nesting and sequence of statements",
  "The tests check single statements, not what state an earlier statement leaves behind.",
  ["src/resolver/statement.c"], [("context flags", "src/resolver/statement.c")],
  'abstract interpretation of whole translation units through the resolver, acceptance of jumps and labels compared with C11 6.8 for every nesting and sequence',
  'expressions are opaque parts; nestings to depth 3 and statement sequences')

p("P12", "A name means the innermost declaration in scope",
  "Every use of an identifier or tag refers to the innermost declaration that is in scope at that point; a block's declarations end with the block; a second conflicting declaration of the same name in the same "
  "scope is rejected and the use of an undeclared identifier is rejected.",
  ["programs", "histories"], "every nesting of scopes and every sequence of declarations",
  "The tests cover a few nestings.",
  ["src/symtab", "src/tagtab", "src/resolver", "src/immcgen"], [("scope chains", "src/symtab/symtab.c, src/tagtab/tagtab.c")],
  'abstract interpretation of whole translation units through resolver and lowering, every use compared with the innermost declaration',
  "names are resolved by the code's own symbol and tag tables, analysed from source; the hash map is modelled by its contract")

p("P13", "Sizes, alignments and structure layout follow the x86-64 ABI",
  "Every type has the size and alignment the x86-64 System V ABI gives it; every structure member lies at the lowest offset after its predecessor that its alignment allows, and the structure's size is a multiple of its alignment.",
  ["programs"], "every type, every sequence of structure members",
  "The tests check a few structures.",
  ["src/dtype", "src/resolver/declaration.c"], [("layout", "src/dtype")],
  'abstract interpretation of struct declarations, typedefs and sizeof over enumerated member lists, compared with the ABI layout rules',
  'member types range over all scalar types, arrays, nested and tagged structures')

p("P14", "Statements run their parts in the order and under the conditions C says",
  "For every statement, the generated intermediate code evaluates the parts in the order C prescribes, takes each branch exactly under the condition written, and "
  "makes every break, continue, case, default and return jump reach its own target and no other. This holds whatever the parts contain and however statements are nested.",
  ["programs"], "every statement kind, with any sub-statements and controlling expressions",
  "The tests compare the generated code of a few fixed programs; the nesting and the kinds of parts are unbounded.",
  ["src/immcgen/statement.c", "src/immcgen/expression.c", "src/immcgen/util.c"],
  [("statement lowering", "src/immcgen/statement.c gen_*_stmt_immcode"), ("label allocation", "src/immcgen/immcgen.c label_id fields")],
  "abstract interpretation of the statement lowering with opaque parts, flow graph compared with C's semantics",
  "every statement kind with opaque parts: the argument is compositional, so it covers every nesting; the reference flow graphs are written from C11 6.8")

p("P15", "Expressions compute the value and side effects C says",
  "For every operator and every combination of operand shapes and types, the generated intermediate code evaluates the operands, computes exactly the operation written "
  "at the width and signedness of its type, applies the conversions in the typed tree, performs each side effect once, and leaves the result where its user looks for it. "
  "Temporaries that are still needed are never overwritten.",
  ["programs"], "every expression operator, operand shape (constant, variable, element, member, call, cast, nested) and operand type",
  "The tests compare the code of some fixed expressions out of thousands of operator, shape and type combinations.",
  ["src/immcgen/expression.c", "src/immcgen/util.c"],
  [("expression lowering", "src/immcgen/expression.c gen_*_expr_immcode"), ("operand materialisation", "src/immcgen/util.c gen_child_*_immcope")],
  "abstract interpretation of the expression lowering on opaque operand subtrees, compared with a reference lowering",
  "every operator x operand shape x type up to nesting two with opaque leaves; deeper nesting follows by composition")

p("P16", "Declarations and initializers give every object its storage and value",
  "Every object gets storage of its full size that overlaps no other live object, and its initializer puts each scalar at the offset of its member or element, with padding accounted for, for globals and locals alike; "
  "the subobjects a braced list does not reach are zero, and a list or string that does not fit its object is rejected. A function definition receives every parameter in its own storage, reserves a frame that covers all its locals and has one return point.",
  ["programs"], "every object type, every initializer shape, every parameter list",
  "The tests compare the code of a few fixed declarations.",
  ["src/immcgen/declaration.c", "src/immcgen/external.c", "src/symtab", "src/resolver/declaration.c"],
  [("initializers", "src/immcgen/declaration.c gen_*_initializer_immcode"), ("frame layout", "src/symtab symboltable_define_memory")],
  "abstract interpretation of declaration lowering, produced data interpreted as a byte layout and compared with the ABI layout",
  "a catalogue of object types (all scalars, arrays, nested structures with padding) x initializer modes; initializer expressions opaque")

p("P18", "Every value keeps its register until its last use",
  "Whatever the control flow of a function and however many values it has in use, the final machine code makes every use of a computed value see that value: no other value, branch, loop, "
  "call or division overwrites it in between. A function that needs more registers than the machine has is refused with a message; it is never compiled to code with a wrong operand.",
  ["programs", "histories"], "every control flow graph, every order of definitions and uses, every number of values live at once",
  "The allocator's tests fix a few graphs by hand; which values are live together depends on the whole function.",
  ["src/regalloc", "src/liveseq", "src/x64gen", "src/set"], [("allocator", "src/regalloc/regalloc.c regalloc_allocate_regs"), ("live sequences", "src/x64gen/util.c liveseqs_next")],
  'abstract interpretation of allocator and generator on enumerated live-range and control-flow shapes; translation validation of the resulting text over symbolic values, no solver',
  'shapes enumerated up to eight live values, three nested branches, two nested loops')

p("P19", "Every intermediate instruction becomes machine code with the same effect",
  "For every intermediate instruction, operand kind, width, signedness, constant and register assignment, the x86-64 instructions that are written out exist, can be encoded, and compute "
  "exactly the value, memory effect and branch the instruction stands for, leave every other live value alone and write no byte outside their destination.",
  ["programs", "inputs"], "every instruction, operand width and signedness, every constant, every register assignment and set of other live values",
  "The tests compare text for single register assignments; most combinations of widths, constants and live registers never occur in them.",
  ["src/x64gen", "src/x64", "src/immc"], [("instruction selection", "src/x64gen/*inst.c"), ("operand text", "src/x64/ope.c, src/x64/register.c")],
  'abstract interpretation of allocator, generator and printer; the text is given the architecture\'s meaning over symbolic register contents and compared term by term with the instruction\'s meaning, no solver',
  'constants at the limits of every width, register assignments enumerated by place and pressure')

p("P20", "Functions call and return by the System V convention",
  "Each argument of a call reaches the callee in the register or stack slot of its position, the stack is 16-byte aligned and %al is zero at every call, also when calls are nested in "
  "argument lists; values in use survive the call; parameters are stored where the function looks for them; at every return the callee-saved registers, frame pointer and stack pointer "
  "are what they were at entry and the result is in the return register.",
  ["programs"], "every number of parameters and arguments, every nesting of calls, every set of values in use, direct and indirect calls",
  "The tests compare text of a few calls; argument counts, nesting and live values combine without bound.",
  ["src/x64gen/ctrlinst.c", "src/x64gen/datainst.c", "src/x64gen/x64gen.c"], [("calls", "src/x64gen/ctrlinst.c gen_call_x64code"), ("frames", "src/x64gen/x64gen.c gen_function_x64code")],
  'abstract interpretation of allocator, generator and printer on enumerated call and parameter shapes; calling-convention typestate checked on the resulting text over symbolic values',
  'up to ten parameters, nine arguments, four nested calls, all numbers of values in use')

p("P21", "The assembly text says what was generated: objects, strings, names, operands",
  "Every global object and string literal is assembled to exactly the bytes it was given, in a data section, under its own name and with the binding it was given; functions go to the text section. "
  "Numbers keep their value at the limits of every width, every byte of a string keeps its value next to any other byte, names of any length are kept, and every register, operand form and instruction "
  "is written with the name the architecture gives it for its width.",
  ["inputs", "programs"], "every byte value, number, name length, register, width, operand form and order of definitions",
  "The tests compare a few printed lines with fixed text; they never read escapes and numbers back the way an assembler does.",
  ["src/x64", "src/x64gen", "src/literal"], [("printer", "src/x64/*_tostring"), ("string display", "src/literal/sliteral.c"), ("data", "src/x64gen")],
  'abstract interpretation of allocator, generator and printer on data sequences; the text is read back by the rules of the assembler and compared bytewise',
  'strings up to 241 bytes and names up to 400 characters are analysed one length at a time')

p("P22", "Text the compiler builds always fits the storage it is built in",
  "Whenever the compiler builds a text (an assembly line, an intermediate code line, a label, a displayed literal, a copied name or an error message), the storage holds the text and its terminator, "
  "whatever the length of the names, strings and numbers in it. Copies and fills of memory stay inside both blocks.",
  ["inputs"], "every length of every name, string and message; every number",
  "Short names fit any buffer; only lengths nobody tests overflow.",
  ["src/x64", "src/immc", "src/literal", "src/error", "src/common"], [("printers", "src/x64/*.c, src/immc/*.c"), ("messages", "src/error/error.c new_error")],
  'abstract interpretation of every text building function with unknown lengths; linear comparison of content length and allocation size at every write',
  'the loops that display string bytes are analysed for runs of each byte value of several lengths; lengths kept in an int are those of texts below 2 GiB')

p("P23", "A copy is complete and separate, a release returns everything once",
  "Copying a value of the compiler (a tree, a type, a token, a literal, a symbol or scope, an instruction, a live range) gives a value with the same content in every part that shares no storage with the original, "
  "so either can be released first; releasing a value returns every block it owns exactly once and touches nothing it does not own.",
  ["inputs", "histories"], "every shape of every data structure: optional parts present or absent, every nesting of types, every order of releases",
  "A forgotten or shared field shows only when that optional part is present and the original is released or changed first.",
  ["src/ast", "src/srt", "src/dtype", "src/literal", "src/ctoken", "src/symtab", "src/tagtab", "src/immc", "src/x64", "src/liveseq"],
  [("copies", "src/*/*_copy"), ("releases", "src/*/delete_*")],
  'abstract interpretation of every copy and release function on all shapes of its data; heap graphs compared field by field, ownership typestate of every block',
  'nesting of types bounded to 2 (quick) or 3 (thorough) levels, trees to 3 levels')

p("P24", "A literal has the value and the type that are written",
  "Every integer constant, in each base and with each suffix, gets its mathematical value and the first type of C's list that holds it; every character constant and every string literal "
  "consists of exactly the characters and escape sequences that are written, with the terminating zero for strings and no byte added, lost or cut.",
  ["inputs"], "every sequence of digits, suffixes, characters and escape sequences, including the limits of every type",
  "The tests contain a few dozen literals; values, lengths and limits are unbounded.",
  ["src/lexer", "src/literal"], [("literal readers", "src/lexer/reader.c read_integer_constant, read_character_constant, read_string_literal")],
  'abstract interpretation of the literal readers over sets of characters; value terms and types compared with C11 6.4.4-6.4.5',
  'literal lengths up to the scenario bounds; type limits in all bases and suffixes')

p("P25", "Containers are finite maps, sets and sequences that own their contents",
  "After any history of operations a map holds for every key exactly the value that was added last and not removed, a set exactly the items added and not removed, a vector exactly its sequence; lookups, sizes, iterations, "
  "set algebra and copies agree with that; every key, value and item handed over is released once, not before it is removed or replaced and not after the container is released.",
  ["histories"], "every history of additions, replacements, removals, copies and releases, with keys that collide in every table size",
  "The tests run short fixed histories; removed entries, wrapped probes and table growth interact only in longer ones.",
  ["src/map", "src/set", "src/vector", "src/common"], [("hash table", "src/map/map.c map_add, map_remove, update_capacity"), ("sets", "src/set/set.c"), ("vector", "src/vector/vector.c")],
  "abstract interpretation of the containers' source; least fixpoint of all operations over heap graphs up to renaming, compared with finite maps, sets and sequences",
  'universes of up to five (quick) or seven (thorough) keys and long growth histories; integer keys below 2^30 in magnitude')
