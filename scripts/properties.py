TESTS = "The suite holds 79 tests, most of them single fixtures; "
PRED = "property-based testing: generated programs with predicted answers (model oracle), tape shrinking"
p("C01", "Parsing any bytes terminates with a result and never panics",
  "For every sequence of bytes, valid Ruby or not, in any encoding, truncated anywhere, and for every combination of parser options, parsing (or tokenizing with a bare Lexer, and rendering the diagnostics) returns a result within bounded time and memory. It never panics, aborts, overflows an index or loops.",
  ["inputs", "configurations"], "all byte sequences (nesting depth bounded so that the stack suffices) and all parser options",
  TESTS + "none feeds malformed or truncated input systematically.",
  ["src/parser/mod.rs", G, LX, "src/lexer/parse_heredoc.rs", "src/lexer/parse_string.rs", "src/source/buffer.rs", "src/source/input.rs", B],
  [("lexer main loop and end-of-input handling", LX), ("buffer cursor", "src/source/buffer.rs"), ("error recovery of the grammar", G)],
  "fuzzing: token soup, mutated and truncated generated programs, raw bytes; oracle: returns, no panic, CPU and memory bounds",
  "Overflow checks are on in the build under test. Bounds: 30 s CPU and 1 GiB per parse of inputs of a few kB.")
p("C02", "Every well-formed program parses without errors to the syntax tree Ruby gives it",
  "For every well-formed Ruby 3.1 program the parser reports no error and returns exactly the syntax tree the language assigns to it: node kinds, nesting, order of children, names, values and operators, with nothing dropped, duplicated or invented. An empty program gives no tree.",
  ["programs"], "all well-formed programs, composed from every construct of the grammar to any depth",
  TESTS + "they check a few dozen fixed programs, not the combinations of constructs.",
  [G, B, LX, "src/lexer/parse_string.rs", "src/lexer/parse_heredoc.rs", "src/lexer/parse_ident.rs", "src/lexer/parse_percent.rs", "src/stack_state.rs", "src/lex_state.rs"],
  [("grammar and its actions", G), ("AST builder", B), ("lexer states", "src/lex_state.rs")],
  PRED, "The oracle is the generator's own prediction of the tree, made without running the parser.")
p("C03", "Every node's locations delimit exactly its source text",
  "In the tree of every well-formed program each location a node carries (whole expression, keywords, operators, names, delimiters, terminators) is exactly the byte range of that piece of the source, also with multi-byte characters, CRLF line ends, comments and here-documents around it. A location is present exactly when the piece is present in the source.",
  ["programs"], "all well-formed programs and all location fields of all node kinds",
  TESTS + "locations of most node kinds and of unusual layouts are never compared.",
  [B, G, "src/loc_ext.rs", LX, "src/lexer/parse_heredoc.rs", "src/source/buffer.rs"],
  [("location arithmetic of the builder", B), ("token start and end", "src/source/buffer.rs")],
  PRED, "Compared only where the structure is as predicted; structural differences are C02's.")
p("C04", "Locations are sound in the result of any input",
  "For every input, well-formed or not, every location in the result (tree, tokens, comments, magic comments, diagnostics) lies within the decoded input and does not end before it begins. Children lie inside their parents (here-document parts inside the here-document's body) in source order, and what a location claims is there in the text: keywords, operators, brackets and names read from the source at their locations are the ones the node or token has. In a result without errors no location cuts a character.",
  ["inputs"], "all byte sequences",
  TESTS + "locations in results of malformed input are never checked.",
  [B, LX, G, "src/lexer/parse_string.rs", "src/lexer/parse_heredoc.rs", "src/source/buffer.rs", "src/loc_ext.rs"],
  [("token locations", LX), ("location arithmetic of the builder", B), ("locations of diagnostics", "src/lexer/parse_string.rs")],
  "fuzzing: valid, damaged, ill-formed and random inputs; invariants over every location of the result; tape shrinking",
  "Invariants only: exact locations are C03's and C05's.", ["ParserResult"])
p("C05", "The recorded token stream is exactly that of the source",
  "For every well-formed program the recorded tokens are, in order, exactly the tokens of the source, each with its kind, its value and the byte range it was read from: context-dependent characters get the kind their position calls for, keywords are told from identifiers, insignificant newlines and comments yield no token. The stream ends with one end-of-input token.",
  ["programs"], "all well-formed programs",
  TESTS + "the lexer is tested on isolated snippets only, hardly with the state the parser feeds back.",
  [LX, "src/lexer/parse_ident.rs", "src/lexer/parse_string.rs", "src/lexer/parse_percent.rs", "src/lexer/parse_heredoc.rs", "src/lexer/parse_numeric.rs", "src/lexer/parse_qmark.rs", "src/lexer/parse_gvar.rs", "src/lex_state.rs", "src/reserved_words/mod.rs", "src/token.rs"],
  [("lexer", LX), ("lexer states set by the grammar", G), ("reserved word table", "src/reserved_words/mod.rs")],
  PRED, "Kinds, values and locations of all tokens are predicted by the generator.", ["ParserResult::tokens"])
p("C06", "Operators bind by Ruby's precedence and associativity",
  "In every expression, operators (unary, binary, ternary, ranges, assignment and operator assignment, defined?, not, and/or, rescue and the statement modifiers) group by Ruby's precedence and associativity, whatever the operands, white space and line breaks around them. Parenthesising a sub-expression the way the table says changes nothing but the parentheses.",
  ["programs"], "all combinations and nestings of operators and operands",
  TESTS + "pairs and triples of operators are far more than they contain.",
  [G, B], [("precedence declarations and arg/expr/stmt rules", G), ("binary, unary, assignment builders", B)],
  PRED, "The generator places operators by level and associativity and predicts the nesting.")
p("C07", "String-like literals have the value their source denotes",
  "Every string, symbol, command string, regular expression, character, word or symbol array literal, with any delimiters, nesting, escapes, interpolation, continuation, adjacency or encoding of its characters, yields exactly the parts and byte values Ruby defines, and exact locations. Malformed escapes, symbols, options and delimiters are reported.",
  ["programs", "inputs"], "all literals built from all escapes, delimiters, interpolations and characters",
  TESTS + "escapes and delimiters appear in a handful of fixtures.",
  ["src/lexer/parse_string.rs", "src/lexer/parse_percent.rs", "src/lexer/parse_qmark.rs", "src/lexer/tokadd.rs", "src/str_term.rs", "src/token_buf.rs", B],
  [("string lexing and escapes", "src/lexer/parse_string.rs"), ("% literals", "src/lexer/parse_percent.rs"), ("composition of parts", B)],
  PRED, "Values are computed by the generator from the escapes it writes.")
p("C08", "Here-documents denote exactly their body and leave the rest of the line intact",
  "Every here-document (plain, dash, squiggly; raw, interpolated, command; several on a line; nested; as receiver, argument or key) yields the text between its opening line and its terminator with Ruby's rules for escapes, interpolation, line continuation and removal of indentation, and exact locations of parts, body and terminator. The code after its opening on the same line and after its terminator parses as if the body were not there.",
  ["programs"], "all here-documents in all positions with all bodies",
  TESTS + "here-documents appear in a few fixtures, hardly with tabs, interpolation, several on one line or CRLF.",
  ["src/lexer/parse_heredoc.rs", "src/lexer/parse_string.rs", "src/str_term.rs", "src/source/buffer.rs", B],
  [("here-document lexing", "src/lexer/parse_heredoc.rs"), ("dedent", B)],
  PRED, "Bodies, dedent and locations are predicted by the generator.")
p("C09", "Numeric literals are recognised exactly",
  "Every integer, float, rational and imaginary literal in any base, with underscores, exponents, suffixes and signs, gives one node of the right kind holding the literal's text and exact location, wherever it stands; malformed literals (missing digits, digits outside the base, misplaced underscores) are reported as errors.",
  ["inputs", "programs"], "all numeric literals and all malformed neighbours of them in all positions",
  TESTS + "literals are tested one by one.",
  ["src/lexer/parse_numeric.rs", B, G], [("number lexing", "src/lexer/parse_numeric.rs"), ("numeric builder with signs", B)],
  PRED, "An independent recogniser of Ruby's number syntax decides which generated literals are valid.")
p("C10", "Names resolve to local variables exactly where Ruby's scoping says so",
  "A bare name is a local variable exactly if an assignment, parameter, pattern, for loop, rescue variable or named capture that textually precedes it declares it in a visible scope, and a method call otherwise: blocks and lambdas see and extend their surroundings, methods, classes and modules start afresh, block-local names stay local, and nothing leaks out of a closed scope.",
  ["programs", "histories"], "all sequences of declarations and uses across all nestings of scopes",
  TESTS + "scoping is touched by single fixtures.",
  ["src/static_environment.rs", G, B, "src/variables_stack.rs", "src/max_numparam_stack.rs", "src/current_arg_stack.rs"],
  [("scope stack", "src/static_environment.rs"), ("declarations in grammar actions", G), ("accessible/assignable", B)],
  "model-based property testing: the generator keeps its own scope stack and predicts each name's resolution",
  "The model is the generator's scope stack.")
p("C11", "Comments and magic comments are reported exactly",
  "For every well-formed program the result lists, in order, each comment once with its kind (inline or embedded document) and its exact range through the end of its line, wherever it stands; text that merely looks like a comment (in literals, here-documents, behind __END__) is not listed. Magic comments (encoding, frozen_string_literal, warn_indent, shareable_constant_value), in the plain and the -*- form, with any case, dashes or underscores, white space and quoting Ruby allows, are listed with their kind and the exact ranges of key and value; comments that only resemble them are not.",
  ["programs"], "all well-formed programs with comments of all kinds at all places",
  TESTS + "a handful of fixed comments.",
  [LX, "src/lexer/parse_magic_comment.rs", "src/source/comment.rs", "src/source/magic_comment.rs", "src/source/buffer.rs"],
  [("magic comment scanner", "src/lexer/parse_magic_comment.rs"), ("comment collection", LX)],
  PRED, "", ["ParserResult::comments, ParserResult::magic_comments"])
p("C12", "Encodings are honoured: decoders are used exactly when and as documented",
  "A program that names an encoding other than UTF-8, ASCII-8BIT or BINARY (in any case) in a magic comment at its top is handed once, whole and unchanged, with the name as written, to the decoder in the options, and the result (tree, tokens, comments, locations, input) is that of the decoded text. Without a decoder, or if it fails, the result has exactly one error, which carries the reason and points at the name, and nothing is parsed. Built-in encodings and encoding comments elsewhere never call the decoder and change nothing.",
  ["programs", "configurations"], "all programs that name an encoding, all decoders and encodings",
  TESTS + "one decoder with one fixed text.",
  ["src/lexer/parse_magic_comment.rs", "src/source/decoder.rs", "src/source/input.rs", "src/source/buffer.rs", "src/source/decoded_input.rs", "src/parser_options.rs"],
  [("encoding comment", "src/lexer/parse_magic_comment.rs"), ("decoding", "src/source/decoder.rs"), ("replacing the input", "src/source/buffer.rs")],
  "property-based testing: generated programs encoded in several ways, recording decoders, predicted results; tape shrinking", "Decoders that change the text before the end of the encoding's name are not covered.", ["Decoder calls", "ParserResult"])
p("C13", "Every ill-formed program is reported, with the right error at the right place",
  "A program that violates Ruby's rules never passes as valid: whatever surrounds it, an ill-formed construct (misplaced token, unclosed or wrongly closed bracket, block, string or here-document, invalid assignment target, void value, duplicate parameter or pattern variable, misused numbered parameter, malformed literal, name or escape, definition or return where it is not allowed and so on) yields an error diagnostic. The first error names that fault and points at the source text at fault; the text before it, being valid, is never blamed.",
  ["programs", "inputs"], "all ill-formed constructs at all positions of all programs",
  TESTS + "error cases are single fixtures without surroundings.",
  [G, B, LX, "src/lexer/parse_string.rs", "src/lexer/parse_heredoc.rs", "src/lexer/parse_numeric.rs", "src/lexer/parse_gvar.rs", "src/lexer/parse_atmark.rs", "src/error/diagnostic.rs", "src/variables_stack.rs", "src/max_numparam_stack.rs", "src/current_arg_stack.rs", "src/context.rs"],
  [("checks of the builder", B), ("yyerror and error tokens", G), ("lexer errors", LX)],
  "property-based testing: one ill-formed construct injected into (or the end cut off, or a wrong closing token inserted into) a generated program, with the predicted first error and its location; tape shrinking",
  "Constructs and their errors are listed in the generator; the first error diagnostic is compared.", ["ParserResult::diagnostics"])
p("C14", "Layout that means nothing changes nothing",
  "Empty lines, comment lines, embedded documents or a byte order mark in front of any input move every location of its result by their length and change nothing else. Behind a well-formed program, newlines, semicolons, comments, white space, and anything behind __END__ or a NUL, ^D or ^Z at the start of a token, change neither the tree nor its locations. Replacing white space between tokens by other white space (blanks, tabs, form feeds, escaped newlines, empty lines and indentation where newlines stand) keeps tree and tokens, with locations moved accordingly.",
  ["inputs", "programs"], "all inputs (text in front), all well-formed programs and all rewritings of their white space",
  TESTS + "no test compares two layouts.",
  [LX, "src/source/buffer.rs", "src/lexer/parse_heredoc.rs", "src/lex_state.rs", G],
  [("white space, newlines, comments, end of input", LX), ("lines and cursor", "src/source/buffer.rs")],
  "metamorphic testing: prefixing, suffixing and reflowing generated inputs and comparing results location by location; tape shrinking", "Texts whose first lines are special there (encoding comment, shebang, byte order mark) are left out of the first relation.")
p("C15", "Results depend on the input and the options that matter alone",
  "Parsing is a function of the input: parsing again, with other parsers alive, after any other parses, or on several threads at once gives the same result. Switching record_tokens off empties the token list and changes nothing else; the buffer name shows up as the input's name and nowhere else in the result; a decoder that is not needed changes nothing. After a well-formed program the parser's internal state is final (do_parse_with_state_validation agrees with do_parse).",
  ["inputs", "configurations", "histories", "schedules"], "all inputs, all option values, all sequences and interleavings of parses",
  TESTS + "each test parses once with one set of options.",
  [G, LX, "src/parser_options.rs", "src/parser_result.rs", "src/static_environment.rs", "src/context.rs", "src/error/diagnostic.rs", "src/token.rs"],
  [("parser construction and do_parse", G), ("shared state behind Rc", "src/context.rs")],
  "differential testing: the same generated input under varied options, histories and threads; tape shrinking", "Thread schedules are those the operating system gives.")
p("C16", "Lines, columns, source texts and rendered diagnostics match the input",
  "For every text and every byte position, line and column are those counted from the text (bytes, zero-based; the end counts, positions behind it give none); a location expands to exactly its first line without the line break; its source is exactly the text in its range. Every diagnostic renders as name:line:column: level: message, the source line, and a marker under the range, with the input's name and one-based line.",
  ["inputs"], "all texts, all positions and ranges, all diagnostics of all inputs",
  TESTS + "one rendered diagnostic and a few positions.",
  ["src/source/decoded_input.rs", "src/source/source_line.rs", "src/loc_ext.rs", "src/error/diagnostic.rs", "src/error/level.rs"],
  [("line table", "src/source/decoded_input.rs"), ("location helpers", "src/loc_ext.rs"), ("rendering", "src/error/diagnostic.rs")],
  "model-based property testing: an independent computation of lines, columns, texts and renderings for generated texts and for all diagnostics of generated inputs; tape shrinking", "", ["DecodedInput, LocExt, Diagnostic::render"])
p("C17", "Local variable environments are stacks of scopes, also across parses",
  "A StaticEnvironment answers is_declared as a stack of scopes does under every sequence of declare, extend_static, extend_dynamic and unextend, and its copies share it. Variables declared in a parser's environment before parsing are local variables in the program, and afterwards the environment holds exactly the variables of the program's top level, so that parsing a program statement by statement with the variables carried over gives the statements of the whole.",
  ["histories", "programs"], "all sequences of operations on environments, all sets of declared names, all programs and ways to cut them between statements",
  TESTS + "four short sequences.",
  ["src/static_environment.rs", G, B], [("scope stack", "src/static_environment.rs"), ("declarations", G)],
  "model-based stateful property testing of operation sequences; generated programs with declared variables, whole and in pieces, against the generator's scope model; tape shrinking", "", ["StaticEnvironment", "Parser::static_env"])
p("C18", "Parameter lists of methods, blocks and lambdas parse exactly",
  "Every parameter list (required, destructuring, optional, rest, post, keyword, keyword rest, no-keyword, block, argument forwarding, block-local variables, numbered parameters), in every legal combination and layout, yields exactly its parameters in order with names, defaults and locations, and declares exactly those names in the body. A name used twice, a reserved or otherwise illegal parameter, and a misused numbered parameter are reported.",
  ["programs"], "all legal combinations of parameters for def, endless def, lambda and blocks in all layouts",
  TESTS + "fixed combinations only.",
  [G, B, "src/max_numparam_stack.rs", "src/variables_stack.rs"], [("f_arglist, block_param, lambda rules", G), ("argument builders", B)],
  PRED, "")
p("C19", "Pattern matching parses exactly",
  "Every pattern of case/in, => and in (values, ranges, pins, alternatives, bindings, constants with patterns, array, find and hash patterns with rests, guards, nested to any depth) yields exactly the pattern tree with locations, declares exactly its variables, and leaves the statements around it intact. Repeated names and keys and illegal names in patterns are reported.",
  ["programs"], "all nestings of patterns in all positions",
  TESTS + "a few fixed patterns.",
  [G, B, "src/variables_stack.rs"], [("p_* rules", G), ("pattern builders", B)], PRED, "")
p("C20", "A program means the same inside other constructs as on its own",
  "A well-formed program put between the words of a construct that takes statements (begin, parentheses, conditionals, loops, case branches, rescue and ensure clauses, blocks, lambdas, interpolations, END, bodies inside arguments) parses to exactly the tree it has alone, moved to its place. An ill-formed one gives the same first error there as alone.",
  ["programs"], "all programs in all constructs that take statements",
  TESTS + "no test compares a program with its surrounded version.",
  [G, LX, "src/stack_state.rs", "src/context.rs", B, "src/lexer/parse_heredoc.rs", "src/lexer/parse_string.rs"],
  [("saved and restored parser state", G), ("cond and cmdarg stacks", "src/stack_state.rs"), ("context flags", "src/context.rs")],
  "metamorphic testing: generated programs alone and surrounded, trees and errors compared; tape shrinking", "Surroundings are those listed in the harness.")
p("C21", "With onig, matches declare variables and only invalid regexps are refused",
  "When the parser is built with the feature `onig`, a static regular expression on the left of =~ declares a local variable for each of its named groups, from there on and in that scope only, and no other use of a regular expression declares any. Every ill-formed static regular expression is reported as an error at its own location, no well-formed or interpolated one is, and nothing else about a program's tree changes.",
  ["programs", "configurations"], "all programs with regular expressions, in the configuration with the feature onig",
  TESTS + "the suite is built without the feature, so none of its few fixtures for it runs.",
  [B, G, "src/static_environment.rs"], [("static regexps and their captures", B), ("declared variables", "src/static_environment.rs")],
  "property-based testing: generated patterns and programs with predicted variables, errors and trees; tape shrinking",
  "Patterns are limited to what Oniguruma and Ruby agree on.", ["Cargo feature onig"])
p("C22", "Warnings are given exactly where Ruby's rules call for them",
  "For every well-formed program the warnings among the diagnostics are exactly those the program calls for, each at the piece of source it is about: ambiguous prefix or binary operators, ambiguous first arguments, regexps and ternaries, `...` or `if` at the end of a line, parentheses apart from the name of a method being defined, END in a method, comparisons of comparisons, duplicate literal keys of a hash, too big references to groups, carriage returns inside a line. A warning never makes a program ill-formed or changes its tree.",
  ["programs"], "all well-formed programs",
  TESTS + "each warning is tested on one or two snippets, its absence hardly at all.",
  [LX, "src/lexer/parse_percent.rs", "src/lexer/parse_qmark.rs", B, G, "src/source/buffer.rs"],
  [("lexer warnings", LX), ("duplicate keys, numbered references", B), ("comparison, END and end-of-line warnings", G)],
  "property-based testing: generated programs with predicted warnings (model oracle), tape shrinking", "", ["ParserResult::diagnostics"])
p("C23", "Arguments and blocks attach to the call Ruby gives them to",
  "Every call (with or without receiver, parentheses, arguments, splats, keywords, block pass, block; operators, indexing, super, yield, safe navigation, leading-dot chains) has exactly its own receiver, selector, arguments and locations; braces bind to the nearest call, do blocks to the outermost command call, and `do` of a loop to the loop. A block beside a block argument, and anonymous arguments that are not there, are reported.",
  ["programs"], "all nestings of calls, arguments and blocks",
  TESTS + "ambiguities between command calls, blocks, hashes and parentheses need combinations.",
  [G, B, LX, "src/stack_state.rs"], [("command/primary/block rules", G), ("cmdarg and cond stacks", "src/stack_state.rs"), ("call builders", B)], PRED, "")
