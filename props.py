"""The properties: what properties.jsonl and MANIFEST.json say, and what the checks report as bounds."""
M = "src/matchers/"
P = {}


def prop(id, title, statement, over, text, why, files, mech, bounds, outside, observe=("parsed token tree", "match / no match / fatal error"), **kw):
    P[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, bounds=bounds, outside=outside, observe=list(observe), **kw)


TREE = "The existing tests run a handful of literal texts through a handful of matchers; "

prop("C02", "Literal matching is exact",
     "A literal matcher succeeds exactly when its (non-empty) text stands at the current position inside the window being parsed, and then yields one token that spans exactly that text; otherwise it fails without consuming anything. This also holds when the literal is read from a variable (a stored string, or a part of an earlier token) at the moment the matcher runs.",
     ["inputs", "programs"], "every literal, text, window and position; literals fixed or taken from variables; the literal alone or inside a program, switch or loop",
     TREE + "the literal, the text around the window and multi-byte characters vary in none of them.",
     [M + "equals.rs", "src/parser_context.rs", M + "fetch.rs"],
     [("prefix test on the window", "src/parser_context.rs matches_str"), ("literal matcher", M + "equals.rs EqualsPattern::_exec"), ("variable lookup", M + "fetch.rs")],
     "symbolic literal of up to 2 characters (up to 3 bytes each) against a symbolic text of up to 3 such characters and every window of it; literals of up to 2 ASCII characters inside 5 contexts on 3 ASCII characters; literals read from 5 variable expressions after tokens of 1-3 characters on 5 ASCII characters (thorough: one more character each); 12-character literals, also wide ones, on texts of up to 14 characters any one of which is any other; at size, with one character any: literals of 64 to 300 and around 65536 characters, four of which are any",
     "longer literals and texts; 4-byte characters")

prop("C03", "Regular expressions match at the current position only",
     "A regular-expression matcher succeeds exactly when the expression's leftmost match in the window starts at the current position; the token spans exactly the matched text, an empty match succeeds without a token, and anything else is a plain failure. Text outside the window (before or after it) never influences the outcome, also not through anchors or word boundaries.",
     ["inputs", "configurations"], "every text and window, for a list of expressions covering repetition, alternation order, empty matches, anchors, word boundaries, case folding, Unicode classes and dot",
     TREE + "no test moves the window or puts anchors next to it.",
     [M + "matches.rs", "src/parser_context.rs"],
     [("search on the window slice, start compared", "src/parser_context.rs matches_regexp"), ("empty match skipped", M + "matches.rs MatchesPattern::_exec")],
     "13 expressions x symbolic text of up to 3 ASCII characters; the same x every window of 3 symbolic characters of up to 2 bytes (word boundary: 2 ASCII characters); inside 4 contexts (thorough: one more character each). The regex crate itself is executed symbolically too; 4 larger matchers on 14-character texts any one of whose characters is any other; at size, with one character any: runs of 64 to 300 and around 65536 characters",
     "other expressions; longer texts")

prop("C04", "Delimited sequences end at the first unescaped end delimiter",
     "A sequence matcher succeeds exactly when the window starts with the start delimiter and contains an end delimiter that is not escaped; the first such delimiter ends the match. The token's matched range includes both delimiters, its captured range lies strictly between them, and its value is the text in between with every escape replaced by the character it protects (whole characters, also multi-byte ones); an unterminated sequence is a plain failure.",
     ["inputs", "configurations"], "every text and window; fixed, symbolic and variable start, end and escape strings, including multi-character and multi-byte ones and an empty escape",
     TREE + "escapes next to delimiters, doubled-delimiter escapes, truncated escapes and multi-byte text are combinations tests do not reach.",
     [M + "sequence.rs"], [("scan with escapes", M + "sequence.rs SequencePattern::_exec")],
     "7 delimiter triples on 5 symbolic characters of up to 2 bytes (at most 7 bytes); symbolic delimiters (start 1, end 1-2, escape 0-1 characters) on 4 ASCII characters; inside 5 contexts and windows of 4 characters; delimiters read from variables on 5 ASCII characters (thorough: one more); 4 delimiter triples on texts of up to 20 characters any one of which is any other; at size, with one character any: sequences of 60 to 256 and of 65535 characters full of escapes",
     "longer delimiters; empty delimiters (the matcher needs non-empty start and end)")

prop("C05", "A program matches all of its parts in order",
     "A program succeeds exactly when each of its parts, in order, succeeds right where the previous one ended, and it yields one token whose children are the parts' tokens in order; if any part fails, the whole program fails. Its captured range spans its children's captured ranges and its matched range everything its parts consumed, including parts that leave no token; a program without any child token fails.",
     ["inputs", "programs"], "every text, for every program over the given parts (literals, expressions, sequences, optional, negated, discarded, flattened, range-expanding, pinned, error and assertion parts, nested programs)",
     TREE + "the combination of parts (which one is skipped, discarded, flattened, zero-width) is what decides the result.",
     [M + "program.rs"], [("sequential execution, range and child bookkeeping", M + "program.rs ProgramPattern::_exec, add_token_to_children")],
     "all programs of 1-2 parts out of 18 and of 3 parts (6 x 18 x 6; thorough 18^3), two-level programs over 6 parts, programs of 4-5 parts out of 3; each on every text of 4-5 ASCII characters; programs whose parts leave no token (3 x 6^2-6^3 shapes), programs of 6-8 parts on 8-11 characters any one of which is any other; at size, with one character any: programs of 17 to 257 parts, programs nested 15 to 130 deep",
     "longer programs and texts; a part that yields an empty token although it should consume (the implementation rejects it by panicking)")

prop("C06", "A switch takes the first alternative that matches",
     "A switch yields exactly the result of its first alternative, in order, that produces a token, consumes text or breaks/continues a loop; alternatives that fail or consume nothing are passed over, later alternatives are never consulted, and a switch none of whose alternatives applies fails. A fatal error in an alternative that is reached ends the parse.",
     ["inputs", "programs"], "every text, for every switch over the given alternatives, alone, inside programs and nested",
     TREE + "which alternative wins depends on the interplay of all alternatives and the text.",
     [M + "program.rs"], [("stop at the first match", M + "program.rs ProgramPattern::_exec (MatchAction::Stop)")],
     "all switches of 1-2 alternatives out of 18 in 3 contexts, of 3 (6 x 18 x 6; thorough 18^3) before another part, nested switches and programs over 6, all pairs of 32 composite alternatives alone and in a program; on every text of 3-4 ASCII characters; 8 alternatives in 8 rotations; at size, with one character any: switches of 17 to 270 alternatives",
     "more alternatives; longer texts")

prop("C07", "Loops repeat greedily within their bounds and always end",
     "A loop repeats its body from where the previous repetition ended, as often as the body matches, but never more than its maximum; it succeeds exactly when at least the minimum number of repetitions matched (zero repetitions with minimum zero succeed without a token) and its token's children are the body's tokens in order (those of a last, incomplete repetition, up to the part that failed, included). A body that matches without moving forward ends the loop, so every loop terminates.",
     ["inputs", "programs", "configurations"], "every text, body, nesting and repetition range (open, closed, empty, exact)",
     TREE + "bounds, empty iterations and nested loops interact; non-termination cannot be excluded by running examples.",
     [M + "program.rs"], [("iteration count, progress test, minimum", M + "program.rs ProgramPattern::_exec, finalize_loop")],
     "9 ranges x 18 one-part bodies in 3 contexts, x 6x18 two-part bodies named and unnamed in 2 contexts, 81 range pairs x nested loops, and loops over any two of 32 optional bodies; texts of 2-5 ASCII characters; 6 bounds of up to 12 repetitions x 4 bodies on up to 13 characters any one of which is any other; at size, with one character any: 9 bounds around 256 on 255 to 257 repetitions, bounds around 65536 on 65535 and 65537 repetitions",
     "larger minimum or maximum than 3; longer texts; a failing body after a partial repetition keeps the tokens of that repetition's matched parts, as the implementation defines it")

prop("C08", "Break and continue reach the loop they name",
     "A break ends the innermost enclosing loop, or the enclosing loop it names, and what had matched until then is kept as that loop's result; a continue starts the next repetition of that loop instead. Intermediate programs, switches, flattening, discarding, mapping and optional matchers pass both on (keeping what they had matched), and a break or continue nobody stops makes the tokens matched so far the result of the parse, or fails it if there are none.",
     ["inputs", "programs"], "every text, for breaks and continues (unnamed, naming the inner, the outer or no loop) at every place of nested loops, programs and wrappers",
     TREE + "tests break out of one loop at one place.",
     [M + "break.rs", M + "program.rs", M + "discard.rs", M + "proxy_children.rs", "src/parser_context.rs"],
     [("propagation with partial results", M + "program.rs ProgramPattern::_exec"), ("unstopped break", "src/parser_context.rs tokenize")],
     "8 controls x 9 wrappers x 3 bodies in 3 contexts; two-level loops with 8 controls at 2 places x 4 wrappers of the inner loop in 3 contexts; 9 ranges x 8 controls; unstopped controls through 81 wrapper pairs; texts of 3-4 ASCII characters; three nested loops with 8 controls on 11 characters any one of which is any other; at size, with one character any: control out of 5, 9 and 17 nested loops",
     "more than two nested loops; longer texts. The crate has no continue matcher of its own: the harness supplies one, as a user can")

prop("C09", "Optional never fails and negation never consumes",
     "An optional matcher yields what the inner matcher yields, and succeeds without consuming anything where the inner matcher fails. A negated matcher succeeds, without consuming anything or leaving a token, exactly where the inner matcher fails, and fails where the inner matcher matches or consumes; fatal errors and loop control pass through both.",
     ["inputs", "programs"], "every text and inner matcher, in every surrounding",
     TREE + "inner matchers that skip, break, err or nest are not combined with them.",
     [M + "optional.rs", M + "not.rs"], [("failure turned into an empty skip", M + "optional.rs"), ("negation", M + "not.rs")],
     "32 inner matchers x 5 wrappings x 9 contexts on 3 ASCII characters; pairs of wrapped parts on 3 (thorough 4); 4 larger shapes on 8 characters any one of which is any other; at size, with one character any: 15 to 130 nested optional or negated matchers",
     "longer texts")

prop("C10", "Discarding removes tokens but not their effect or their errors",
     "A discarded match leaves no token, but the text it matched is consumed exactly as without discarding: later parts continue behind it and the enclosing matched range includes it. Errors recorded inside the discarded match are still reported, failures and fatal errors are unchanged, and loop control passes through.",
     ["inputs", "programs"], "every text and inner matcher, in every surrounding",
     TREE + "discarding composites that hold errors, breaks or nothing at all is not tested.",
     [M + "discard.rs", M + "program.rs"], [("replace the token by a skip, keep errors", M + "discard.rs")],
     "32 inner matchers x 9 contexts, and discards before, between, inside and around 18 x 18 parts; 3 ASCII characters (thorough 4); 4 larger shapes on 8 characters any one of which is any other; up to 4 errors in 3-4 discarded parts of 5 kinds, discarded in 4 ways, on 5-character texts any one of whose characters is any other; at size, with one character any: discarded matches of 80 and 280 characters, with as many errors",
     "longer texts")

prop("C11", "Flattening hands the children to the parent unchanged",
     "When a part's children are handed to its parent, they appear in the parent in the part's place, in order and unchanged, and parsing continues behind the whole part; the part's own token disappears. Range expansion makes a token's captured range equal to everything it matched and otherwise changes nothing the parent sees.",
     ["inputs", "programs"], "every text and inner matcher, in every surrounding, including flattening inside flattening, loops, switches and discards",
     TREE + "parts whose last child ends before the part does, or without children, are not tested.",
     [M + "proxy_children.rs", M + "expand_range.rs", M + "program.rs"],
     [("proxy results", M + "proxy_children.rs, expand_range.rs"), ("merge into the parent", M + "program.rs add_children")],
     "32 inner matchers x 4 wrappings x 9 contexts; flattened pairs of parts next to a third (18 x 6 x 18); 3 ASCII characters (thorough 4); 5 larger shapes on 8 characters any one of which is any other; at size, with one character any: 9 to 129 nested flattenings or range expansions",
     "longer texts")

prop("C12", "Pinned matchers look elsewhere without moving the parser",
     "A pinned matcher runs its inner matcher in a window given by its offsets: a bare number is an absolute position, a signed number is relative (the start to the current position, the end to the new start), an empty offset keeps the current bound, and an offset can be read from a variable. Whatever it matches, the program it is a part of continues where it was before the pin.",
     ["inputs", "programs", "configurations"], "every offset text of the given form, inner matcher, position and text",
     TREE + "offsets are tested one at a time on one text.",
     [M + "pin.rs", M + "program.rs"], [("offset arithmetic", M + "pin.rs"), ("non-consuming parts do not advance", M + "program.rs")],
     "all offsets [+-]d..[+-]d with each part optional and d in 0-2 (thorough 0-3) x 4 inner matchers x 3 positions; 7 offsets x 32 inner matchers x 3 contexts; 6 variable offsets; texts of 3-4 ASCII characters; pins in pins (36 offset pairs, thorough 64); offsets of two digits on 13 characters any one of which is any other; at size, with one character any: pins 130, 260 and 65537 characters away",
     "offsets that leave the text, cross or cut a character (the implementation panics: a documented precondition)")

prop("C14", "Recoverable errors are all reported at the root",
     "An error matcher records an error and lets the parse continue; an assertion records one exactly where the inner matcher matches (or, negated, exactly where it does not) and otherwise succeeds without a trace. After the parse every recorded error is a child of the root token, after its own children, in the order of the tree (those of a deeper level before those of the level around it), wherever in the tree it was recorded (also inside discarded or flattened parts), and carries a message naming file, line, column and the given text.",
     ["inputs", "programs"], "every text, for errors and assertions at every place of nested programs, loops, switches, discards and flattenings",
     TREE + "order and completeness of several errors at different depths are not tested.",
     [M + "error.rs", M + "assert_if.rs", M + "assert_if_not.rs", "src/parser_context.rs", M + "discard.rs"],
     [("error tokens", M + "error.rs, assert_if.rs, assert_if_not.rs"), ("collection to the root", "src/parser_context.rs collect_errors")],
     "6 kinds of erring parts over 32 inner matchers x 9 contexts on 3 ASCII characters; 4 nested shapes with up to 3 errors on 4; error positions on all texts of 5 ASCII characters (thorough: one more each); 6 shapes ended by breaks, continues, failures or the end; 8 errors in 4 levels on 12 characters any one of which is any other; at size, with one character any: 12 and 130 errors in a row or from as many levels",
     "longer texts; the range of an error without width inside a program is the one the implementation defines")

prop("C15", "Fatal errors end the parse wherever they occur",
     "A panic matcher, and a fatal assertion exactly where its inner matcher matches (or, negated, exactly where it does not), ends the whole parse with an error that names the given text; no optional, negation, switch, loop, discard, flattening, mapping, storing, pinning or assertion around it turns it into a match or a plain failure: only a catch can. Fatal assertions that do not apply succeed without a trace.",
     ["inputs", "programs"], "every text, for every fatal matcher inside every wrapper and surrounding",
     TREE + "propagation through each wrapper is not tested.",
     [M + "panic.rs", M + "fatal_if.rs", M + "fatal_if_not.rs", M + "program.rs"],
     [("error result passed on", M + "panic.rs, fatal_if.rs, fatal_if_not.rs and every wrapper")],
     "3 fatal matchers over 32 inner matchers x 9 contexts; 2 fatal matchers x 12 wrappers x 9 contexts; fatal positions on all texts of 5 ASCII characters; 3 ASCII characters otherwise (thorough: one more); fatal errors of 3 kinds behind up to 11 characters or lines; at size, with one character any: fatal errors inside 9 and 70 wrappers of 10 kinds, behind as many lines",
     "longer texts; the range start a panic reports inside a program")

prop("C16", "Mapping and catching see exactly the results they are given for",
     "A mapper is applied exactly when the inner matcher yields a token (its failure handler exactly when it fails), and its result replaces the token; skips and loop control pass by it. A catcher is applied exactly when the inner matcher fails or ends in a fatal error, and its result replaces that; every success passes by it unchanged.",
     ["inputs", "programs"], "every text and inner matcher, for mappers and catchers that change, drop, fail, skip, err or rethrow, in every surrounding",
     TREE + "each test maps one token.",
     [M + "map.rs", M + "catch.rs"], [("handler dispatch", M + "map.rs, catch.rs")],
     "32 inner matchers x 7 mappers x 9 contexts, x 5 catchers x 9 contexts, and all 35 catcher/mapper pairs; 2-3 ASCII characters; 5 nestings of mappings and catches; at size, with one character any: 40 catches and mappings around each other, loops of 40 mapped or caught items",
     "longer texts; other user closures")

prop("C25", "Debugging never changes the parse",
     "Wrapping any matcher in a debug matcher, at any debug level, or placing an empty debug matcher anywhere, leaves the result of the parse exactly as it is without it, for every text, including texts with multi-byte characters; in particular printing never aborts the parse.",
     ["inputs", "programs", "configurations"], "every text, wrapped matcher and debug level 0-4",
     "No test runs the debug output over varying text; cutting the text shown in the middle of a character or an odd range aborts the program only for particular texts.",
     [M + "debug.rs", "src/parser_context.rs", "src/token.rs"], [("debug level on a copied context", M + "debug.rs"), ("excerpt on character boundaries", "src/parser_context.rs debug_range")],
     "32 wrapped matchers x 5 levels, in loops, programs and switches over 18 parts; 2 symbolic characters of up to 2 bytes (thorough 3); matchers printed while debugged on 9-11 characters ending in wide ones; at size, with one character any: loops of 60 items, 8 debug matchers around each other",
     "longer texts", observe=("parsed token tree", "panic"))

prop("C01", "Token trees are coherent",
     "Every token a parse returns is consistent with the text: its matched range lies inside the window and on character boundaries, its captured range lies inside its matched range, its matched and captured values are exactly the text of these ranges, its children lie inside it, in order and without overlapping, and name it as their parent; only the root holds errors.",
     ["inputs", "programs"], "every text and window, for trees of programs, switches, loops, flattening, range expansion, discards, optional parts and errors",
     TREE + "no test states the invariants of the whole tree.",
     [M + "program.rs", "src/token.rs", "src/source_range.rs", "src/parser_context.rs"],
     [("ranges merged from the parts", M + "program.rs"), ("values from ranges", "src/token.rs, src/source_range.rs"), ("errors moved to the root", "src/parser_context.rs collect_errors")],
     "all trees of depth 2 (program pairs, switch, loop, flatten, expand, discard, with error) over 5 leaves on 2 ASCII characters (thorough: 3 characters of up to 2 bytes); depth 1 on 3 (4) characters of up to 2 bytes in all windows; 32 matchers in 9 contexts on 3 (4); 3 larger trees on 3 wider texts with one more character; at size, with one character any: loops of 20 and 140 items, each up to 12 flattenings deep",
     "pins to other places (their tokens lie where they point); the parent link of errors and of a range expansion at the root")

prop("C13", "Variables and references follow the scopes",
     "A variable or reference always means what was most recently stored under that name in the innermost scope that has it: a string, the token a stored matcher last matched (a failing or token-less match stores nothing), or a matcher that was registered or has run under a name of its own. A matcher run in a new scope sees outer names, but nothing it stores survives it, also when it fails; a given scope is used instead of the current one and keeps what is stored. A reference behaves exactly like the matcher it names, recursively too, and an unresolvable one is a fatal error.",
     ["inputs", "programs", "histories"], "every text and every sequence of stores, failing stores, scopes, registrations and references within the bounds; every sequence of operations on a scope stack",
     "Tests store one variable and read it once; what a name means after failing, nested or repeated stores depends on the history.",
     [M + "store.rs", M + "ref.rs", M + "register.rs", M + "set_scope.rs", M + "fetch.rs", "src/scope.rs", "src/scope_context.rs", "src/matcher.rs", "src/parser_context.rs"],
     [("stack of maps", "src/scope_context.rs, src/scope.rs"), ("store and fetch", M + "store.rs, fetch.rs"), ("push and pop around a matcher", M + "set_scope.rs"), ("registration", "src/matcher.rs before_exec, " + M + "register.rs")],
     "two scope operations (57 x 14 variants; thorough 57 x 57) between two stores and a read on 3 (4) ASCII characters; 7 registrations x 4 references on 4; recursive grammars on 5 (6); all sequences of 5 (6) operations on a scope stack with 2 names; 3 scopes in each other; a scope given by the caller used twice, and a new scope inside it; at size, with one character any: 12 to 150 variables or registered names, up to 75 nested scopes",
     "references to names or token parts that do not exist (the implementation panics: a documented precondition)", observe=("parsed token tree", "scope contents"))

prop("C17", "Reported lines and columns are right",
     "For every range of the text the reported first and last line count the line breaks before it (a CRLF is one, a lone CR or LF is one, never two), the reported columns count from the start of that same line (the last never before the first), and an error message is exactly 'Error: file@[lines:columns]: message' with a single number where first and last agree.",
     ["inputs"], "every text and range within the bounds, including CR, LF and CRLF in every combination and multi-byte characters",
     "Tests check a handful of positions in one text.",
     ["src/parser_context.rs"], [("line and column arithmetic", "src/parser_context.rs get_lines, get_columns, get_error_as_string")],
     "all texts of 5 (thorough 6) ASCII characters with all ranges, of 3 (4) characters of up to 3 bytes, and texts of 7 (8) line breaks and letters; line and column numbers of two digits; at size, with one character any: 99 to 300 and 65536 lines or columns",
     "columns count bytes, not characters; a position between CR and LF belongs to the next line", observe=("error message",))

prop("C18", "Visiting a tree calls exactly the right hooks in order",
     "A visit walks the whole tree, parents before children and children in order, and for every token calls exactly one hook: the first one added for the token's name, otherwise the first one for '*', otherwise none. The first hook that fails ends the visit with its error; otherwise the visit succeeds. A hook may change the token it is given, including its children: what it leaves is what is visited next.",
     ["inputs", "histories"], "every tree shape and naming, hook list and failing call within the bounds, and every parsed tree of 32 matchers in 4 contexts",
     "The test visits one tree with two hooks and no failure.",
     ["src/token_visitor.rs"], [("hook lookup and recursion", "src/token_visitor.rs")],
     "all trees of up to 4 (thorough 5) tokens with 3 names and depth 2, all lists of up to 3 hooks over 2 names and '*', failing at call 1-3 or never; parsed trees over 3 ASCII characters; 7 tokens in 4 levels with 4 names, 4 hooks, failing at call 1-8 or never; trees of up to 4 (5) tokens with hooks that rename, remove, add, reverse or edit; at size, with one character any: trees of up to 601 tokens: wide, 300 deep, two-level",
     "hooks that change the parent of the token they are given, or a token elsewhere in the tree", observe=("sequence of calls", "visit result"))

prop("C19", "Tokens keep what they are told",
     "Changing one thing about a token changes exactly that: setting a range makes the value of that range follow the text, a set value replaces the captured one until it is reset, the value attribute overrides both, flags are set, added and removed bit by bit, attributes keep their last value. Finding a child returns the first direct child whose name is (or fits) what was asked for, and two tokens are equal exactly when name and both ranges are.",
     ["inputs", "histories"], "every sequence of changes within the bounds, all flag values, all ranges of symbolic texts",
     "No test changes tokens; the accessors are generated by a macro and written a second time for position tokens.",
     ["src/token.rs", "adextopa_macros/src/lib.rs", M + "pin.rs"], [("generated accessors", "adextopa_macros/src/lib.rs"), ("position tokens", M + "pin.rs PinToken"), ("child search, equality", "src/token.rs")],
     "2 (thorough 3) changes to the text or ranges of a token (ordinary or a pin's) over 3 symbolic characters of up to 2 bytes; 3 changes to flags (all 256 values each) and attributes; searches in all trees of up to 5 tokens; all pairs of tokens over 2 names and 9 range pairs; 3 (4) changes to the children and parent of a token; at size, with one character any: values and names of 300 characters, 40 attributes, 300 children",
     "values after a range was changed through get_captured_range_mut or get_matched_range_mut (they do not follow)", observe=("token contents",))

prop("C20", "Only the window matters",
     "Parsing a window of a longer text gives exactly the result of parsing the same text alone, shifted to the window's position: the same tokens, values, errors and failures, whatever stands before or behind the window.",
     ["inputs", "programs"], "every text before, inside and behind the window, for matchers of every kind (pins: relative offsets)",
     "Tests parse whole texts; a look at the text around the window shows only for particular neighbours.",
     ["src/parser_context.rs", M + "matches.rs", M + "sequence.rs", M + "program.rs"], [("window bounds", "src/parser_context.rs matches_str, matches_regexp, matches_str_at_offset")],
     "32 matchers in 5 contexts, all trees of depth 1 (thorough 2) and all 13 expressions on 2-3 characters with one symbolic character before and behind; 4 matchers over 3 characters of up to 2 bytes; 6 more matchers whose match would go on behind the window; 5 matchers with variables, pins and errors behind 10 characters or 5 lines; at size, with one character any: 300 and 65534 characters (also lines, wide ones) before and behind the window",
     "messages (they name the position in the whole text); absolute pins")

prop("C21", "Parsing is repeatable",
     "A matcher can be used any number of times: the result of a parse depends only on the matcher and the text, not on what the same matcher object parsed before, successfully or not. A parse leaves the caller's window where it was, parsing the same context again gives the same result, and a result already returned is not changed by later parses.",
     ["inputs", "histories"], "every text parsed after another one, for matchers of every kind, named matchers and variables",
     "Tests use every matcher once.",
     ["src/parser_context.rs", M + "program.rs", "src/scope_context.rs"], [("state in contexts, not in matchers", "src/parser_context.rs, " + M + "program.rs")],
     "32 matchers in 5 contexts after 4 other texts, all trees of depth 1 (thorough 2) after 2, 4 matchers with names and variables after 3; 2-3 ASCII characters; 5 matchers that hold the same matcher twice, name or store, after 2 texts; at size, with one character any: 9 and 20 parses before",
     "matchers edited between parses; user closures with state of their own")

prop("C26", "Edited matchers behave like ones built that way",
     "A matcher tree can be edited before use: exchanging the inner matcher of a wrapper or one part of a program, switch or loop, adding parts, and naming a matcher (also through its wrappers) leave a matcher that behaves exactly like one built that way, and lists exactly those parts as its children.",
     ["inputs", "programs", "configurations"], "every text, wrapper, old and new part within the bounds",
     "Tests build matchers with macros and never edit them; scripts rely on editing.",
     ["src/matcher.rs", M + "program.rs", M + "optional.rs", M + "not.rs", M + "discard.rs", M + "proxy_children.rs", M + "expand_range.rs", M + "set_scope.rs", M + "map.rs", M + "catch.rs", M + "debug.rs"],
     [("set_child, add_pattern, set_name, get_children", "every file under " + M)],
     "9 wrappers x 4 old x 32 new inner matchers; programs, switches and loops of up to 2 added parts (18 kinds), one exchanged (6 kinds); 11 named matchers through 9 wrappers; 3 ASCII characters; 2 (3) edits of programs, switches and loops; wrappers built empty; at size, with one character any: programs, switches and loops of 130 parts, any of 4 exchanged",
     "parts exchanged while a parse runs")

SCR = "src/script/v1/"
SM = SCR + "matchers/"
prop("C22", "A compiled script matches what it says",
     "A compiled script parses every text exactly as the matchers its source describes: literals, expressions with their flags, sequences, switches, programs and names, inverted or optional, repeated within the bounds written behind them, captured (a token named in place is called `Name`, as the tests demand) or discarded, with the attributes written on them, escapes in strings meaning the escaped characters, and one top-level token named after the script (or as its header names it).",
     ["programs", "inputs"], "every script obtained by filling the holes of the listed templates with any characters, and every text it is then run on",
     "Tests compile a few fixed scripts; which modifier binds to what, and what each escape, bound or attribute means, shows in combinations.",
     [SCR + "parser.rs", SM], [("grammar of scripts", SM), ("tokens to matchers", SCR + "parser.rs construct_matcher_from_pattern, construct_matcher_from_inner_definition, build_matcher_from_tokens")],
     "45 script templates with 1-2 (thorough up to 4) holes of any ASCII character or of 3 letters (string contents, escapes, delimiters, flags, modifiers inside and outside, repetition bounds, attribute names and values, header attributes, nested switches and programs), each run on every text of 1-4 ASCII characters (thorough one more); 5 (7) larger scripts with bounds of up to 12 on 10-25 characters any one of which is any other; at size, with one character any: scripts of 71 parts, 61 alternatives, 35 attributes, 30 levels, a 301-character literal",
     "other scripts; non-ASCII scripts; a bound without a comma `{n}` means 0 to n and a captured pattern `(?'x'<..>)` without attributes of its own is always called Name, as the implementation defines it; `{2 3}`, empty `[]`, `{}` and an empty header name have no defined meaning; imports (see C28)",
     observe=("compiled or rejected", "parsed token tree"), path_steps=400000000)

prop("C23", "Every text is compiled or rejected with errors",
     "Compiling any text as a script ends, never panics, and either yields a matcher, exactly when the text is a script from beginning to end that only uses valid parts, or at least one error with a message and, if any, a position inside the script. A text with something left over, an unfinished part or an invalid part (empty literal or delimiter, invalid expression, impossible bound, invalid attribute) is never accepted.",
     ["inputs"], "every text of up to 3 characters, and every single-character change to the listed scripts",
     "Tests check a few invalid scripts; the parser runs on the library's own matchers, where a swallowed failure silently shortens the script.",
     [SCR + "parser.rs", SM], [("error collection", SCR + "parser.rs build_matcher_from_tokens"), ("fatal errors of the grammar", SM)],
     "all ASCII texts of 0-3 characters; every replacement of and insertion before each character of 3 scripts (thorough: of 8, also leaving each out) by any ASCII character; 19 kinds of invalid parts; expressions with 1-2 symbolic characters; 6 faulty scripts compiled with and without printing the errors; at size, with one character any: scripts of 40 patterns or definitions or a text of 200 characters",
     "longer arbitrary texts; more than one change; non-ASCII scripts", observe=("compiled or rejected", "errors"), path_steps=400000000)

prop("C24", "Names in scripts mean what they are assigned",
     "A name used in a script stands for the pattern its header assigns to it, including that pattern's modifiers, repetition and attributes, equally at every use, wherever the assignment stands in the header (before or after its use, or as another name for an already assigned one) and also recursively; using a name that stands for nothing is a fatal error exactly when it is reached.",
     ["programs", "inputs"], "every script obtained from the listed templates, and every text",
     "Tests use one assigned name once.",
     [SCR + "parser.rs", M + "ref.rs", M + "register.rs", "src/scope_context.rs"], [("assignments register matchers", SCR + "parser.rs build_matcher_from_tokens, initialize_pattern"), ("resolution at run time", M + "ref.rs")],
     "23 templates with up to 2 holes, including mutual recursion, aliases in both orders, repeated use and modifiers; texts of 2-4 ASCII characters (thorough one more); 6 headers of up to 6 names, alike or assigned twice, on texts any character of which is any other; at size, with one character any: 12 and 40 named patterns",
     "cyclic names and left recursion (they recurse without end)", observe=("compiled or rejected", "parsed token tree"), path_steps=400000000)

prop("C27", "Layout does not change a script",
     "White space (any of space, tab, line feed, vertical tab, form feed, carriage return) between the parts of a script (around an attribute's `=`, inside repetition bounds and around an import's keywords: white space without line breaks), and comments between its patterns and assignments, never change whether it compiles or what it means; a comment holds any text up to the end of its line.",
     ["inputs"], "every white space at every place where the grammar allows it, every comment content, in the listed scripts",
     "Tests are written in one layout.",
     [SM], [("white space and comments in the grammar", SM + "whitespace.rs, comment.rs and their uses")],
     "15 layouts of scripts with 1-13 places of white space: two arbitrary white-space characters at one place, the others all empty or all filled (thorough: one at every place); comments of 1-2 arbitrary characters at 8 places; the compiled script on every text of 2 ASCII characters; 2 scripts with imports",
     "other scripts", observe=("compiled or rejected", "parsed token tree"), path_steps=400000000)

prop("C28", "Imports bring in what they name",
     "A script read from a file means the same as its text. An import reads the file its path names, relative to the importing file, and makes exactly the named patterns (or, as `_`, the whole script) of that file available under their own or the given names, usable like an assignment; they keep using the names of the file they come from and never change those of the importing one. An import that cannot be satisfied (missing or invalid file, unknown name, unnamed `_`, circular import, no importing file) is reported as an error, also through other imports, and never accepted, ignored, or run into without end.",
     ["programs", "inputs"], "every script obtained from the listed templates, over up to five files, and every text",
     "One test imports one file; names that exist in both files, several levels, renamed roots and failing imports are not tested.",
     [SCR + "parser.rs", SM + "import_statement.rs", "src/parser.rs"], [("imports", SCR + "parser.rs build_matcher_from_tokens (ImportStatement)"), ("reading files", "src/parser.rs new_from_file; " + SCR + "parser.rs compile_script_from_file")],
     "8 named-import templates with holes, 9 paths over 4 files in 3 directories, 4 x 4 pairs of importing and imported scripts (one importing a third), 19 faulty imports, files of any 2 bytes in a literal; texts of 1-3 ASCII characters (thorough one more); at size: 10 names from one file, chains of 5 files",
     "symbolic links, unreadable files, paths that are not text; the same file compiled twice is read twice",
     observe=("compiled or rejected", "parsed token tree"), path_steps=400000000,
     assumptions=["the file system is modelled: realpath, open, read and close on the files of the harness (no size hint); replays use real files in a scratch directory"])

prop("C29", "Printing shows what is there",
     "Every matcher, token, range and parse result can be printed at any time, before and after it was used, without a panic, without running on without end and without changing anything. A printed token names itself and, nested and in order, all of its descendants, each with both of its ranges and values, the name of its parent and its attributes; a range prints as [start-end].",
     ["inputs", "programs"], "every text, matcher tree and script within the bounds",
     "Tests compare a few printed trees; recursive names, wide characters, attributes and used matchers are not printed by any.",
     ["src/token.rs", "src/source_range.rs", "src/matcher.rs", M], [("Debug of tokens", "src/token.rs"), ("Debug and to_string of matchers", M)],
     "tokens of 9 contexts around 40 kinds of matcher on 2 ASCII characters (thorough one more) and of 4 larger matchers on texts with a character of up to 2 bytes; matchers of every kind and wrapper before and after a run on 1 character; 4 scripts, one recursive and two importing, used twice; 360 ranges; at size, with one character any: trees of 61 tokens, 20 levels and values of 60 characters",
     "texts with line breaks or spaces (so that layout can be set aside); the layout (indentation); the order of several attributes", observe=("printed text",), path_steps=400000000,
     assumptions=["the file system is modelled: realpath, open, read and close on the files of the harness (no size hint); replays use real files in a scratch directory"])

prop("C30", "A context answers exactly about its window",
     "Asking a context whether a text or an expression stands at its position (or a text at another offset) is answered for exactly its window, with the range found; a range yields the text it covers, clipped at the end of the text and empty if it covers no whole characters; an excerpt is the beginning of the window. Copies of a context have a window, debug mode and token stack of their own and share text, variables and names.",
     ["inputs", "histories"], "every text, window, offset and range, and every sequence of calls within the bounds",
     "Matchers of one's own build on these calls; tests use only the one or other with one text.",
     ["src/parser_context.rs", "src/source_range.rs", "src/parser.rs", "src/scope_context.rs"], [("comparison at the position", "src/parser_context.rs matches_str, matches_str_at_offset, matches_regexp"), ("text of a range", "src/source_range.rs to_string"), ("copies", "src/parser_context.rs clone_with_name")],
     "3 characters of up to 2 bytes (thorough: 3), every window, offset and range, and texts of 0-2 such characters to find; 13 expressions on every window of 3 ASCII characters; every sequence of 3 (4) of 9 calls on a context and its copy; at size, with one character any: windows of 300 characters, 50 tokens on the stack, 40 names",
     "longer texts", observe=("answers of the context",))

prop("C31", "Compiling is repeatable",
     "What compiling a script yields depends on the script (and its files as they are at that time) only: not on scripts compiled, rejected or run before. The same script is accepted or rejected with the same errors each time, and matchers compiled from it do not influence each other.",
     ["programs", "histories"], "every pair of scripts obtained from the listed templates, and every text",
     "Tests compile each script once.",
     [SCR + "parser.rs", SM, "src/parser.rs"], [("the grammar is built anew", SCR + "parser.rs compile_script"), ("names of a script", "src/scope_context.rs")],
     "7 earlier scripts (valid, invalid, unfinished, with names) before 4 templates with a hole of any ASCII character; 5 templates compiled twice, their results used in turn; 4 versions of an imported file before 2 others; texts of 2 ASCII characters",
     "compiling in several threads (matchers cannot leave theirs)", observe=("compiled or rejected", "errors", "parsed token tree"), path_steps=400000000,
     assumptions=["the file system is modelled: realpath, open, read and close on the files of the harness (no size hint); replays use real files in a scratch directory"])

prop("C32", "Matchers of one's own are full members",
     "A matcher implemented by the user is run exactly where and as often as a built-in one in its place would be, sees the end of the enclosing window and the names in scope, and its result (a token, children, a skip forwards or backwards, break, continue, stop, an error token, failure, fatal error, or a match outside the sequence of parts) is treated like that of a built-in one.",
     ["programs", "inputs"], "every text, 12 kinds of result, every wrapper and context",
     "Tests contain no matcher of the user's.",
     ["src/matcher.rs"] + [M + x for x in ("program.rs", "optional.rs", "not.rs", "discard.rs", "proxy_children.rs", "expand_range.rs", "map.rs", "catch.rs", "set_scope.rs", "pin.rs", "debug.rs")], [("the trait's contract", "src/matcher.rs Matcher, MatcherSuccess"), ("receivers of results", "every file under " + M)],
     "12 user matchers in 12 wrappers and 9 contexts on 2 ASCII characters (thorough one more); 144 pairs in 6 larger matchers on 3 (4); 4 of them in 8 places (pins, scopes, references, debug, maps, catches) in windows of 4",
     "MatcherSuccess::None as a result (the receivers rule it out); set_child and add_pattern on matchers of one's own")

prop("C33", "Every way of writing a matcher gives the same matcher",
     "A matcher means the same whichever way it is written: by macro (with or without name, with or without a trailing comma), by constructor, empty and filled afterwards, named at once or later. Every form of a range of repetitions is understood, its end, however written, being the largest number. A matcher's name is the one it was given last (else its usual one), under which it can be referred to; its parts are the ones it was made of, in order.",
     ["programs", "inputs"], "every listed form of every matcher, every text within the bounds",
     "Tests use one form of each matcher and look at one result.",
     [M + x for x in ("program.rs", "pin.rs", "equals.rs", "matches.rs", "sequence.rs", "store.rs", "register.rs", "ref.rs", "proxy_children.rs", "debug.rs", "assert_if.rs", "fatal_if.rs")] + ["src/matcher.rs"],
     [("macros", "every file under " + M), ("ranges of repetitions", M + "program.rs new_loop, new_blank_loop, new_loop_with_name_and_range"), ("names", "set_name, get_name and has_custom_name of every matcher"), ("parts", "get_children of every matcher")],
     "8 ways of writing programs and switches, 25 of loops, 20 of texts, expressions and sequences, 10 of pins with 6 offsets, 14 of references, proxies, stores, breaks and scopes, 9 tests and handlers around 40 kinds of matcher, 6 matchers without parts in 4 places; parts of 18 kinds of matcher; texts of 2-4 ASCII characters",
     "custom! and the macros' handling of anything that is not a matcher")

def bounds():
    return {i: {"bounds": p["bounds"], "outside": p["outside"], "assumptions": p.get("assumptions", [])} | ({"path_steps": p["path_steps"]} if "path_steps" in p else {}) for i, p in P.items()}


NA = {}
