#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

POS = [dict(name="scanner position", meaning="byte offset of the scanner in its text, 0..len(text)", where="scanner.go Scanner.pos")]

p("C01", "Scanner position always stays inside the text",
  "Whatever text a scanner holds, whatever valid position it is at and whatever scanning, moving or marker operation is called on it with whatever arguments, the call returns without panicking and the scanner is left at a position p with 0 <= p <= len(text), so that Head()+Tail() is the unchanged full text, AtStart/AtEnd tell exactly p==0 and p==len(text), and a later call never fails because of the position. Move(n) and ToMarker(m) succeed exactly when the target lies inside the text, and a refused Move, MoveRunes or ToMarker leaves the position alone. NewScanner starts at the start of its text, NewRevScanner at the end.",
  ["inputs", "histories"], "all texts, all valid positions, all arguments of every Scanner operation; one operation from an arbitrary valid state covers histories of any length",
  "The tests run each operation on a few fixed ASCII or Latin texts from a start position; no test passes an out-of-range marker, a pattern longer than the rest, an empty rest or malformed UTF-8.",
  ["scanner.go", "scanner_rev.go", "intl.go"],
  [("Move/ToMarker range guards", "scanner.go Move, ToMarker"), ("pattern length checks", "scanner.go IfFold/ToFold, scanner_rev.go RevIfFold/RevToFold")],
  ["Head()", "Tail()", "Mark()", "AtStart()", "AtEnd()", "panics"], POS)

p("C02", "Literal scanning matches exactly the given text",
  "If/RevIf move the scanner by exactly len(str) bytes and report true precisely when the text right after (before) the position is str; IfAny/RevIfAny behave as the first alternative in the list that matches. To moves to the first occurrence of str at or after the position and RevTo to just behind the last occurrence that ends at or before the position; if there is none they report false and do not move.",
  ["inputs"], "all texts, positions and (for valid UTF-8 text in RevTo) all search strings",
  "Tests use one happy and one unhappy literal per function; partial matches, overlapping matches, matches at both ends, and lists with prefixes of one another are not sampled.",
  ["scanner.go", "scanner_rev.go"], [("prefix/suffix/index tests plus Move", "scanner.go If, IfAny, To; scanner_rev.go RevIf, RevIfAny, RevTo")], ["return value", "Mark()"], POS)

p("C03", "Case-insensitive scanning follows Unicode simple folding",
  "IfFold/RevIfFold succeed and move by len(str) bytes precisely when the len(str) bytes after (before) the position equal str under Unicode simple case folding; ToFold/RevToFold move to the first (last) position at which that is true, and report false without moving when there is none, also when less text than len(str) remains.",
  ["inputs"], "all texts, positions and patterns, including texts shorter than the pattern and multi-byte characters",
  "Tests fold a few ASCII words with enough text left; the text end, one-off lengths and multi-byte runes are never combined.",
  ["scanner.go", "scanner_rev.go"], [("windowed EqualFold", "scanner.go IfFold, ToFold; scanner_rev.go RevIfFold, RevToFold")], ["return value", "Mark()"], POS)

p("C04", "Forward rune-class scanning is exact and honest about moving",
  "For every rune class (one rune, a rune set, a range, a predicate): If… moves over exactly one rune iff a rune follows and belongs to the class; To… moves to the first rune of the class at or after the position, else reports false and stays; While… moves over the maximal run of class members. If… and While… report true exactly when they moved.",
  ["inputs"], "all texts including malformed UTF-8, all positions on a rune boundary, all classes including arbitrary predicates",
  "Tests check one class per function on one text; the run that reaches the end of the text, the run of length zero, empty text and U+FFFD are exactly where the functions differ from each other.",
  ["scanner.go"], [("rune loops", "scanner.go IfRune..WhileMatch")], ["return value", "Mark()"], POS)

p("C05", "Backward rune-class scanning mirrors forward scanning",
  "For every rune class: RevIf… moves back over exactly one rune iff a rune precedes the position and belongs to the class; RevTo… moves to just behind the nearest preceding rune of the class, else reports false and stays; RevWhile… moves back over the maximal run of class members that ends at the position. RevIf… and RevWhile… report true exactly when they moved.",
  ["inputs"], "all texts including U+FFFD and malformed UTF-8, all positions on a rune boundary, all classes including arbitrary predicates",
  "Tests sample one class per function; predicates and ranges are not tested backwards at all, nor the start of the text, nor zero-length runs.",
  ["scanner_rev.go", "intl.go"], [("reverse iterator", "intl.go revItr"), ("rune loops", "scanner_rev.go")], ["return value", "Mark()"], POS)

p("C06", "Stepping by runes counts runes, not bytes",
  "MoveRunes(n) moves over exactly |n| runes (a malformed byte counts as one rune of one byte) and fails without moving when fewer than |n| runes are left in that direction; moving forward and back by the same count returns to the start. ReadRune/RevReadRune return the rune next to the position and move over exactly it, failing only when no well-formed rune is there; ScanString(n) returns exactly the next n runes whenever at least n runes are left.",
  ["inputs"], "all texts including malformed UTF-8, all positions on a rune boundary, all counts",
  "Tests step over fixed two- and three-byte letters; the exact end of the text, U+FFFD and malformed bytes are not reached.",
  ["scanner.go", "read.go", "intl.go"], [("rune counting", "scanner.go MoveRunes, ScanString; intl.go getPrefix, revItr; read.go ReadRune, RevReadRune")], ["return value", "Mark()"], POS)

p("C07", "ReadInt returns the numeral's value and never wraps",
  "For base 8, 10 or 16 and bit size 8, 16, 32 or 64, ReadInt reads an optional sign and the longest run of digits whose value still fits the bit size, returns exactly that value and moves over exactly what it read; if not even one digit fits it fails without moving. The returned value always lies in the range of the bit size, and any other base or bit size is rejected without moving.",
  ["inputs"], "all texts, all positions, all bases and bit sizes, numerals up to and beyond the 64-bit limits",
  "Tests read a handful of numerals; the boundary values of 64-bit numbers, where the intermediate product wraps, need specific digit strings.",
  ["read.go"], [("digit accumulation with range check", "read.go ReadInt")], ["return value", "Mark()"], POS)

p("C08", "ReadUint returns the numeral's value and never wraps",
  "For base 8, 10 or 16 and bit size 8, 16, 32 or 64, ReadUint reads the longest run of digits whose value still fits the bit size, returns exactly that value and moves over exactly what it read; if no digit is there it fails without moving. The returned value always lies in the range of the bit size, and any other base or bit size is rejected without moving.",
  ["inputs"], "all texts, all positions, all bases and bit sizes, numerals up to and beyond the 64-bit limits",
  "Tests read a handful of numerals; wrap-around of the 64-bit product needs specific digit strings.",
  ["read.go"], [("digit accumulation with overflow check", "read.go ReadUint")], ["return value", "Mark()"], POS)

p("C09", "ReadBool accepts exactly the spellings of its format",
  "ReadBool(format) accepts exactly true/false for \"l\", TRUE/FALSE for \"U\", True/False for \"Cc\" and all six for \"*\" and \"\", returns the value spelled, and moves over exactly the word; on any other text it fails without moving, and any other format string is rejected.",
  ["inputs", "configurations"], "all texts up to the word length, all format strings",
  "Tests try matching words only; near misses, truncated words and unknown formats are not sampled.",
  ["read.go", "reader.go"], [("format table", "read.go ReadBool"), ("Bool reader", "reader.go BoolReader")], ["return value", "Mark()"], POS)

p("C10", "A failing read leaves the scanner where it was",
  "Whenever Use, UseFunc, TraceUse, TraceUseFunc, TokenizeUse, CaptureUse, Scope, Trace, Tokenize or Capture reports failure, the scanner is at the position it had before, no matter how far the failing reader or function had moved it. The built-in readers (leaf readers and all combinators applied to sub-readers with arbitrary behaviour; only Named, Rule, Monitor and Wrap pass on what their sub-reader does) also leave the position unchanged themselves whenever they return an error.",
  ["inputs", "programs"], "all texts, positions and readers, including user-written readers that move before failing",
  "Tests only look at the error of a failing reader on a few texts; a combinator that restores the position only for well-behaved sub-readers passes all of them.",
  ["reader.go", "token.go", "scanner.go"], [("mark/restore", "reader.go Use.., Seq, SkipSeq, Any, Times, Many; token.go Tokenize*; scanner.go Scope, Trace")], ["Mark() after an error"], POS)

p("C11", "Seq, SkipSeq, Any, Opt and Times have PEG semantics",
  "For sub-readers with arbitrary behaviour: Seq succeeds iff all sub-readers succeed one after the other, each starting where the previous one stopped; SkipSeq does the same with the skip reader run before, between and after the elements; Times(n) is Seq of n copies. Any commits to the first alternative that succeeds, and every alternative starts at the original position even if an earlier one moved before failing; Opt always succeeds and moves only if its sub-reader succeeded.",
  ["inputs", "programs"], "all outcomes and movements of the sub-readers, all texts and positions, list lengths within the bound",
  "Tests use literal sub-readers that never move before failing and at most two alternatives; the order of calls and the start positions are not observed.",
  ["reader.go"], [("combinators", "reader.go seqReader, skipSeqReader, anyReader, optReader, timesReader")], ["result", "Mark()", "start position seen by each sub-reader"], POS)

p("C12", "Zom and Many repeat greedily and always terminate",
  "Zom(r) applies r repeatedly from where the previous match ended until it fails or matches without consuming anything, then succeeds with the scanner at the end of the last match; Many(r) does the same but fails, without moving, if nothing was consumed. Both terminate for every text and every sub-reader that does not move backward, including sub-readers that succeed without consuming. Scanner.While calls its function until it reports false and reports exactly whether the scanner then stands ahead of where it began.",
  ["inputs", "programs"], "all texts and all sub-reader behaviours, including zero-width success",
  "Termination cannot be tested by examples; the tests repeat consuming readers over short texts only.",
  ["reader.go"], [("repetition loops", "reader.go zomReader, manyReader; scanner.go While")], ["result", "Mark()", "termination"], POS)

p("C13", "Look-ahead and search readers stop exactly at the first match",
  "At(r) succeeds iff r does and never moves; Not(r) moves one rune iff a rune is left and r fails there, and otherwise fails without moving. To(r) stops at, and Past(r) right after the match at, the first rune boundary at or after the position (the end of the text included) where r succeeds; Body(b,t) and BodyTail(b,t) additionally require b to read exactly everything before that first match of t. If there is no such place they fail without moving.",
  ["inputs", "programs"], "all texts including malformed UTF-8, all positions and arbitrary sub-reader behaviours",
  "Tests search for literals in short ASCII texts; matches at the very end, malformed bytes (on which the search may never end) and sub-readers that move before failing are not covered.",
  ["reader.go"], [("search loops", "reader.go toReader, pastReader, bodyReader, bodyTailReader, atReader, notReader")], ["result", "Mark()", "termination"], POS)

p("C14", "Leaf readers accept exactly the documented set of texts",
  "Lit, Fold, Rune, AnyRune, Between, BetweenAny, BuildBetweenAny, Set, Holey, Match, Digit, HexDigit, WS, NL, AtEnd, AnyFold, Bool, Int and Uint succeed at a position exactly if the next rune (or literal, or value) is a member of what they describe, move over exactly that, and never succeed on the end of the text unless they describe the empty text.",
  ["inputs", "configurations"], "all texts, positions and constructor arguments within the bound",
  "Tests cover about half of these readers with one or two texts each; range bounds, holes and end of text are not sampled.",
  ["reader.go", "scanner.go"], [("leaf readers", "reader.go litReader..wrapReader")], ["result", "Mark()"], POS)

p("C15", "Errors report where reading failed",
  "The error of a failing built-in leaf or search reader is a ReadError whose marker is the position at which it was asked to read and which lies inside the text; a failing Seq, SkipSeq or Times passes on the error of the element that failed, so its marker is not before the start. When all alternatives of Any fail with ReadErrors, the reported error is the one of an alternative that got furthest: no alternative failed at a later marker.",
  ["inputs", "programs"], "all texts, positions and combinations of failing readers within the bound",
  "Tests compare errors with nil only; no marker of an error is ever checked.",
  ["error.go", "reader.go"], [("ErrorFor/ErrorIfFalse", "error.go"), ("deepest error", "reader.go getDeepest, ReadError.Later")], ["ReadError.Marker"], POS)

p("C16", "Token relations form a consistent interval algebra",
  "A token made of any two markers is the half-open interval between them in either order. For any two tokens, Before, After, Covers and Clashes are exactly the interval relations they name (Clashes iff they overlap in at least one byte and neither covers the other), Before and After are mirror images, Covers is a partial order, Merge is the smallest token covering both, and Split by a covered separator yields the two parts that together with the separator make up the token again (by any other separator the tokens between the starts and between the ends, never one that ends before it starts).",
  ["inputs"], "all markers (64-bit integers)",
  "Tests check a dozen fixed intervals; the relations have to agree with one another on all of them.",
  ["token.go"], [("Token methods", "token.go")], ["return values"])

p("C17", "Captured and traced text is exactly what was read",
  "Tokenize, TokenizeUse, Trace, TraceUse, TraceUseFunc, Capture, CaptureUse and Since deliver exactly the text between the position before and the position after the wrapped function or reader, for forward and for backward movement; Get(token) is that part of the full text. Map hands its function exactly the token its reader consumed, once per successful read and never on failure.",
  ["inputs", "programs"], "all texts, positions and movements of the wrapped function",
  "Tests trace forward reads from the start of a text; backward reads, reads from the middle and failing reads are not covered.",
  ["token.go", "scanner.go", "reader.go"], [("mark before/after", "token.go Tokenize*, Since, Capture*; scanner.go Trace; reader.go TraceUse*, mapReader")], ["returned token/text"], POS)

p("C18", "Sorting segments puts covering before covered, left before right",
  "SortSegments and SortSegmentsByOrder permute their slice, and for clash-free segments the result has every covering segment before the segments it strictly covers and otherwise runs from left to right; SortSegmentsByOrder additionally puts segments with equal tokens into the order in which their infos appear in the list of distinct infos (all infos being listed). Segments that the rules do not separate keep their relative order.",
  ["inputs"], "all clash-free segment lists within the bound, all infos and orders",
  "Tests sort two fixed lists; whether a comparator is a consistent ordering can only be decided over all pairs and triples.",
  ["segment.go"], [("comparators over sort.Stable", "segment.go SortSegments, SortSegmentsByOrder")], ["resulting slice"])

p("C19", "Segmentate tiles the text without gaps or overlaps",
  "For segments that lie in order without overlap inside the segment (or the scanner's text), Segmentate returns the given segments in order, with every gap filled by one non-empty segment carrying the surrounding info, so that the result runs contiguously from start to end; if a given segment is out of order, overlaps its predecessor or leaves the range, it returns an error instead.",
  ["inputs"], "all segment lists within the bound over all marker values",
  "Tests segmentate two fixed lists; adjacency, empty segments and out-of-order lists are not covered.",
  ["segment.go", "token.go"], [("repeated Split of the rest", "segment.go Segmentate")], ["returned slice and error"])

p("C20", "Appending to a graph keeps a faithful hierarchy",
  "After any sequence of Append calls, the graph contains exactly the segments that were accepted, each once; every node's children lie inside it, do not overlap one another and stand from left to right, and the root covers everything. A segment that clashes with an accepted one is refused with ok=false and leaves the graph exactly as it was; a segment that clashes with none is accepted and, unless it is empty or equal to another one, ends up below the smallest accepted segment that covers it.",
  ["histories", "inputs"], "all sequences of segments within the bound, all marker values",
  "The one graph test builds one fixed tree; refusals and their side effects, reverse insertion orders and empty or equal segments depend on the whole history.",
  ["graph.go"], [("recursive ranking", "graph.go rankNodes, Append")], ["Root", "Nodes", "ok"])

p("C21", "Graph views agree with the tree",
  "For every graph, Leafs returns exactly the segments of the nodes without children in left-to-right order, Equal holds exactly for graphs of the same shape with the same segments, and FlameStack has one line per node, in depth-first order, whose path names the node's ancestors, each as its place among its siblings counted from 1, a dot and the segment, and whose count is the node's length.",
  ["inputs", "histories"], "all graphs within the bound",
  "Tests look at the leaves of one fixed tree.",
  ["graph.go"], [("tree walks", "graph.go appendLeafs, Equal, makeStackLines")], ["Leafs()", "Equal()", "FlameStack()"])

p("C22", "The basket holds exactly the picks of the accepted parse",
  "When a read with picking readers (around readers that only move forward) ends, the basket of the scanner contains exactly the segments picked along the successful derivation, in the order in which the picked parts ended, and none from alternatives, repetitions or look-aheads that were tried and given up; after a failed read it holds what it held before. Moving the scanner back drops exactly the picks that end behind the new position. A new basket is empty and coupled to the scanner, whatever was coupled before.",
  ["inputs", "programs"], "all texts, all backtracking patterns of the combinators within the bound",
  "Only one test picks at all; abandoned branches leave traces only for particular texts.",
  ["tracker.go", "reader.go"], [("Tracker.Update on every move", "tracker.go Basket.Update; scanner.go Move, ToMarker"), ("Pick", "tracker.go pickReader")], ["Picked()"])

p("C23", "Observing a parse does not change it",
  "Wrapping any reader with Pick, Map, Monitor or Named, putting it into a Rule, or coupling a Basket to the scanner changes neither whether a read with Use succeeds nor where the scanner ends nor the error marker.",
  ["inputs", "programs"], "all texts, positions and arbitrary wrapped readers; for the grammars: all texts within the bound",
  "No test runs the same read with and without observers.",
  ["tracker.go", "monitor.go", "reader.go", "grammar.go"], [("delegating readers", "tracker.go pickReader, monitor.go monitorReader, reader.go mapReader/namedReader, grammar.go Rule")], ["result", "Mark()", "error"])

p("C24", "The monitor log records every attempt faithfully",
  "After a monitored read the log has exactly one entry per attempt of a monitored reader, in the order in which the attempts began, with the reader's info, the position at which it began, its nesting level, the position at which it ended and the error it ended with (nil on success). Reset empties the log; called in the middle of a read it leaves exactly the attempts that begin afterwards, with levels counted from there.",
  ["histories", "programs"], "all nestings and outcomes of monitored readers within the bound",
  "No test reads the log; the loss of an outer entry's result depends on how many inner entries are appended meanwhile.",
  ["monitor.go"], [("Enter/Exit bracket", "monitor.go Log.Enter, Log.Exit, monitorReader")], ["Log.Entries"])

p("C25", "The JSON grammar accepts exactly RFC 8259 texts",
  "For every valid UTF-8 text, reading it with the JSON grammar and reaching the end of the text happens exactly when the text is a JSON text according to RFC 8259; reading always terminates and, on failure, returns an error without moving the scanner.",
  ["inputs"], "all texts up to the length bound, plus templates with symbolic parts for longer constructs",
  "Tests parse four valid documents and no invalid one.",
  ["grammar/json.go"], [("grammar rules", "grammar/json.go JSON")], ["error", "AtEnd()"])

p("C26", "JSON picks describe the parsed document",
  "For every JSON text that is accepted, the picked segments of any rule are exactly the spans of that construct in the text (each value, object, members, member, key, array, elements, element, string, characters, character, escape, hex digit, number, integer, digits, leading digit, fraction, exponent, sign, white space, bool and null once; constructs that may be empty are considered where they are not), they do not clash, and building a graph from them accepts all and nests them like the document.",
  ["inputs", "configurations"], "all accepted texts up to the bound, all subsets of picked rules considered",
  "No test picks from JSON.",
  ["grammar/json.go", "tracker.go", "graph.go"], [("Pick on rules", "grammar.go Rule.Pick"), ("BuildGraph", "graph.go")], ["Picked()", "BuildGraph"])

p("C27", "Lua lexical readers accept what the manual allows",
  "At every position of a valid UTF-8 text the Lua numeral, string, comment and name readers read exactly the longest element of the following forms and fail without moving if there is none: numerals (digits, or 0x and hex digits, with optional fraction of a dot and digits and optional exponent), strings (in quotes, without bare line breaks, with the escapes of the Lua 5.4 manual; or in long brackets of any level, closed by the first bracket of the same level), comments (two hyphens, then a long bracket or everything up to the next line feed or the end of the text), names (letter or underscore, then letters, digits, underscores, and no reserved word). Escapes of numbers too large for a character and long comments without end are left open.",
  ["inputs"], "all texts up to the bound",
  "Tests read four string literals.",
  ["grammar/lua.go"], [("LuaNumeral, LuaString, LuaComment", "grammar/lua.go")], ["error", "Mark()"])

p("C28", "MXT chunks are read back exactly as written",
  "For every sequence of chunks with arbitrary names, comments, salts and contents, any number of blanks before the name and around the salt, in which no content contains a line starting with its own salted marker or ends in a carriage return, the MXT grammar accepts the text made of them, reads it to the end, and reports exactly the written names and contents in order.",
  ["inputs"], "all names, salts and contents up to the bound, one or two chunks",
  "Tests read two fixed documents.",
  ["grammar/mxt.go", "reader.go"], [("MXT rules", "grammar/mxt.go"), ("Janus salt", "reader.go Janus")], ["mapped names and contents"])

p("C29", "A Janus pair matches the same text at both ends",
  "After the first reader of a Janus pair has matched a text, the second succeeds exactly where that same text stands, as often as it is tried, until the first reader matches again; look-ahead or searching with the second reader does not change what it expects.",
  ["inputs", "histories"], "all texts, all orders of using the two readers within the bound",
  "Only the grammars use Janus, on fixed texts.",
  ["reader.go"], [("captured literal", "reader.go janusBeginReader, janusEndReader")], ["result", "Mark()"])

p("C30", "Line and column match the text before the position",
  "LineCol(tab) returns 1 plus the number of line breaks before the position, and 1 plus the width in bytes of the text since the last line break, every tab counting as tab columns; \"\\r\\n\" counts as one line break, just as \"\\n\".",
  ["inputs"], "all texts and positions up to the bound, tab widths 0 to 64",
  "Tests check a few positions in one text.",
  ["scanner.go"], [("line splitting", "scanner.go LineCol")], ["LineCol"], POS)

p("C31", "Rule names and grammar checks reject exactly what is invalid",
  "CheckRuleName accepts a name exactly if it is a letter followed by letters, digits or any of + - . _, to the end of the name; CheckRules accepts a grammar exactly if all its rules have such a name and a reader; SetRuleNames gives every exported Rule field the name in its tag, or reports an error if that is not valid, and CollectRules returns the Rule fields in order.",
  ["inputs", "configurations"], "all names up to the bound, all combinations of missing names and readers",
  "Tests check a few valid and invalid names; names with a valid beginning and an invalid rest are not among them.",
  ["grammar.go"], [("RuleName reader", "grammar.go RuleName, CheckRuleName, CheckRules, SetRuleNames")], ["error"])

p("C32", "Misconfigured readers never read and are always visible",
  "A combinator given a value that is neither rune, string nor Reader, and a range list that is malformed, yields a reader that fails on every text without moving; its description (What, or the Rule line of a rule), and that of every reader built from it other than Named, Rule and the end of a Janus pair, contains the invalid-reader marker so that HasInvalidReader reports it, while well-formed readers are not reported; HasInvalidReader reports exactly the texts that contain the marker, AnyHasInvalidReader exactly the lists with such a text.",
  ["configurations", "inputs"], "all constructor arguments within the bound, all texts",
  "Tests cover a few malformed arguments and no composition.",
  ["reader.go", "grammar.go"], [("InvalidReader", "reader.go asReader, BetweenAny, BuildBetweenAny, HasInvalidReader")], ["What()", "Read"])

p("C33", "Every grammar terminates on every input",
  "Reading any byte string at all, well-formed or not, with the JSON, Lua or MXT grammar terminates without panic, either successfully with the scanner inside the text or with an error and the scanner unmoved.",
  ["inputs"], "all byte strings up to the length bound",
  "Tests feed valid documents only; a hang needs a particular truncation or a particular malformed byte.",
  ["grammar/json.go", "grammar/lua.go", "grammar/mxt.go", "reader.go"], [("combinators make progress", "reader.go")], ["termination", "error", "Mark()"])

p("C34", "The Lua grammar reads exactly the chunks of the manual",
  "A sequence of Lua tokens (reserved words, names, decimal integers, quoted and long strings, operators and punctuation) that is separated by white space or comments wherever two neighbours could be taken for another token is read to its end by the Lua grammar exactly if it is a chunk by the complete syntax in section 9 of the Lua 5.4 manual. So all statements, expressions, operators, table constructors, calls, function definitions, attributes, labels and varargs are read; white space and comments may stand between any two tokens; reserved words are no names, and names may begin with one. The script rule reads a first line that begins with #! and ends in a line break, if there is one, and then as far as the chunk rule.",
  ["inputs"], "all token sequences up to the bound, all chunks of a list that covers every production with one token replaced, dropped or added, or with other white space and comments",
  "Tests read three fragments and the empty chunk.",
  ["grammar/lua.go", "reader.go"], [("Lua", "grammar/lua.go Lua")], ["error", "AtEnd()"])

p("C35", "Lua picks describe the program",
  "For every such chunk that is read to its end, the non-empty picks of a rule are exactly the constructs of that name in the program, each once, in the order in which they end, up to white space and comments around them: names, numerals, strings, operators, comments, fields, table constructors, function parameters, bodies, definitions, arguments and names, call statements, expression, name, variable and attribute lists, labels, and every kind of statement. The picks do not clash, so that a graph accepts all of them. This holds for any selection of rules, also for all rules as NewBasketFor picks them.",
  ["inputs", "configurations"], "the chunks of C34 up to the bound",
  "No test picks from a Lua program.",
  ["grammar/lua.go", "tracker.go", "graph.go"], [("Lua", "grammar/lua.go Lua"), ("NewBasketFor", "tracker.go")], ["Picked()", "Graph.Append"])

p("C36", "Descriptions, messages and logs show the true names and positions",
  "What() of a reader is built from the What() of its parts in order (Seq \"a b\", Any \"[ a b ]\", SkipSeq \"(>skip> a b )\", At @a, Not !a, Opt ?a, Zom *a, Many +a, Times n*a, To ->a, Past -->a, Body -(a-b)-, BodyTail -(a-+b)-, Janus $name<a and $name, a range <az> or, of one rune, that rune quoted, range lists [< az AZ \"singles\" >], AnyRune [\"abc\"], Fold ~\"abc\", Holey (<az> - \"holes\"), bool{\"format\"}, int{base,size}, uint{base,size}, @END), with texts and runes quoted as in Go (strconv.QuoteToGraphic); Map, Pick and Monitor do not change it, Named and Rule give their name, and Rule.Rule() and GrammarLines give \"name: what\". The error of a leaf, repetition or search names the reader's What, and an error's message tells that name and the marker as \"not able to read what at marker\"; that of Segmentate is \"invalid token\" and the segment, that of a grammar its language, \"parse error:\" and the message of what failed. Tokens, segments and baskets are shown as [from-to), info[from-to) and segments joined by \";\". The printed log has one line per entry in order with level, dots, position and info, and the preview quotes the first n characters of the text from the entry's byte position on.",
  ["inputs", "configurations"], "all names, infos and literals up to the bound, all readers, every position in texts with characters of 1 to 4 bytes",
  "Tests compare the description of three grammars' rules and previews of ASCII text counted from the start.",
  ["reader.go", "grammar.go", "error.go", "token.go", "segment.go", "tracker.go", "monitor.go"], [("What", "reader.go"), ("String", "token.go, segment.go, tracker.go, monitor.go"), ("Error", "error.go")], ["What()", "String()", "Error()", "standard output of Print and PrintWithPreview"])

p("C37", "The picks of a parse build one graph whose leafs tile the text",
  "For every read with forward moving, picking readers, and for every JSON, Lua or MXT text read with picked rules, BuildGraph(name, Picked()) holds every non-empty pick exactly once, below the picks of the readers that were read around it (also when they read the same extent) and from left to right; Scanner.Segmentate accepts the graph's Leafs, and the texts of the resulting segments in order are the whole text, the known ones being the leafs. For segments that neither clash nor coincide nor are empty the graph does not depend on the order in which they are given, so sorting them first changes nothing.",
  ["inputs", "programs", "histories"], "all texts and nestings of picking readers within the bound; all non-clashing segments",
  "No test goes from a parse to a graph and back to the text; picks of equal extent, gaps at both ends and given up branches only meet in the whole pipeline.",
  ["tracker.go", "graph.go", "segment.go", "token.go", "reader.go"], [("picks to graph", "tracker.go pickReader, graph.go BuildGraph"), ("leafs to tiles", "graph.go Leafs, segment.go Segmentate")], ["Picked()", "Root", "Leafs()", "Segmentate"])

p("C38", "The MXT grammar reads exactly the chunks of a text",
  "Reading any text with the MXT grammar, at any position, succeeds exactly if a chunk stands there, and reads all chunks, separated by single line breaks, up to the first text that is none; otherwise nothing is read. A chunk is a marker (two slashes and word characters), blanks, a name (word characters), a comment (any text up to the word that holds the first arrow), that word up to the end of the arrow -->, optionally blanks, a salt (word characters or nothing) and blanks, and then the end of the text, the next marker, or a line break and the content up to the next marker or the end of the text; the next marker is a line break, two slashes and the salt. The picks of marker, name, comment, arrow, salt (with its blanks), header, content, chunk and chunks are exactly these parts.",
  ["inputs"], "all texts within the bound, including malformed headers and bytes that are no UTF-8",
  "Tests read two well-formed documents; what is refused, and how far a document with a damaged chunk is read, depends on the text.",
  ["grammar/mxt.go", "reader.go"], [("MXT rules", "grammar/mxt.go MXT")], ["error", "Mark()", "Picked()"])

p("C39", "A tracker is told where the scanner goes",
  "Whatever is done with a scanner that has a Tracker (any scanning, moving, marker or reading operation, any read with built-in readers over forward moving ones, with any grammar), the last position the tracker was told with Update is the position of the scanner, both when the operation is over and whenever a reader inside of it begins (a tracker that was told nothing yet may take the position at which it was coupled). Every position it is told lies inside the text, and none lies before both the start and the end of the operation, so that nothing that was collected before the start is dropped by an operation that ends at or behind it.",
  ["inputs", "programs"], "all texts, positions, arguments and behaviours of sub-readers within the bound",
  "No test uses a tracker other than Basket, and a movement that is not told, or told on the way to another place, shows only with picks at the right places.",
  ["scanner.go", "scanner_rev.go", "read.go", "reader.go", "token.go", "tracker.go"], [("Move, ToMarker", "scanner.go"), ("sub-scanner of Body and BodyTail", "reader.go useUpTo")], ["Update calls", "Mark()"])

p("C40", "Reads are repeatable and independent of one another",
  "What a read shows depends only on the text, the position and the reader: a grammar or reader (whose parts do not keep a state themselves) that is used again for the same text at the same place, with the same or another scanner, after whatever other reads, successful or not, ends at the same position with the same result, the same error and, for a grammar picked into a new basket, the same picks; its description stays the same. Two grammars of the same language, two scanners, two baskets, two logs and two graphs share nothing: picking from or monitoring one grammar shows nothing of what is read with the other. Segmentate, BuildGraph and Append leave the lists they are given alone, and the lists that Segmentate and Leafs return are the caller's own.",
  ["histories", "inputs", "configurations"], "all texts within the bound, sequences of up to three reads, both orders of making and using grammars",
  "Tests use every grammar, reader and scanner once; shared or left over state shows only in a second use.",
  ["reader.go", "scanner.go", "tracker.go", "monitor.go", "segment.go", "graph.go", "grammar.go", "grammar/json.go", "grammar/lua.go", "grammar/mxt.go"], [("constructors", "grammar/*.go JSON, Lua, MXT"), ("combinators", "reader.go"), ("Segmentate", "segment.go"), ("Leafs", "graph.go")], ["error", "Mark()", "Picked()", "Entries", "What()"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
