# Which harnesses decide which property, with what bounds. Quick parameters in q, thorough ones in t.
PROPS = {}
NOT_APPLICABLE = {}
def P(id, files, runs, bounds, outside, **k):
    if id[0] in "VKR":
        # the interpreter has recorded defects: what fails must be one of them
        k["repaired"] = True
        for r in runs: r.setdefault("max_steps", 30_000_000)
    PROPS[id] = dict(files=files, level="model_checking", bounds=bounds, outside=outside, runs=runs, **k)
def R(fn, q=(), t=None, what="", **k):
    d = dict(fn=fn, witness=["end"], params=list(q), what=what); d.update(k)
    if t is not None: d["thorough"] = dict(params=list(t))
    if fn in ("h_many", "h_long"): d.setdefault("max_steps", 1_000_000_000)
    return d
DB = ["vmkit", "dbkit"]
VP = ["vmkit", "vmprog"]

P("V01", ["vmkit", "V01"], [
    R("h_chain", [3, 3], [4, 5], what="flat if/elif/else chains"),
    R("h_nested", [4, 2, 1], [4, 2, 2], what="blocks nested in every branch position"),
    R("h_changed", what="the chosen branch changes the variable the conditions test")],
  "up to 3 arms (thorough 5), nesting 2 (thorough 3), up to 4 condition variables of any of 2-3 values, == and != conditions",
  "conditions with other operators are K02's; more arms or deeper nesting")
P("V02", VP + ["V02"], [
    R("h_count", [5], [8], what="one counting loop, the exit anywhere in it"),
    R("h_nested", [3], [4], what="a loop in a loop, also inside a conditional"),
    R("h_exit_in_if", [4], [5], what="exits inside conditionals"),
    R("h_sequence", [3], [4], what="two loops in sequence, also inside branches"),
    R("h_walk", [4], [6], what="a walk over the records")],
  "up to 4 iterations (thorough 7) of each of up to two nested or consecutive loops, up to 3 records walked (thorough 5)",
  "loops without any exit; more iterations; three levels of loops")
P("V03", VP + ["V03"], [
    R("h_private", what="variables of caller and callees"), R("h_anywhere", what="calls in loops, branches and last position"),
    R("h_name", what="computed and unknown names"), R("h_chain", [3], [5], what="chains of calls"), R("h_fail", what="failing assertion in a callee")],
  "call chains of up to 3 scripts (thorough 5), names of up to 3 symbolic characters, variable values of one digit",
  "script arguments and exit_script results (the language's runtime has none); recursion")
P("V04", VP + ["V04"], [
    R("h_verdict", what="assertions anywhere, any outcome"), R("h_report", [2], [4], what="one verdict per test, in order"),
    R("h_isolated", what="a test after any other compared with the same test alone")],
  "3 assertions of any outcome, up to 2 tests reported (thorough 4), 10 kinds of earlier test against 9 kinds of later test with symbolic values",
  "more than two tests in sequence for the isolation part")
P("V05", VP + ["V05"], [
    R("h_history", [2], [3], what="any history of assignments"), R("h_names", what="similar names"),
    R("h_text", [2], [4], what="text of any printable characters"), R("h_self", [3], [6], what="counters")],
  "histories of 2 steps (thorough 3) over 3 names plus final reads, 8 similar names pairwise, texts of up to 2 characters (thorough 4)",
  "names starting with a digit; non-ASCII text")
P("K01", ["vmkit", "K01"], [
    R("h_flat", [3, 0, 1], [4, 0, 0], what="flat operator sequences, blanks and line breaks"), R("h_flat", [4, 1, 0], [5, 1, 0], what="with one bracketed span"),
    R("h_tree", [1], [2], what="nested brackets"), R("h_values", what="operand forms")],
  "up to 4 operands (thorough 5) with any operators and one bracketed span, balanced bracket nesting 1 (thorough 2), one symbolic operand per expression, all digits in two-operand expressions",
  "unary minus (not in the language); more than one symbolic operand in longer expressions; numbers of more than 3 digits")
P("K02", ["vmkit", "K02"], [
    R("h_numbers", what="numbers of different lengths"), R("h_texts", [2], [3], what="texts"), R("h_operands", what="arithmetic operands"), R("h_joined", what="concatenated operands")],
  "numbers of 1-2 digits or one decimal, texts of up to 2 letters (thorough 3), one arithmetic or concatenation operation per side",
  "a number compared with a text; chained comparisons")
P("K03", ["vmkit", "K03"], [
    R("h_literal", [2], [4], what="literals of any printable characters"), R("h_join", [1], [2], what="operands of every kind"), R("h_group", what="brackets and joined texts"), R("h_sum", what="precedence")],
  "literals of up to 2 (thorough 4) printable ASCII characters, joins of 2 (thorough up to 3) operands of 7 kinds",
  "quotes inside literals (no escape in the language); non-ASCII text")
P("K04", ["vmkit", "K04"], [
    R("h_min", [2, 1], [3, 2], what="argument lists"), R("h_operand", what="calls as operands"), R("h_text", what="texts and characters"), R("h_marks", what="brackets and commas inside text arguments")],
  "up to 2 arguments (thorough 3), calls nested 2 deep (thorough 3), 9 operator contexts, all digits and printable characters",
  "an empty argument list; Get arguments other than the account name; text arguments of Abs")
P("K05", DB + ["K05"], [
    R("h_current", [2], [3], what="any positions of the occurrences"), R("h_in_calc", what="calculation contexts and name forms"), R("h_text", [2], [4], what="any printable text")],
  "up to 2 (thorough 3) records per table, 3 occurrences over 2 tables, 10 calculation contexts, 6 field names, texts of up to 2 (thorough 4) characters",
  "names with blanks or non-ASCII characters")
P("R01", DB + ["R01"], [R("h_create", [4], [5], what="sequences of layout changes, creations and assignments"), R("h_in_found_set", [3], [4], what="creation inside a found set")],
  "sequences of 4 operations (thorough 5) over 3 occurrences of 2 tables, then everything read back; up to 3 (thorough 4) records with symbolic values before a find",
  "creation while entering criteria")
P("R02", DB + ["R02"], [R("h_moves", [3, 2], [4, 3], what="any moves over any number of records"), R("h_found", [3, 2], [4, 2], what="moves inside a found set"), R("h_apart", [2], [3], what="occurrences move on their own"), R("h_computed", what="computed numbers and directions")],
  "up to 3 records (thorough 4), 2 moves (thorough 3), every found set of them",
  "the position after a find that matches nothing")
P("R03", DB + ["R03"], [R("h_find", [3], [4], what="any values and criterion, repeated finds"), R("h_first", [3], [4], what="position, other occurrences"), R("h_field", [2], [3], what="the criterion's field only"), R("h_whole", what="whole values")],
  "up to 3 records (thorough 4) with any of 3 values, up to 2 finds in a row, 3 occurrences",
  "several criteria in one find; the found set and position after a find that matches nothing")
P("R04", DB + ["R04"], [R("h_local", [2, 2], [3, 2], what="any positions, any assignments"), R("h_found", [3], [4], what="inside a found set"), R("h_computed", what="computed values"), R("h_names", what="similar names")],
  "up to 2 records (thorough 3) and 2 assignments over 3 occurrences of 2 tables, symbolic characters, 8 similar field names in each of 4 occurrences of similar names",
  "setting a field when there is no current record")
P("R05", ["vmkit", "R05"], [R("h_direct", [2], [3], what="one relationship"), R("h_numbers", what="numbers of several digits"), R("h_texts", what="texts"), R("h_hops", [2, 2], [2, 4], what="two relationships in a row"), R("h_self_or_none", what="own occurrence and unconnected ones")],
  "up to 2 records (thorough 3) per occurrence with any keys 0-3, 7 comparisons, both directions, two hops with 2 (thorough 4) comparison pairs",
  "several criteria in one relationship; more than two hops; a number compared with a text")
P("R06", ["R06"], [R("h_path", [4], [5], what="every graph"), R("h_ids", what="symbolic ids")],
  "every graph on 4 occurrences (thorough 5), every start, every end",
  "larger graphs")
P("R07", DB + ["R07"], [R("h_return", [2], [3], what="visits with finds, moves and creations"), R("h_names", [2], [3], what="layout names"), R("h_computed", what="computed and symbolic names")],
  "sequences of 2 visits (thorough 3) over 3 occurrences, every assignment of 3 layouts to 3 occurrences, names of 2 symbolic characters",
  "several layouts of the same name")
P("R08", DB + ["R08"], [R("h_clean", [2], [3], what="a program on cleaned records compared with the same on a fresh database")],
  "up to 2 records (thorough 3) with symbolic values per table before, 4 kinds of later program on any of 3 occurrences",
  "longer histories")

P("E01", ["E01"], [R("h_round", what="round trip of every number"), R("h_apart", what="distinct encodings"), R("h_value", what="value of any bytes")], "every number 0..1151, every byte sequence of up to 4 bytes", "numbers above 1151 (three-byte form is never written)")
P("E02", ["E02"], [R("h_round", what="round trip"), R("h_order", what="order"), R("h_value", what="value of any bytes")], "every 32-bit number, every byte sequence of up to 5 bytes", "numbers above 32 bits")
P("E03", ["E03"], [R("h_round", [2], [3], what="texts of any characters"), R("h_ascii", [6], [12], what="ASCII texts"), R("h_any", [3], [4], what="any bytes"), R("h_long", [7], what="long texts")],
  "texts of up to 2 (thorough 3) characters of 1 to 4 bytes, ASCII texts of up to 6 (thorough 12), any 3 (thorough 4) bytes; texts of 7 lengths from 63 to 5000 with one character of any kind at 3 places", "long texts with several symbolic characters; the few lead bytes e0, ed, f0, f4 with restricted followers are covered by the any-bytes part only")
P("E04", ["E04"], [R("h_round", [3], [4], what="names over the character set"), R("h_ascii", [2], [3], what="any ASCII name"), R("h_decode", what="any two bytes"), R("h_long", [9], what="long names")],
  "names of up to 3 (thorough 4) characters of the set, any ASCII names of up to 2 (thorough 3), every pair of bytes; names of 9 lengths from 31 to 300 with one symbolic character at 3 places", "long names with several symbolic characters; names of odd byte length beyond a trailing zero")
P("B02", ["B02"], [R("h_all", [3], [8], what="every code byte"), R("h_long", what="long data and keys")],
  "every code byte and every following byte, stated lengths 0..3 (thorough 0..8), chunk at offset 0 or 3; 14 codes with stated lengths of up to 2050 and keys of up to 255 bytes, partly symbolic", "other long lengths; chunks cut short by the end of the file")
FM = ["fmpkit"]
P("D01", FM + ["D01"], [R("h_schema", [2, 2], [3, 2], what="several tables and fields"), R("h_field", [2, 2], [3, 3], what="everything stored about a field"), R("h_forms", [9], [40], what="values of any size"), R("h_apart", [7], [7], what="numbers agreeing in their low bits"), R("h_ids", [0], [1], what="any table and field number"), R("h_sectors", [0], [1], what="entries spread over sectors"), R("h_many", [260], [700], what="many tables or fields")], 
  "up to 2 tables (thorough 3) of up to 2 fields, names of 2 symbolic characters, two (thorough three) of the four attributes per field in any order and form, every table number 0..1023 and field number 0..1151 (quick: those around byte boundaries), one cut (thorough two) into sectors; 260 tables or fields (thorough 700)",
  "field types (stored in a form the result shows undecoded); longer names (E03)")
P("B01", ["B01"], [R("h_path", [3], [4], what="the path over any run of chunks"), R("h_any", [3], [3], what="any bytes"), R("h_long", [200], [600], what="long runs, deep nesting")], 
  "runs of 3 chunks (thorough 4) of 9 kinds, any 3 bytes followed by zeros; runs of 200 chunks and directories nested that deep (thorough 600)",
  "long runs of any mixture; arbitrary byte strings of more than 3 bytes")
P("B04", FM + ["B04"], [R("h_header", what="header fields"), R("h_order", [3], [4], what="any chain, cycles included"), R("h_outside", what="chains leaving the file"), R("h_edge", what="the last bytes of a sector"), R("h_long", [260], [700], what="long chains")], 
  "up to 4 sectors in the chain (thorough 5) with any successors, every header byte, entries ending within 2 bytes of a sector's end; chains of 260 sectors (thorough 700)",
  "a successor naming the first sector; deleted sectors (their mark is read, and not acted on); a first sector stating an absurd number of blocks")
P("D02", FM + ["B04", "D02"], [R("h_sequence", [3], [3], what="every element in every order"), R("h_values", [2], [4], what="numbers, texts and variables"), R("h_mixed", [2], [3], what="operands and operators"), R("h_large", [200], [255], what="long calculations", max_steps=1_000_000_000), R("h_one", what="one long text or name")], 
  "sequences of 3 elements of 24 kinds, texts and names of up to 2 (thorough 4) characters of one or two bytes, every number 0..255, 2 (thorough 3) operands with any operator and brackets",
  "numbers of 256 and more; element codes the decompiler does not know; calculations cut off inside an element")
P("D03", FM + ["opkit", "D03"], [R("h_code", what="any step code and number"), R("h_steps", [2, 1], [3, 1], what="several steps with parameters"), R("h_scripts", [2], [3], what="several scripts calling each other"), R("h_segments", [2], [3], what="segments in any order"), R("h_many", [260], [600], what="long scripts, many scripts")], 
  "every step code with 7 step numbers; scripts of 2 (thorough 3) steps of 8 kinds, in one piece or in 2 segments, parameters in the same or the next sector, names before or after the steps; 2 scripts of up to 2 (thorough 3) calls; up to 3 (thorough 4) segments in any order; scripts of 260 steps and 260 scripts (thorough 600)",
  "long scripts of any mixture of steps; script numbers above 255 as call targets; steps cut short")
P("D05", FM + ["D05"], [R("h_occurrences", [2], [3], what="occurrences"), R("h_relationships", [2], [3], what="relationships"), R("h_ids", [0], [1], what="any numbers"), R("h_many", [260], [600], what="many occurrences and relationships")], 
  "up to 2 (thorough 3) occurrences and relationships over 3 sets of numbers, every comparison byte, field byte and table byte; other occurrence any number 0..4095 (quick: around byte boundaries), any relationship number 0..255 (quick: a sample); 260 occurrences each related to the next (thorough 600)",
  "relationships with several criteria; tables above 255; a relationship of an occurrence with itself")
P("D06", FM + ["D06"], [R("h_layouts", [3], [3], what="layouts"), R("h_ids", [0], [1], what="any numbers and names"), R("h_many", [260], [600], what="many layouts")], 
  "up to 3 layouts over 3 sets of numbers, every occurrence 0..127, every layout number 0..2047 (quick: around byte boundaries), names of up to 3 characters; 260 layouts (thorough 600)",
  "occurrences above 127")
P("D07", FM + ["B04", "D07"], [R("h_names", [2], [3], what="script names"), R("h_renamed", what="later names"), R("h_all", [4], [7], what="objects of every kind"), R("h_many", [270], [700], what="many objects of every kind")], 
  "up to 2 (thorough 3) scripts over 3 sets of numbers; seven directories with objects of six kinds, a script's steps before or after its name, the first 4 (thorough all) in any order, one cut into sectors; 270 objects of every kind (thorough 700)",
  "more objects with any numbers (D01, D03, D05, D06, D08)")
P("D08", FM + ["D08"], [R("h_sources", [2], [2], what="data sources"), R("h_paths", [3, 1], [4, 3], what="paths"), R("h_many", [260], [600], what="many data sources")], 
  "up to 2 sources over 3 sets of numbers, paths of up to 3 (thorough 4) elements, file names of up to 1 (thorough 3) characters; 260 data sources (thorough 600)",
  "paths whose own characters collide with the special codes; locations of other layouts")
P("D04", FM + ["B04", "D04"], [R("h_junk", what="meaningless content at any place, any cut into sectors"), R("h_near", what="directories next to those with a meaning")], 
  "one piece of meaningless content of 6 kinds at any of 78 places, with or without a cut into a second sector there",
  "several pieces at once; chunk codes the format does not have (B02: refused)")

BK = ["burnkit"]
P("C01", BK + ["C01"], [R("h_sequence", [3], [4], what="any sequence of declarations"), R("h_names", [2, 2], [3, 3], what="any names"), R("h_long_names", [15], [20], what="long names"), R("h_words", what="names like words of the language"), R("h_blanks", [2], [2], what="any blanks"), R("h_many", [260], [700], what="many declarations"), R("h_letters", what="letters outside of ASCII")],
  "up to 3 declarations (thorough 4) of 6 kinds in any order, names of any 1-15 characters (thorough 1-20) and 20 names like words of the language, any of 4 blanks at 2 places at once; 260 declarations (thorough 700) of one or all kinds; non-ASCII letters in names",
  "longer names of arbitrary characters; more declarations in any order")
P("C02", BK + ["opkit", "C02"], [R("h_arguments", [2, 1, 9], [2, 2, 9], what="the text of arguments"), R("h_text", [4], [8], what="texts in quotes"), R("h_steps", [2, 1], [2, 2], what="any steps, several scripts"), R("h_parameters", [3], [4], what="any parameters"), R("h_test", [2, 9], [3, 9], what="a test's script"), R("h_long", [300], [1000], what="long scripts, argument lists and arguments")],
  "up to 2 arguments of one piece (thorough 2) of 9 kinds with symbolic characters, texts of up to 4 (thorough 8) printable characters, up to 2 scripts of one (thorough 2) of the 14 steps with up to 2 arguments and parameters; scripts of 300 steps, lists of 300 arguments and parameters, arguments of 300 characters (thorough 1000)",
  "steps the language does not know (they are skipped with a message); long arguments of any characters")
P("C03", BK + ["opkit", "C02", "C03"], [R("h_blocks", [3, 4], [4, 5], what="any nesting"), R("h_shape", [4], [7], what="long chains and deep nesting"), R("h_many", [70], [300], what="many blocks, in a row or inside one another")],
  "up to 4 statements (thorough 5) nested up to 3 (thorough 4) deep, chains of up to 4 (thorough 7) further branches, nesting of up to 4 (thorough 7) blocks; 70 blocks (thorough 300) in a row or inside one another",
  "more statements in any nesting")
P("C04", BK + ["C04"], [R("h_fields", [2, 1], [3, 1], what="options of a field"), R("h_field_names", [2], [3], what="names of fields"), R("h_values", [2, 2], [3, 2], what="values of a list"), R("h_criteria", [2], [3], what="criteria"), R("h_script", [2], [5], what="texts of scripts"), R("h_words", what="words of the language"), R("h_long", [270], [600], what="long content")],
  "up to 2 options (thorough 3) of 7 kinds with any printable characters, 17 field names, up to 2 values (thorough 3) of up to 2 characters, up to 2 criteria (thorough 3), texts of 2 (thorough 5) characters in scripts; 270 fields, options, values or criteria, or one text of that many characters (thorough 600)",
  "long texts of any characters; characters of four bytes")
P("C05", BK + ["C05"], [R("h_end", what="wrong end"), R("h_semicolon", what="end not closed"), R("h_name", what="no name"), R("h_top", what="no declaration"), R("h_marks", what="missing marks"), R("h_steps", what="script steps, blocks and branches not closed"), R("h_cut", what="source cut off"), R("h_script_cut", what="script cut off")],
  "the stated malformations alone, before, after and between any of 6 well-formed declarations",
  "unknown script steps (skipped with a message); braces of a calculation and quotes left open to the end of the source")
AK = ["asmkit"]
P("A01", AK + ["A01"], [R("h_names", [2, 1], [2, 2], what="any names"), R("h_many", [6, 6, 20], [24, 16, 60], what="any number of objects"), R("h_numbers", [2], [4], what="any numbers")],
  "up to 6 tables and occurrences (thorough 24 and 16) with names of up to 20 (thorough 60) characters of a few letters, one name of 1 (thorough 2) characters over all letters the format stores; two tables, one with any number 1..255, two occurrences of any of 9 numbers up to 65535",
  "names over 126 characters; tables above 255; more objects than a sector holds (the assembler panics); fields, relationships, layouts, scripts and value lists (the assembler writes counts of them at most)")
P("A02", AK + ["A02"], [R("h_layout", [3, 2], [8, 3], what="sectors and name"), R("h_read", [3], [6], what="assembled files are read"), R("h_code", [40], [200], what="codes of values")],
  "file names of up to 3 (thorough 8) characters of one or two bytes, table numbers at either end of 1..255, up to 2 (thorough 3) tables and occurrences with or without other objects, values of up to 40 (thorough 200) bytes",
  "more objects than a sector holds (the assembler panics); values over 255 bytes")
P("J01", ["jsonkit", "J01"], [R("h_report", [1], [2], what="every attribute any text"), R("h_empty", what="objects of some kinds only"), R("h_many", [260], [600], what="many objects, long texts")],
  "one object of every kind with every attribute, one of whose texts is empty or any 1 (thorough 2) characters of one byte, or of two, three or four bytes of a sample of ranges, every value of the enumerations; 260 objects (thorough 600) of one kind with texts of up to 300 characters, one symbolic",
  "several objects of a kind with every attribute; texts of several characters of one place with others elsewhere")
MK = BK + AK + ["fmpkit", "jsonkit"]
P("M01", MK + ["M01"], [R("h_compile", [2], [3], what="a source compiled"), R("h_several", [1], [2], what="several sources"), R("h_large", [60], [90], what="many declarations", max_steps=1_000_000_000)],
  "sources of up to 2 declarations (thorough 3) of 6 kinds, five paths, two orders of the arguments; two sources of one (thorough two) declarations each; 60 declarations (thorough 90) of one or all kinds",
  "sources that cannot be read or whose name does not end in .burn (the program panics); several sources of different kinds (objects of the first not replaced stay in the second's file)")
P("M02", MK + ["M01", "M03", "M02"], [R("h_tests", [2], [2], what="tests run"), R("h_many", [260], [500], what="many tests")],
  "up to 2 tests in each of one or two -t sources and the compiled source, at most 5 together; only the last of all may fail; 260 tests (thorough 500) in one source, any of four places failing",
  "tests after a failing one (V04); tests of several compiled sources (they are run again with each further source)")
P("M03", MK + ["M03"], [R("h_decompile", what="a file decompiled")],
  "one file with six objects, any printable character in their names, four paths, six command lines",
  "files that cannot be read; other objects (D01-D08)")
P("M04", MK + ["M04"], [R("h_decompiled", what="against a decompiled file"), R("h_compiled", what="against a compiled source")],
  "a program of two tables, occurrences and layouts and one script, with a value of one character of three stored and compared with another, four ways to the record and three command lines (compiled: three scripts, declared together or apart, each called in turn, four command lines)",
  "tests against several programs at once; records of a compiled source (the compiler reads fields over and makes none); other steps (V*, K*, R*)")
