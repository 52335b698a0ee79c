# The properties, as written to properties.jsonl by gen.py.
T = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    T.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None)))
TE = "src/testing/test.rs"
DB = "src/testing/database.rs"
CE = "src/testing/calc_eval.rs"
VM_OBS = ["records of the tables after a run", "verdict lines printed per test"]

prop("V01", "A conditional block runs exactly its first true branch",
     "When a test script reaches an if/elif/else block, exactly the steps of the first branch whose condition holds run (the else branch when none does, nothing when there is no else), once and in order, and execution then continues with the step after the block. This holds at any nesting depth, in any branch position, and for conditions whose variables are changed by the chosen branch.",
     ["programs", "inputs"], "every if/elif/else block structure within the stated nesting and arm bounds, every value of the variables its conditions test",
     "The existing test runs one loop with no conditional; the branch taken and where control resumes depend on the whole nesting structure and on every combination of condition values.",
     [TE, "src/burn_script/compiler.rs", "src/compile/parser.rs"],
     [("conditional steps and skipping of untaken branches", TE + " step()"), ("steps of a script body", "src/burn_script/parser.rs")], VM_OBS)
prop("V02", "A loop repeats until its own exit fires, then the next step runs",
     "A loop runs its steps from first to last again and again until one of its own exit steps (an exit condition, or leaving after the last record) fires; then the step after that loop runs next. The exit belongs to the innermost loop around it wherever it stands, also inside conditionals, loops may be nested or follow one another, and values set inside a loop remain set after it.",
     ["programs", "inputs"], "every loop shape within the bounds, every starting value and exit count of the loop variables, every number of records walked",
     "One existing test runs a single counting loop to a fixed count; nesting, exits inside conditionals and the position of the exit are never combined.",
     [TE], [("loop, exit_loop_if, end of loop and record walk steps", TE + " step()")], VM_OBS)
prop("V03", "A script call runs the callee to its end in a scope of its own",
     "Performing a script runs exactly the steps of the script whose name the calculation gives, and then the caller continues with its next step; a name that no script has runs nothing. Caller and callee never see or change each other's variables, however deep the chain of calls and wherever the call stands (in loops, in branches, as the last step). An assertion that fails inside a callee ends the whole test.",
     ["programs", "inputs"], "every call shape within the bounds, every value of the variables and every name within the bounds",
     "No existing test performs a script at all.",
     [TE], [("perform_script and the stack of scopes", TE + " step()")], VM_OBS)
prop("V04", "Every test gets its own true verdict, independent of other tests",
     "Running a set of tests reports each test exactly once, in order and by name: as failed exactly when one of its assertions evaluates to false, and no step after a false assertion runs. With clean-up between tests, what a test does and its verdict do not depend on any test that ran before it.",
     ["programs", "histories", "inputs"], "every combination of assertion outcomes, every number of tests within the bounds, every earlier test among those generated",
     "The existing tests run one test each and look at its final state; what one test leaves behind for the next is never exercised.",
     [TE, DB], [("run_tests, load_test and clean-up", TE + " run_tests()/run_tests_with_cleanup()/load_test()"), ("assert step", TE + " step()")], VM_OBS)
prop("V05", "A variable reads as the last value set under exactly its name",
     "Within a script, a variable's value is the one most recently set under exactly that name, evaluated before the assignment takes effect, and empty when it was never set; setting one variable never changes another, including one whose name is a prefix, an extension or a case variant of it. Text of any printable characters passes through variables unchanged.",
     ["histories", "inputs"], "every sequence of assignments and reads within the bounds, every single-letter name of a small set, every printable text within the length bound",
     "The existing tests set one counter; overwriting, self-reference, similar names and arbitrary text are not reached.",
     [TE, "src/compile/lexer.rs"], [("set_variable and variable lookup", TE + " step()/get_operand_val()")], VM_OBS)
prop("K01", "Arithmetic follows precedence, left associativity and brackets",
     "A calculation over numbers with + - * / and brackets has the value of ordinary arithmetic: products and quotients before sums and differences, equal precedence from left to right, brackets first. Blanks and line breaks do not change the value, and numbers may be written as digits, with decimals, or stand in variables.",
     ["inputs", "programs"], "every operator sequence and bracket placement within the bounds, every digit value",
     "The existing tests evaluate three fixed expressions; precedence and associativity depend on the whole operator sequence and bracketing.",
     [CE, TE], [("expression parser", CE + " parse_*"), ("tokens and evaluation", TE + " eval_calculation()/evaluate()")], VM_OBS)
prop("K02", "Comparisons order numbers by value and text by its characters",
     "Each of == != < <= > >= between two numbers answers by their numeric values, whatever their number of digits or decimals, and between two texts by their characters; the operands may be whole arithmetic or concatenation calculations, which bind tighter. The answer is the same as a value, as an assertion, as a branch condition and as a loop exit.",
     ["inputs", "programs"], "every operator, every pair of operand forms and values within the bounds, every use of the answer",
     "The existing tests compare one pair of single digits for equality and never order numbers of different length or texts.",
     [CE, TE, DB], [("comparison evaluation", TE + " evaluate()"), ("comparison parsing", CE + " parse_comparison()")], VM_OBS)
prop("K03", "Concatenation joins every operand's characters once, in order",
     "A text literal evaluates to exactly its characters, whatever printable characters it holds, and & joins its operands (literals, numbers, variables, fields, sums, joined texts) into one text with every operand's characters once and in order. Brackets around a concatenation do not change it and arithmetic binds tighter than it.",
     ["inputs", "programs"], "every printable character in a literal, every operand kind and grouping within the bounds",
     "The one existing concatenation test joins two fixed words; characters that look like operators, brackets or quotes' neighbours are never used.",
     [CE, TE], [("string tokens", TE + " eval_calculation()"), ("concatenation", TE + " evaluate() / " + CE + " parse_concatenation()")], VM_OBS)
prop("K04", "A function call takes all its arguments and stands for its value",
     "A call of a built-in function takes each of its comma-separated arguments as a whole calculation (with operators, brackets and further calls) and yields the function's value: the smallest argument of Min, the absolute value by Abs, the character by Char, the account by Get. The call may stand wherever an operand may, on either side of any operator, without swallowing or losing what surrounds it.",
     ["inputs", "programs"], "every argument shape, nesting depth, operator context and digit value within the bounds",
     "No existing test calls a function with more than one argument, nests calls or uses a call as an operand.",
     [CE, TE], [("function call parsing", CE + " parse_func_call()/parse_args()"), ("built-in functions", TE + " evaluate()")], VM_OBS)
prop("K05", "A field reference reads the named field of the current record",
     "A reference Occurrence::field reads the named field of the named occurrence's current record and nothing else, wherever that occurrence stands in its found set and whichever layout is shown, and is empty when there is no current record. It may be used anywhere an operand may (arithmetic, concatenation, comparison, function arguments), its names may contain letters, digits and underscores, and text read through it is unchanged.",
     ["histories", "inputs"], "every position of every occurrence within the bounds, every name form listed, every calculation context listed, every printable text within the length bound",
     "No existing test reads a field in a calculation.",
     [TE, DB], [("field operand evaluation", TE + " get_operand_val()"), ("record lookup", DB + " get_current_record_by_table_field()")], VM_OBS)
prop("R01", "A new record is one blank record, current in its table's occurrences",
     "Creating a record adds exactly one record with empty fields at the end of the shown occurrence's table; every occurrence of that table includes it at the end of its found set and stands on it, and no other table or occurrence changes. This holds whatever records, found sets and positions existed before.",
     ["histories"], "every sequence of layout changes, creations and assignments within the bounds",
     "No existing test creates a record.",
     [DB, TE], [("create_record", DB + " create_record()")], VM_OBS)
prop("R02", "Navigation moves inside the found set and never leaves it",
     "Going to the first, last, next, previous or n-th record moves the shown occurrence to that record of its found set, stopping at the first and last record instead of leaving the set, and to none when the set is empty. Other occurrences keep their positions, and records outside the found set are never landed on.",
     ["histories", "inputs"], "every sequence of moves, every number of records and every found set within the bounds",
     "No existing test moves between records.",
     [DB, TE], [("goto_*_record", DB), ("go_to_record step", TE + " step()")], VM_OBS)
prop("R03", "A find shows exactly the matching records of the whole table",
     "After a find with one criterion, the shown occurrence's found set is exactly the records of the whole table (whatever was found before) whose named field equals the criterion's value, in creation order, standing on the first; showing all records gives every record in creation order. Entering criteria stores nothing in any record, and the found sets of other occurrences do not change.",
     ["histories", "inputs"], "every assignment of values to records, every criterion and every earlier find within the bounds",
     "No existing test performs a find.",
     [DB, TE], [("find mode and perform_find", TE + " step()"), ("update_found_set/reset_found_set", DB)], VM_OBS)
prop("R04", "Setting a field changes exactly that one value",
     "Setting Occurrence::field stores the calculation's value in exactly the named field of the named occurrence's current record; no other field, record, table, found set or position changes. This holds for any positions, found sets and shown layout, and for values computed from fields, including the same one.",
     ["histories", "inputs"], "every position of the occurrences, every sequence of assignments and every value within the bounds",
     "No existing test sets a field.",
     [TE, DB], [("set_field step", TE + " step()"), ("field access", DB + " get_current_record_by_table_field_mut()")], VM_OBS)
prop("R05", "A related lookup gives the first joined record's value",
     "Looking up a field of another occurrence through the relationships gives the value in the first record, in creation order at each hop, that the relationship's comparison joins to the current record, with numbers compared by value and text by its characters; when no record is joined, or no relationships connect the occurrences, there is no value. The answer does not depend on which side of the relationship was declared first or how many relationships lie between.",
     ["inputs", "histories", "configurations"], "every comparison, key value, record count and current record within the bounds, both declaration directions, one and two hops",
     "No existing test performs a related lookup.",
     [DB, "src/testing/relation_mgr.rs", "src/component.rs"], [("get_related_record_field", DB), ("path through the relationships", "src/testing/relation_mgr.rs")], ["result of a related lookup"])
prop("R06", "A path between occurrences exists exactly when they are connected",
     "For any set of relationships, a path between two table occurrences is found exactly when relationships connect them; it starts and ends at the two, follows only existing relationships in either direction, and is a shortest one. The search always ends, also when relationships form cycles or are added twice.",
     ["configurations", "inputs"], "every relationship graph on up to the stated number of occurrences, every pair of them, any order and direction of adding",
     "The existing test looks up three paths in one fixed graph.",
     ["src/testing/relation_mgr.rs"], [("breadth-first search", "src/testing/relation_mgr.rs get_path()")], ["path returned for two occurrences"])
prop("R07", "Going to a layout shows its occurrence exactly as it was left",
     "Going to a layout by name, given or computed, shows the occurrence that layout is based on, with its found set and position as they were left (or as record creation moved them); several layouts may show one occurrence, and a name that no layout has changes nothing. Steps that follow act on the shown occurrence only.",
     ["histories", "configurations", "inputs"], "every assignment of layouts to occurrences, every sequence of visits and every name within the bounds",
     "No existing test changes layouts.",
     [TE, "src/testing/layout_mgr.rs", DB], [("go_to_layout step", TE + " step()"), ("layout lookup", "src/testing/layout_mgr.rs lookup()")], VM_OBS)
prop("R08", "Clean-up between tests leaves no record, found set or position",
     "After the clean-up between tests every table is empty, every occurrence's found set is empty, and a program run afterwards sees and leaves exactly what it would on a fresh database. This holds whatever records, finds and moves happened before.",
     ["histories"], "every earlier history and every later program among those generated, all record values within the bounds",
     "No existing test runs anything after a clean-up.",
     [DB, TE], [("clear_records", DB + " clear_records()"), ("run_tests_with_cleanup", TE)], VM_OBS)
EU = "src/encoding_util.rs"
CK = "src/chunk.rs"
DC = "src/decompile/decompiler.rs"
prop("E01", "Path numbers and their stored form determine each other",
     "Every directory number from 0 to 1151 is stored in one byte below 128 or in two bytes whose first is at least 128, and reads back as the same number; different numbers never share a form. A stored form reads as its first byte (one byte), as 128 plus the ten low bits (two bytes), or as the twenty low bits (three bytes), whatever the other bits are.",
     ["inputs"], "every number 0..1151 and every byte sequence of up to four bytes",
     "The existing test converts about ten fixed numbers.",
     [EU], [("get_path_int/put_path_int", EU)], ["value read from and bytes written for a path number"])
prop("E02", "Stored integers keep their value and their order",
     "Every 32-bit integer is stored as exactly four bytes, most significant first, and reads back unchanged, so stored integers sort byte by byte as the numbers do. One-, two- and four-byte forms read as their big-endian value.",
     ["inputs"], "every 32-bit number, every byte sequence of up to five bytes",
     "The existing test converts two fixed numbers.",
     [EU], [("get_int/put_int", EU)], ["value read from and bytes written for an integer"])
prop("E03", "Stored text reads back as exactly the text written",
     "Any text is stored as one byte per byte of its UTF-8 form, each combined with the format's mask 0x5A, and reads back as the same text, including text outside ASCII. Bytes that are no text under the mask read as a fixed message and never crash.",
     ["inputs"], "every text of the bounded number of characters of one to four bytes each, and every byte sequence within the bound",
     "The existing test reads four fixed ASCII words and never writes one.",
     [EU], [("fm_string_encrypt/fm_string_decrypt", EU)], ["text read back"])
prop("E04", "Catalog names keep their characters through the two-byte encoding",
     "A catalog name made of letters, blanks and underscores is written as each character's own two-byte code, in order, and reads back unchanged apart from letter case, with or without its zero terminator. Characters outside that set take the zero code without disturbing their neighbours, and unknown codes read as a question mark.",
     ["inputs"], "every name over the character set within the length bound, every ASCII name within its length bound, every pair of bytes",
     "The existing tests convert two fixed names in one direction.",
     ["src/dbcharconv.rs"], [("encode_text/decode_bytes and the mapping", "src/dbcharconv.rs")], ["bytes written and text read for a name"])
prop("B02", "Every chunk code is decoded to its own kind, extent, key and data",
     "For each of the 256 code bytes, decoding at any place in a file yields the chunk kind, the key or segment number, exactly the stated data bytes and the directory change the format defines for that code, and continues at the first byte after the chunk. A code the format does not have is refused, leaving the directory path unchanged.",
     ["inputs"], "every code byte, every following byte, every stated length within the bound, two places in the buffer",
     "No existing test decodes a chunk.",
     [CK], [("get_chunk_from_code", CK)], ["decoded chunk, next offset and directory path"])
OUT = ["decompiled file (tables, fields, occurrences, relationships, layouts, scripts, data sources)"]
prop("B01", "The directory path is always the directories opened and not closed",
     "Reading any run of chunks yields exactly those chunks, one after the other, and reports with each chunk the path of directories opened so far and not yet closed, by number and in order of nesting; closing outside any directory changes nothing. On arbitrary bytes every step either moves forward or refuses, so reading always ends.",
     ["inputs", "histories"], "every run of chunks within the bound (pushes in all stored forms, both pop codes, pops attached to other chunks, values), every byte string within its bound",
     "No existing test decodes a chunk, let alone a run of them.",
     [CK], [("get_chunk_from_code and its path argument", CK)], ["chunks, offsets and paths while reading"])
prop("B04", "Sectors are read exactly once, in the order of their chain",
     "Decompiling reads the sectors the chain names, from the second sector on, each exactly once and in chain order wherever they lie in the file, from the first payload byte to the last, starting each outside every directory. A chain that never ends or leaves the file is refused instead of read forever or answered with a result; a sector's header gives its deletion mark, level, predecessor and successor.",
     ["inputs", "configurations"], "every assignment of successors to the sectors of a file within the bound, every header byte",
     "No existing test decompiles a file.",
     [DC, "src/decompile/sector.rs"], [("sector walk", DC + " decompile_fmp12_file()"), ("header fields", "src/decompile/sector.rs get_sector()")], OUT)
prop("D01", "Every table and field of a file is recovered with its own attributes",
     "Decompiling a file yields exactly the tables it holds, each under its number with its name, and in each exactly its fields, each under its number with its own name, description and creating account and user. This holds for any numbers the format can store, any order and stored form of the entries, and when a directory continues in a later sector.",
     ["inputs", "configurations"], "every number of tables and fields, stored form, cut into sectors and name within the bounds",
     "No existing test decompiles a file.",
     [DC, CK], [("table and field entries", DC + " decompile_fmp12_file()")], OUT)
prop("D02", "A stored calculation is shown as its own text, element by element",
     "The text shown for a stored calculation is the text of its elements joined in stored order: each operator, bracket, function name and blank as its sign or name, a text literal in double quotes, a variable by its name, a whole number below 256 by its digits. Names and literals keep every character, including non-ASCII ones, and no element is lost, repeated or taken for part of its neighbour.",
     ["inputs", "programs"], "every sequence of elements within the bound, every text, variable name and number within theirs",
     "No existing test decompiles a calculation.",
     [DC], [("decompile_calculation", DC)], ["text of calculations in decompiled steps"])
prop("D03", "Every script keeps its steps in order, each with its own parameters",
     "Decompiling a file gives each script exactly its steps, in stored order, each with the instruction of its code and its number, whether the steps are stored in one piece or in numbered segments; codes without an instruction are left out. Each set-variable step has its variable and value, each other step its calculation, and each perform-script step the quoted name of the script it calls (empty quotes when there is none); parameters of a step never reach another one.",
     ["inputs", "programs"], "every step code, step numbers of every stored form, every sequence of steps, segmentation and cut into sectors within the bounds",
     "No existing test decompiles a script.",
     [DC, "src/fm_script_engine/fm_script_engine_instructions.rs"], [("script steps and segments", DC + " decompile_fmp12_file()/assemble_script()"), ("step codes", "src/fm_script_engine/fm_script_engine_instructions.rs INSTRUCTIONMAP")], OUT)
prop("D04", "Content without a place in the result changes nothing",
     "Chunks and directories that stand for nothing the result holds (fillers, long-keyed values, directories of unknown purpose with anything inside), placed anywhere between a file's entries, and a cut into another sector at any place, leave the decompiled result exactly as it was.",
     ["inputs", "configurations"], "every place in a file with objects of every kind, eight kinds of meaningless content with symbolic bytes, every cut into two sectors",
     "No existing test decompiles a file.",
     [DC, CK], [("selection of entries by path", DC + " decompile_fmp12_file()")], OUT)
prop("D05", "Occurrences and relationships are recovered with what they connect",
     "Decompiling a file gives every table occurrence under its number with its name and the table it shows, and every relationship exactly once under its number, although it is listed at both of its occurrences: connecting those two (the first listed first), with its comparison and the compared field on each side. This holds for any numbers the format can store.",
     ["inputs", "configurations"], "every set of occurrences and relationships within the bounds, every comparison byte, field and table number",
     "No existing test decompiles a file.",
     [DC, "src/component.rs"], [("occurrence, relationship and criterion entries", DC + " decompile_fmp12_file()")], OUT)
prop("D06", "Every layout is recovered with its name and its occurrence",
     "Decompiling a file yields exactly its layouts, each under its number with its own name and the number of the occurrence it shows. This holds for any numbers the format can store, with other entries and directories inside the layout's, and when its directory continues in a later sector.",
     ["inputs", "configurations"], "every number of layouts, number, name, occurrence and cut into sectors within the bounds",
     "No existing test decompiles a file.",
     [DC], [("layout entries", DC + " decompile_fmp12_file()")], OUT)
prop("D07", "Objects of every kind are found wherever they stand, none twice",
     "Decompiling a file lists each script of its catalog under its number and name, with its steps if it has any, and finds the tables, fields, occurrences, layouts, scripts and data sources of one file whatever the order of their directories and whichever sectors hold them. No object appears twice, under another kind or with another's name.",
     ["inputs", "configurations"], "every order of the directories and cut into sectors within the bound, every script number and name within theirs",
     "No existing test decompiles a file.",
     [DC], [("script catalog and other entries", DC + " decompile_fmp12_file()")], OUT)
prop("D08", "Every data source is recovered with its name and its location",
     "Decompiling a file yields exactly its data sources, each under its number with its own name, creating user and location: the kind of source, the path with its separator and parent-directory codes written out as ':', '/' and '..' and its filler code left out, and the file name. A source without a location has an empty one.",
     ["inputs", "configurations"], "every set of sources, path of up to the bounded number of elements and file name within the bounds",
     "No existing test decompiles a file.",
     [DC, "src/component.rs"], [("data source entries", DC + " decompile_fmp12_file()"), ("location bytes", "src/component.rs SourceFileLocation::from_bytes()")], OUT)
CL = "src/compile/lexer.rs"
CP = "src/compile/parser.rs"
SL = "src/burn_script/lexer.rs"
SP = "src/burn_script/parser.rs"
COUT = ["objects of the compiled file"]
prop("C01", "Every declaration of a source becomes one object, in order, as named",
     "Compiling a burn source yields exactly one object per declaration (table, table occurrence, relationship, value list, script, test), numbered in the order written within its kind and with exactly the names written: an occurrence its own and its table's, a relationship its two occurrences', a test its own and its script's. Any sequence of declarations, any identifiers (also ones resembling words or numbers of the language) and any blanks between words give the same objects.",
     ["programs", "inputs"], "every sequence of declarations, every identifier and every arrangement of blanks within the bounds",
     "The existing compiler test compiles one source; the sequence of declarations and the spelling of names vary without end.",
     [CL, CP, "src/compile/compiler.rs"], [("words and names", CL), ("declarations", CP + " parse()")], COUT)
prop("C02", "Every script step keeps its kind, its place and its exact arguments",
     "Compiling a script gives exactly its steps in the order written, each with the instruction of its name and with each comma-separated argument as written, blanks around it aside; commas, brackets and marks inside nested brackets or quoted texts belong to the argument. Each script keeps its own name and parameters, and a test's script is compiled like any other.",
     ["programs", "inputs"], "every sequence of steps of the language and every argument text built within the bounds",
     "The existing test compiles one script with simple arguments; what an argument may contain varies without end.",
     [SL, SP, CL], [("tokens of a script", SL), ("steps and arguments", SP + " parse()")], COUT)
prop("C03", "Every block of a script closes exactly where its brace closes",
     "Compiling a script turns each loop, if, elif and else block into its opening step (with its condition), the steps of its body and the matching closing step, in order: a loop closes with the end-of-loop step, a conditional with one end-if step after its last branch. This holds for any nesting and any number of branches, and steps after a block follow its closing step.",
     ["programs"], "every nesting of blocks, branches and steps within the bounds, conditions with any printable character",
     "The existing test compiles one loop; which closing step belongs to a brace depends on the whole nesting.",
     [SP, SL], [("blocks and their ends", SP + " parse()")], COUT)
prop("C04", "What stands inside a declaration neither ends it nor changes another",
     "Texts in quotes, calculations in braces, options and their arguments, values of lists, criteria of relationships and the text of scripts, whatever they contain (words of the language, brackets, commas, semicolons, ends of declarations), neither end the declaration they stand in nor add, remove or change any other object of the source.",
     ["inputs", "programs"], "every option, text, value, criterion and name within the bounds, with every printable character in the texts",
     "The existing test compiles one source with harmless texts.",
     [CL, CP], [("strings, calculations and script text", CL), ("bodies of declarations", CP + " parse()")], COUT)
prop("C05", "A declaration not named, marked or ended as required is refused",
     "A source in which a declaration has no name, lacks a mark it needs (a colon, a bracket, an occurrence's table), ends with another kind's end or without closing its end, in which something stands that is no declaration, or in which a step, condition or brace of a script is left open before the next, is refused with a diagnostic; it is never compiled into objects other than those written.",
     ["inputs", "programs"], "each of the stated malformations, alone and next to well-formed declarations of every kind",
     "No existing test compiles a malformed source.",
     [CP, SP, CL], [("expected tokens of a declaration", CP), ("expected tokens of a step", SP)], ["refusal of the source"])
AS = "src/compile/assembler.rs"
AOUT = ["the assembled file"]
prop("A01", "An assembled file lists every table and occurrence by number and name",
     "Assembling a file stores in its catalogs every table and every occurrence exactly once, each under its own number and its own name in the format's encoding, however many there are. Every table has one directory of its own, and the stated counts of tables, scripts and layouts are those of the file.",
     ["inputs", "configurations"], "every number of tables and occurrences, table numbers, occurrence numbers and names within the bounds",
     "The existing tests assemble no file, but check the code of three values.",
     [AS, "src/dbcharconv.rs", EU], [("tables", AS + " emit_table_metadata()"), ("occurrences", AS + " emit_relationship_data()")], AOUT)
prop("A02", "An assembled file has its name, a whole chain of sectors and whole chunks",
     "An assembled file keeps the fixed header with the file's own name and a closing slash in its place, states the number of its sectors, and links them in a chain that visits each once and ends. Every stored value has a code fitting its size, every directory opened is closed again, and the decompiler reads the file without finding anything that was not written.",
     ["inputs", "configurations"], "every file name, number of objects and size of a value within the bounds",
     "The existing tests check the code of three values; what the assembled bytes say depends on all that is written.",
     [AS, CK, "src/compile/header.rs"], [("sectors", AS + " assemble_fmp12()"), ("values", AS + " emit_simple_kv()/emit_long_kv()/push_directory()"), ("codes", AS + " calc_small_kv_ins()")], AOUT)
CO = "src/component.rs"
prop("J01", "The report holds every object of a file with every attribute",
     "The JSON report of a file is well formed and holds every table with its fields, every occurrence, relationship, value list, layout, script with its steps and arguments, data source and test, each under its number with every attribute exactly as in the file. This holds for any text, quotes, backslashes and control characters included.",
     ["inputs", "configurations"], "every text of any attribute, one at a time, and every comparison of a relationship",
     "No existing test looks at a report.",
     [CO, "src/file.rs", "src/main.rs"], [("attributes of objects", CO), ("objects of a file", "src/file.rs FmpFile"), ("steps", "src/fm_script_engine/fm_script_engine_instructions.rs ScriptStep")], ["the report (inspect_output)"])
MN = "src/main.rs"
prop("M01", "Each source given is reported and assembled under its own name",
     "Compiling a source NAME.burn on the command line, wherever it lies and whatever it declares, writes a report of exactly its objects and assembles them into NAME.fmp12. Several sources given at once are each assembled into a file of their own.",
     ["programs", "configurations"], "every sequence of declarations, five forms of a path, arguments in any order, two sources of the same kinds",
     "No existing test runs the program.",
     [MN, "src/cli.rs", CP, AS], [("compiling", MN + " main()"), ("options", "src/cli.rs CLI")], ["inspect_output/test_compile", "NAME.fmp12"])
prop("M02", "The tests given and the tests of a source are run unless told not to",
     "The program runs each test of the -t sources in the order given and then each test of the compiled source, once, and announces each one's outcome: success if all its assertions hold, failure if one does not. Tests given with -t are run against a decompiled file as well; with --no-testing none is run.",
     ["programs", "configurations"], "every number of tests within the bounds over two -t sources and a compiled source or a decompiled file, the last test with either outcome",
     "No existing test runs the program.",
     [MN, "src/cli.rs", "src/testing/test.rs"], [("running tests", MN + " main()"), ("options", "src/cli.rs CLI")], ["announced outcomes"])
prop("M03", "Decompiling on the command line reports the whole file and leaves it alone",
     "Decompiling a file on the command line writes a report holding exactly the objects of that file, with the header asked for or not, with testing or not, and whatever file was decompiled before it. The file itself is not changed.",
     ["inputs", "configurations"], "a file with objects of every kind, each with any printable character in its name, four command lines",
     "No existing test runs the program.",
     [MN, "src/cli.rs", DC], [("decompiling", MN + " main()"), ("options", "src/cli.rs CLI")], ["inspect_output/test_decompile"])

prop("M04", "Tests use the objects of the program they are run against",
     "A test run from the command line can call the scripts of the compiled source or decompiled file it is run against, and uses the tables, fields, occurrences and layouts of a decompiled file. The verdict is success exactly if the value read back, from a variable of a called script or from a record created there on any layout, is the one expected.",
     ["programs", "configurations"], "every value stored and expected, every way to the record, every form of the command line within the bounds",
     "No existing test runs the program.",
     [MN, "src/testing/test.rs", DC, CP], [("collecting the objects", MN + " main()"), ("the test environment", "src/testing/test.rs TestEnvironment")], ["announced outcomes"])
