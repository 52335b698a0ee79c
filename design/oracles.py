# per property: what is symbolic, against what meaning it is compared
O = {
"V01": "programs with conditional blocks are built as trees; every step leaves a mark (a record), and the marks left must be those of the first true branch. Symbolic: shape, conditions, variable values.",
"V02": "program trees with loops; the meaning walks the tree. Symbolic: place and kind of exits, counts, records walked.",
"V03": "caller and callees as trees with scopes of their own. Symbolic: calls' places, names, values.",
"V04": "verdict lines compared with the assertions' truth; a test run after any of ten kinds of test compared with the same test run alone.",
"V05": "a map from names to values, applied assignment by assignment. Symbolic: names, values, order.",
"K01": "a recursive evaluator over the operator list, on rationals. Symbolic: operators, brackets, blanks, operand digits.",
"K02": "numeric comparison of the two values, or comparison of the characters. Symbolic: operator, operand digits and letters, forms.",
"K03": "the list of characters of the operands. Symbolic: every character, operand kinds, brackets.",
"K04": "minimum and absolute value over the arguments' values. Symbolic: digits, nesting, operators around the call, characters of texts.",
"K05": "the record tables of dbkit. Symbolic: positions, occurrence, field, context, characters.",
"R01": "dbkit: lists of records, found sets and positions, stepped operation by operation and compared whole at the end. Symbolic: the operations.",
"R02": "dbkit, moves. Symbolic: number of records, found set, moves, numbers held by variables.",
"R03": "dbkit, finds. Symbolic: values, criterion, field, repetition.",
"R04": "dbkit, assignments. Symbolic: positions, fields, names, characters.",
"R05": "a direct search over the two record lists with the comparison as stated. Symbolic: keys, comparison, side, hops.",
"R06": "breadth-first distances on the adjacency matrix. Symbolic: every edge, start, end, ids.",
"R07": "dbkit, layout changes. Symbolic: order of visits, what is done in between, layout-to-occurrence assignment, names.",
"R08": "the same program on a cleaned and on a fresh database. Symbolic: what was there before, the program.",
"E01": "the format's arithmetic for one-, two- and three-byte numbers, and injectivity. Symbolic: numbers, bytes.",
"E02": "big-endian value and lexicographic order. Symbolic: all 32 bits.",
"E03": "bytes xor 0x5A; UTF-8 validity by its own definition. Symbolic: every character.",
"E04": "the format's code table. Symbolic: every character, every byte pair.",
"B01": "a stack of directory numbers. Symbolic: kinds of chunks, their sizes and numbers.",
"B02": "a table of the format: code byte to kind, extent, key, data and directory change. Symbolic: code byte and all that follow.",
"B04": "the chain followed over the header's numbers. Symbolic: successors, header bytes, sizes.",
"D01": "the tables and fields written into the file. Symbolic: numbers, names, attributes, storage form, order.",
"D02": "the element texts joined. Symbolic: elements, numbers, names, characters.",
"D03": "the steps written into the file. Symbolic: codes, numbers, parameters, segmentation, sector cuts.",
"D04": "the result of the same file without the meaningless content. Symbolic: its kind, its bytes, its place, the cut.",
"D05": "the occurrences and relationships written. Symbolic: numbers, comparison, fields, tables.",
"D06": "the layouts written. Symbolic: numbers, names, occurrence, what stands inside.",
"D07": "the objects written. Symbolic: numbers, names, order of directories, cuts.",
"D08": "the data sources written. Symbolic: kind, path elements, names, numbers.",
"C01": "the declarations written. Symbolic: kinds, names, blanks.",
"C02": "the steps and arguments written. Symbolic: instruction, argument pieces, characters.",
"C03": "the statement tree flattened to steps. Symbolic: the tree.",
"C04": "the declarations written around and after the content. Symbolic: the content's words and characters.",
"C05": "the source must be refused. Symbolic: the malformation and the declarations around it.",
"A01": "the assembled bytes are read back by the harness's own reader. Symbolic: number of objects, numbers, names.",
"A02": "header, chain and chunk codes of the assembled bytes, checked by the format. Symbolic: name, objects, sizes.",
"J01": "the report is parsed by the harness's own JSON reader and compared with the file. Symbolic: every attribute's text.",
"M01": "`main` is run; reports and assembled files read back. Symbolic: path, declarations, order of arguments.",
"M02": "`main` is run; announcements compared with the tests' outcomes. Symbolic: tests, their outcomes, arguments.",
"M04": "`main` is run on a test and a program; the announced verdict is success exactly if the value expected is the one stored. Symbolic: both values, way to the record, command line.",
"M03": "`main` is run on a file; report and file afterwards. Symbolic: names, path, command line.",
}
