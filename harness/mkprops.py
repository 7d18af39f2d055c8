#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=observe, hook_needed=hook)))

prop("C01", "Reading yields exactly the records the CSV grammar prescribes",
 "For every text and every dialect (delimiter, quote and escape character each present or absent, non-strict), reading the text yields exactly the records and cells the CleverCSV grammar prescribes: delimiters and line ends split except inside quotes or after an escape, enclosing quotes are removed, a doubled quote inside quotes becomes one, and an escape character is dropped only in front of a delimiter, quote, escape character or line end. No record is lost or added, also when the text ends in the middle of a quoted cell or right after an escape. No other character is lost, added or altered, whatever its Unicode code point and however long the cell.",
 ["inputs"], "all texts, all dialects, all cell lengths and code points",
 "The unit tests parse about a hundred fixed lines; the grammar has nine states, two characters of context and five dialect parameters, so the combinations (escape at end of line inside quotes, a quote that opens mid-cell, CR/LF mixes, data that ends anywhere) are unreachable by samples.",
 ["src/cparser.c", "clevercsv/cparser_util.py", "clevercsv/read.py"],
 [("character-level state machine with one character of look-ahead", "src/cparser.c:parse_process_char"),
  ("removal of enclosing quotes when a cell is stored", "src/cparser.c:parse_save_field"),
  ("end-of-data handling", "src/cparser.c:Parser_iternext")],
 ["clevercsv.reader", "clevercsv.cparser_util.parse_data"],
 [("parser state", "which part of a record is being read", "src/cparser.c:ParserState")])

prop("C02", "Reading does not depend on how or when the text is delivered",
 "The records of a text are the same whether it is delivered as a list of lines, an iterator, an open file or a single string, and through whichever reading entry point, with or without the request to report which cells were quoted. Each record is available as soon as its last line has been delivered, no line is consumed before it is needed, and the reader's record count always equals the number of records returned. Several readers in progress at the same time, in any interleaving, never influence each other.",
 ["inputs", "histories", "schedules"], "all texts, deliveries, and interleavings of several readers' requests",
 "Tests read from one list or one file at a time to completion; no test interleaves readers, watches consumption of the source, or compares entry points.",
 ["src/cparser.c", "clevercsv/cparser_util.py", "clevercsv/read.py"],
 [("per-parser state and pull-based iteration", "src/cparser.c:Parser_iternext"),
  ("reader wraps one parser per iteration", "clevercsv/read.py:reader.__iter__")],
 ["clevercsv.reader.__next__", "clevercsv.reader.line_num", "clevercsv.cparser_util.parse_data", "clevercsv.cparser_util.parse_string"])

prop("C03", "Parse errors are exact, typed, and never silent",
 "A problem in the input - a cell longer than the field size limit in force when iteration began, a NUL character, a line that is not text, text after a bare carriage return in a line, and in strict mode a closing quote not followed by a delimiter or line end, or data that ends inside a record - always raises clevercsv.Error, at the request for the record it occurs in and after all earlier records were returned intact, and nothing else raises (an exception of the line source itself comes through as it is). A reader that is asked again after an error goes on with the next line, with nothing left over from the record that failed. Outside strict mode malformed quoting never raises, and input that strict mode accepts yields the same records as non-strict mode. The field size limit is exact: a cell of exactly the limit is read, one character more is refused.",
 ["inputs", "configurations"], "all texts, dialects, strictness, limits, and error positions",
 "Tests trigger each error once at one position; which record it is attributed to, what was returned before it, off-by-one limits and the equivalence of strict and non-strict mode are universal statements.",
 ["src/cparser.c", "clevercsv/cparser_util.py", "clevercsv/read.py", "clevercsv/exceptions.py"],
 [("limit test on every appended character", "src/cparser.c:parse_add_char"),
  ("error conversion", "clevercsv/cparser_util.py:_parse_data; clevercsv/read.py:reader.__next__")],
 ["clevercsv.reader", "clevercsv.field_size_limit", "clevercsv.cparser_util.parse_data"])

prop("C04", "What the writer writes, the reader reads back",
 "For every table of text cells (without NUL characters, which the reader always refuses) and every dialect with a delimiter, either the writer raises clevercsv.Error because the dialect cannot represent a cell, or reading the written text back with the same dialect yields exactly the same table, cell for cell, including cells with delimiters, quotes, escape characters, line ends, spaces and empty cells and rows. It holds for every form in which the dialect can be given, in strict mode too, and however the writes are divided over single rows and batches.",
 ["inputs", "configurations"], "all tables, all dialects and dialect forms",
 "Writer tests compare a few rows with fixed strings and never read them back with another dialect; the round trip is a relation over the product of all cells and dialects.",
 ["clevercsv/write.py", "clevercsv/dialect.py", "clevercsv/read.py", "src/cparser.c"],
 [("dialect conversion for writing", "clevercsv/write.py:writer._make_python_dialect; clevercsv/dialect.py:to_csv_dialect"),
  ("grammar of the reader", "src/cparser.c")],
 ["clevercsv.writer.writerow", "clevercsv.writer.writerows", "clevercsv.reader"])

prop("C05", "Every form of a dialect means the same, and conversions are lossless",
 "A dialect given by registered name, as a csv dialect class or instance, as a CleverCSV dialect, or through format parameters means the same to the reader, the writer (its line terminator included) and the dict classes; format parameters override the corresponding attributes and no others, and unusable values (None, or longer than one character) are rejected when the reader is created. Converting a CleverCSV dialect to JSON text, to a dictionary, or to a csv dialect and back gives an equal dialect. Equality, hashing and ordering of dialects agree with each other: the order is total, comma dialects come first, then semicolon dialects.",
 ["inputs", "configurations"], "all dialect values and all ways to supply them",
 "Tests use three or four dialects in one form each; laws over all values and the product of forms are not sampled.",
 ["clevercsv/dialect.py", "clevercsv/read.py", "clevercsv/write.py", "clevercsv/dict_read_write.py"],
 [("conversion and validation", "clevercsv/dialect.py:SimpleDialect"),
  ("normalisation of dialect arguments", "clevercsv/read.py:_make_simple_dialect; clevercsv/write.py:_make_python_dialect")],
 ["clevercsv.dialect.SimpleDialect", "clevercsv.reader", "clevercsv.writer"])

prop("C06", "No operation changes its arguments or the global state",
 "Over every history of library calls - creating and advancing readers and writers, dict readers and writers, detection, header detection, type and score computation, succeeding or failing - the arguments passed in (dialects, lists, rows, dictionaries) and the process-wide field size limit stay as they were. Only a call that sets the field size limit changes it: it returns the previous value, rejects non-integers, integers too large for the parser and surplus arguments without effect, and applies to iterations begun afterwards. No call's result depends on which calls were made before, apart from that limit.",
 ["histories"], "all sequences of API calls, including failing ones",
 "Each test starts from a clean state and makes one call; leaks into later calls are properties of histories.",
 ["clevercsv/cparser_util.py", "clevercsv/consistency.py", "clevercsv/read.py", "clevercsv/write.py", "clevercsv/detect.py", "clevercsv/detect_type.py"],
 [("module-level field size limit", "clevercsv/cparser_util.py:field_size_limit"),
  ("copy of the dialect in the reader", "clevercsv/read.py:_make_simple_dialect"),
  ("explicit limit during detection", "clevercsv/consistency.py:compute_type_score")],
 ["clevercsv.field_size_limit", "clevercsv.reader", "clevercsv.Detector.detect"],
 [("field size limit", "largest cell accepted by iterations started from now on", "clevercsv/cparser_util.py:_FIELD_SIZE_LIMIT")])

prop("C07", "DictReader maps every record to the right keys",
 "For every input, DictReader returns one dictionary per non-empty record after the header, in order: the i-th cell under the i-th field name, in field-name order, missing cells as restval, surplus cells as one list under restkey, with a later duplicate name overriding an earlier one and a warning for duplicate names. The field names are the given ones, or else the first record, which is then consumed exactly once, whenever and however often the field names are asked for; no record is lost, repeated or shifted, and line_num is the number of records consumed.",
 ["inputs", "histories"], "all inputs, field names, rest keys and values, and orders of access",
 "Tests read two or three short files with one access pattern; ragged rows, empty records, duplicate names and interleaved access to the field names combine.",
 ["clevercsv/dict_read_write.py", "clevercsv/read.py"],
 [("header handling and padding", "clevercsv/dict_read_write.py:DictReader")],
 ["clevercsv.DictReader.__next__", "clevercsv.DictReader.fieldnames", "clevercsv.DictReader.line_num"],
 [("field names", "unset, given, or taken from the first record", "clevercsv/dict_read_write.py:DictReader._fieldnames")])

prop("C08", "DictWriter writes every dictionary faithfully or not at all",
 "For every sequence of dictionaries DictWriter writes, after the header if asked for, one record per dictionary with the values in field-name order (that of the names in force, should they be reassigned) and restval for missing keys; a dictionary with an unknown key raises ValueError before anything of it is written, unless extra keys are to be ignored, in which case exactly the known fields are written. Text values written in this way and read back with DictReader in the same dialect give the same dictionaries.",
 ["inputs", "histories"], "all field names, dictionaries and sequences of writes",
 "Tests write one or two fixed dictionaries; the relation between what is written and read back is over all of them and over failing calls in between.",
 ["clevercsv/dict_read_write.py", "clevercsv/write.py"],
 [("ordering and extra-key policy", "clevercsv/dict_read_write.py:DictWriter._dict_to_list")],
 ["clevercsv.DictWriter", "clevercsv.DictReader"])

prop("C09", "Table writing is all-or-nothing and lossless",
 "Writing a table to a file either stores exactly the given rows (or exactly their transpose), readable back in the same dialect and encoding, or raises ValueError for rows of unequal length before the target file is touched; a table without rows leaves the target untouched, and so does a write of a table that fails because the dialect or the encoding cannot represent a cell. Writing a list of dictionaries stores the keys of the first as header and then every item in order. Both accept any iterable, consumed once.",
 ["inputs", "configurations"], "all tables, dialects, encodings, iterables and existing target contents",
 "Tests write three small tables; the relation with what is read back, one-shot iterables, ragged and empty tables with an existing target are not sampled together.",
 ["clevercsv/wrappers.py", "clevercsv/write.py", "clevercsv/dict_read_write.py"],
 [("checks before opening the target", "clevercsv/wrappers.py:write_table; clevercsv/wrappers.py:write_dicts")],
 ["clevercsv.write_table", "clevercsv.wrappers.write_dicts", "the target file"])

prop("C10", "The file-level functions agree with detecting and reading by hand",
 "For every file, encoding, number of characters and dialect argument, reading a table, streaming it, reading dictionaries and detecting the dialect of a file give exactly what decoding the file, detecting the dialect on its text (limited to the requested number of characters, for detection only) and reading the whole text with it gives. A given dialect or encoding is used as given, the whole file is always read from its beginning, and when no dialect is found NoDetectionResult is raised, never a partial result.",
 ["inputs", "configurations"], "all file contents, encodings, num_chars values and dialects, given or detected",
 "Tests read a few small ASCII files; agreement between entry points is a relation over all files, and num_chars, encodings with byte-order marks and line-ending styles interact.",
 ["clevercsv/wrappers.py", "clevercsv/detect.py", "clevercsv/read.py", "clevercsv/dict_read_write.py"],
 [("detection on a prefix, then rewinding", "clevercsv/wrappers.py:stream_table; clevercsv/wrappers.py:stream_dicts; clevercsv/wrappers.py:detect_dialect")],
 ["clevercsv.read_table", "clevercsv.stream_table", "clevercsv.read_dicts", "clevercsv.stream_dicts", "clevercsv.detect_dialect", "clevercsv.read_dataframe"])

prop("C11", "Standardizing preserves the table and reports what it did",
 "For every readable input, the standardize command produces text in the RFC-4180 dialect that parses to exactly the table of the input file (or its transpose, short rows padded with empty cells), on standard output, in the named output files or in place, in the requested encoding. The exit code is 0, except 2 if and only if an in-place run changed a file's bytes, and 1 for incompatible options, mismatched counts or failed detection, in which case no file that was not yet processed is touched. Text that is already standard, and detected as such, is left as it is, byte for byte.",
 ["inputs", "configurations"], "all files, options, numbers of files and encodings",
 "Console tests run a handful of fixed files and compare output; the relation between input table, output table, exit code and bytes is universal.",
 ["clevercsv/console/commands/standardize.py", "clevercsv/wrappers.py", "clevercsv/write.py", "clevercsv/read.py"],
 [("option checks and exit code", "clevercsv/console/commands/standardize.py:handle"),
  ("conversion", "clevercsv/console/commands/standardize.py:_write_to_stream")],
 ["the clevercsv standardize command: exit code, stdout, files"])

prop("C12", "Standardizing never destroys data, whenever it fails or is killed",
 "If the standardize command fails or is killed at any point of its execution - a read, decode, parse, encode or write error, or a crash between any two steps - each input file still holds either its complete original content or, with in-place editing, the complete standardized content, never anything else. After a failure that is not a crash no temporary files remain. In-place editing preserves the file's permissions and edits through symbolic links, and an output path equal to the input path is safe.",
 ["crash_points", "fault_sequences"], "every failure or crash position in every mode of the command",
 "No test makes a step fail or stops the program; crash points are invisible to tests that run to completion.",
 ["clevercsv/console/commands/standardize.py"],
 [("temporary file in the target directory and atomic replacement", "clevercsv/console/commands/standardize.py:_in_place"),
  ("output opened only when complete", "clevercsv/console/commands/standardize.py:_to_file")],
 ["directory contents after each crash point"],
 [("input file", "original or standardized content", "the file system")])

prop("C13", "Detection always answers, with a dialect that fits the data",
 "For every text of Unicode characters other than NUL (and for every choice of method, skip flag and candidate delimiters) detection terminates without raising and returns either no result or a dialect whose delimiter, quote and escape character are each empty or a single character occurring in the text; a delimiter from the candidates if these were given; a quote among the recognised quote characters; never a letter, digit, bracket, line end, dot, slash or quote as delimiter on its own account; an escape character only if it is punctuation and precedes a delimiter or quote in the text. The text can then be read with the returned dialect without error.",
 ["inputs", "configurations"], "all texts, methods and candidate delimiters",
 "The tests detect a few dozen files; totality and well-formedness are over all texts, and the fuzz regression tests only pin past crashes.",
 ["clevercsv/detect.py", "clevercsv/normal_form.py", "clevercsv/consistency.py", "clevercsv/potential_dialects.py", "clevercsv/escape.py", "clevercsv/detect_type.py"],
 [("candidate construction", "clevercsv/potential_dialects.py:get_dialects"),
  ("normal forms", "clevercsv/normal_form.py:detect_dialect_normal")],
 ["clevercsv.Detector.detect", "clevercsv.Detector.sniff"])

prop("C14", "The detected dialect is the one the published method selects",
 "For every text and method, detection returns exactly what the documented method selects: with the automatic method the first matching normal form, and otherwise, as with the consistency method, the candidate dialect with the highest consistency score (pattern score times type score), or, among several with the highest score, the one chosen by the tie-breaking rules, or no result if they leave the tie; with the normal method the first matching normal form or no result; the detector records which of the two methods gave the answer. Restricting the candidate delimiters restricts both stages. The compatibility entry points (sniff, the helper functions) give the same answer, and so does verbose mode.",
 ["inputs", "configurations"], "all texts, methods and candidate delimiters",
 "The integration corpus is not available to the tests and compares with past answers, not with the method; a change in any stage that keeps the few unit examples goes unnoticed.",
 ["clevercsv/detect.py", "clevercsv/consistency.py", "clevercsv/normal_form.py", "clevercsv/break_ties.py", "clevercsv/potential_dialects.py", "clevercsv/detect_pattern.py", "clevercsv/detect_type.py"],
 [("method dispatch", "clevercsv/detect.py:Detector.detect"), ("argmax over scores", "clevercsv/consistency.py:ConsistencyDetector.detect")],
 ["clevercsv.Detector.detect", "clevercsv.Detector.method_", "clevercsv.detect_dialect"])

prop("C15", "Skipping, caching and reuse never change the detection result",
 "Leaving out the type score of dialects whose pattern score is already too low never changes the outcome: for every text the selected dialect and the set of best dialects are the same with and without skipping, and every score that is computed is the same in both. The outcome is also independent of the capacity of the type cache and of anything the same detector object has processed before.",
 ["inputs", "histories", "configurations"], "all texts, cache capacities and histories of one detector object",
 "Tests compare skip on and off on a couple of inputs and always use fresh detectors.",
 ["clevercsv/consistency.py"],
 [("pruning by pattern score", "clevercsv/consistency.py:compute_consistency_scores"), ("type cache", "clevercsv/consistency.py:ConsistencyDetector.__init__")],
 ["clevercsv.consistency.ConsistencyDetector.detect", "compute_consistency_scores", "get_best_dialects"])

prop("C16", "Detection is deterministic",
 "The detected dialect, the set and scores of candidate dialects and the outcome of tie breaking for a text depend only on the text and the arguments: they are the same in every process, for every string hash seed, on every repetition, and for every order in which equal candidate dialects are generated or supplied.",
 ["inputs", "configurations", "histories"], "all texts, hash seeds, processes and generation orders",
 "A test run has one hash seed; dependence on the iteration order of sets appears only when seeds are compared.",
 ["clevercsv/consistency.py", "clevercsv/break_ties.py", "clevercsv/potential_dialects.py", "clevercsv/dialect.py"],
 [("candidates are sorted before scoring", "clevercsv/consistency.py:compute_consistency_scores"),
  ("reduced ties are sorted", "clevercsv/break_ties.py:reduce_pairwise"), ("total order on dialects", "clevercsv/dialect.py:__lt__")],
 ["clevercsv.Detector.detect", "clevercsv.break_ties.tie_breaker"])

prop("C17", "The pattern score is computed as defined",
 "For every text and dialect, the row abstraction and the pattern score are the ones the method defines: cells, delimiters, quotes and row ends are abstracted with escapes neutralised and quoted regions (with doubled quotes) merged into cells, empty cells filled in, trailing row ends removed, and the score is the mean over distinct row patterns of their count times (length-1)/length, with the documented minimum for single-cell rows. This holds whatever the length of the text, the number of quoted regions and the code points in it.",
 ["inputs"], "all texts and dialects",
 "The tests abstract about forty short strings; buffer growth, mixed line ends, escapes next to quotes and wide characters are only reached by enumeration.",
 ["src/abstraction.c", "clevercsv/detect_pattern.py"],
 [("abstraction in C", "src/abstraction.c:base_abstraction; src/abstraction.c:c_merge_with_quotechar"), ("score", "clevercsv/detect_pattern.py:pattern_score")],
 ["clevercsv.detect_pattern.make_abstraction", "clevercsv.detect_pattern.pattern_score"])

prop("C18", "Cell types are recognised exactly as defined",
 "For every cell text, quoted or not, the detected type is the first in the documented order (empty, url, email, ipv4, number, time, percentage, currency, unix path, nan, date, datetime, alphanumeric text, byte array, JSON object) whose definition the cell, stripped of surrounding white space, satisfies in full, and unknown if none does. Whether a cell was quoted matters only for the punctuation admitted in text. The answer is a function of the cell alone.",
 ["inputs"], "all cell texts, quoted or not",
 "The type tests contain a few hundred example strings for seventeen regular expressions with alternatives, ranges and look-around; a boundary moved by one (an hour, a digit count, an anchor) passes them.",
 ["clevercsv/detect_type.py", "clevercsv/_regexes.py"],
 [("ordered type tests", "clevercsv/detect_type.py:TypeDetector"), ("type grammars", "clevercsv/_regexes.py")],
 ["clevercsv.detect_type.TypeDetector.detect_type", "is_known_type"])

prop("C19", "Type and consistency scores are the defined ratios",
 "For every text and dialect the type score is the fraction of cells, over all cells of the text as parsed with the dialect and with quoting taken into account, that have a known type, and never less than the documented minimum; the consistency score is the pattern score times the type score; and the best dialects are exactly those with the highest consistency score among those computed. Detection never depends on the field size limit the user set.",
 ["inputs", "configurations"], "all texts, dialects and field size limits",
 "The tests compute a few scores on two-line examples; the definition ranges over all texts and dialects.",
 ["clevercsv/consistency.py", "clevercsv/detect_type.py", "clevercsv/cparser_util.py"],
 [("score computation", "clevercsv/consistency.py:compute_type_score; clevercsv/consistency.py:compute_consistency_scores; clevercsv/detect_type.py:type_score")],
 ["clevercsv.detect_type.type_score", "clevercsv.consistency.ConsistencyDetector.compute_consistency_scores", "get_best_dialects"])

prop("C20", "A normal form is reported only for files that are in it",
 "Normal-form detection returns a dialect exactly when the text, trailing line ends removed, is in one of the defined forms for it (unquoted elementary cells; all cells quoted; some cells quoted; a single column; fully quoted rows), checked in the documented order of forms, delimiters and quote characters, and no potential escape character precedes a delimiter or quote. Whenever it returns a dialect with a delimiter for a form of individually quoted or unquoted cells, reading the text with that dialect gives the cells of the form: rows of equal length, at least two cells, enclosing quotes removed.",
 ["inputs"], "all texts and candidate delimiters",
 "The tests check each form function on a few texts, not the order of the checks or the agreement with the parser.",
 ["clevercsv/normal_form.py", "clevercsv/escape.py"],
 [("forms and order of checks", "clevercsv/normal_form.py:detect_dialect_normal"), ("form predicates", "clevercsv/normal_form.py:is_form_1..5")],
 ["clevercsv.normal_form.detect_dialect_normal", "is_form_1 .. is_form_5"])

prop("C21", "The candidate dialects are complete and free of noise",
 "For every text the candidate dialects are exactly the combinations of a potential delimiter (every character outside the excluded Unicode categories and characters, or the given candidates, that occurs once URLs are blanked out; or none), a potential quote character that occurs (or none), and an escape character that is potential escape punctuation and somewhere directly precedes that delimiter or quote (or none), without duplicates. A dialect removed on request because quotes mask its delimiter is removed only if the delimiter never occurs outside quotes.",
 ["inputs", "configurations"], "all texts, candidate delimiters and blocked characters or categories",
 "The tests list candidates for about ten short strings.",
 ["clevercsv/potential_dialects.py", "clevercsv/escape.py", "clevercsv/_regexes.py"],
 [("candidate construction", "clevercsv/potential_dialects.py:get_dialects; get_delimiters; get_quotechars; filter_urls; masked_by_quotechar"), ("escape candidates", "clevercsv/escape.py:is_potential_escapechar")],
 ["clevercsv.potential_dialects.get_dialects"])

prop("C22", "Ties are broken by the documented rules, towards a tied dialect",
 "For every text and every set of two, three or four tied dialects, tie breaking returns one of the tied dialects or nothing, and exactly the one the documented rules choose: the dialect without quote character if the quote has no effect on the parsed table and the one with it otherwise, comma over space, anything over hyphen, the escape character if it precedes quotes an even number of times, and the reduction of larger ties to these cases. Other numbers of tied dialects are left unresolved.",
 ["inputs"], "all texts and tied dialect sets",
 "There is no test module for tie breaking; the rules compare parse results and only matter for texts where several dialects score equal.",
 ["clevercsv/break_ties.py", "clevercsv/cparser_util.py"],
 [("rules", "clevercsv/break_ties.py:tie_breaker; break_ties_two; break_ties_three; break_ties_four; reduce_pairwise")],
 ["clevercsv.break_ties.tie_breaker"])

prop("C23", "Header detection follows the voting rule",
 "For every sample, header detection detects the dialect, reads the sample with it and returns the outcome of the documented vote: per column the rows after the first (a bounded number, of regular length) vote by their common type or common text length, a header cell that does not fit votes for a header and one that fits votes against, and there is a header when the votes for exceed those against. An empty sample has no header, a sample without detectable dialect raises NoDetectionResult, and it makes no difference whether lines end in LF, CRLF or CR.",
 ["inputs"], "all samples",
 "The tests have a handful of samples; the vote depends on every cell of the checked rows and on which columns drop out.",
 ["clevercsv/detect.py"],
 [("vote", "clevercsv/detect.py:Detector.has_header")],
 ["clevercsv.Detector.has_header"])

prop("C24", "The command line tools report what the library finds",
 "For every file and combination of options, the detect command prints the dialect that library detection with the same options returns, in each output format, and the JSON form can be loaded back into the same dialect; the code command prints a program that, run as is, reads the file into the same rows as reading the table through the library (with --pandas, into the same data frame), whatever characters the file name and dialect contain; the explore command opens a session that holds them; the view command shows the table of the file or its complete transpose. When detection fails, each prints an error on standard error, nothing on standard output, and exits with 1; otherwise it exits with 0.",
 ["inputs", "configurations"], "all files, file names and option combinations",
 "Console tests check the printed text for a few fixed dialects; that the printed program runs and gives the right rows is never executed.",
 ["clevercsv/console/commands/detect.py", "clevercsv/console/commands/code.py", "clevercsv/console/commands/view.py", "clevercsv/console/commands/explore.py", "clevercsv/console/commands/_utils.py", "clevercsv/wrappers.py"],
 [("option handling", "clevercsv/console/commands/*.py:handle"), ("code generation", "clevercsv/console/commands/_utils.py:generate_code")],
 ["clevercsv detect, code and view: exit code, stdout, stderr"])

prop("C25", "Concurrent use gives the same results as sequential use",
 "Detections, readers and type or score computations running in several threads at the same time, each on its own data and objects, give for every interleaving exactly the results they give when run one after the other, and leave the field size limit as it was. A user's field size limit that is set or read meanwhile is neither overwritten nor seen by detection.",
 ["schedules"], "all interleavings of threads at the level of executed lines",
 "No test runs two threads; a window of a few lines in which shared state is inconsistent is not hit by chance.",
 ["clevercsv/consistency.py", "clevercsv/cparser_util.py", "clevercsv/detect.py", "clevercsv/detect_type.py", "clevercsv/break_ties.py"],
 [("no shared mutable state: the limit is passed explicitly", "clevercsv/consistency.py:compute_type_score; clevercsv/break_ties.py"), ("per-object type cache", "clevercsv/consistency.py:ConsistencyDetector")],
 ["clevercsv.Detector.detect in threads", "clevercsv.field_size_limit"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
