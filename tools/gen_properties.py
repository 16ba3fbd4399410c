#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text lives here so that it can be reviewed as prose)."""
import json, os

S = "src/spex/"
J = S + "jsonspec/"
X = J + "extractors/"
H = S + "htmlspec/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))


prop("P01", "Bit/byte ranges are extracted exactly, or kept verbatim and reported",
     "In a bits or bytes table, a range cell that is a decimal offset `N` or a pair `H:L` (white space allowed around the numbers) yields exactly the range {low: N, high: N} or {low: L, high: H} - no digit lost, bounds never swapped - and R1002 is reported for the row exactly when L > H. "
     "Any other text in the range cell of an ordinary row is emitted verbatim as a string range and R1001 is reported for that row; it is never turned into a numeric range that covers only part of what the cell says.",
     ["inputs"], "every text of the range column, in bits and in bytes tables",
     "The existing tests use a dozen well-formed ranges; malformed, hexadecimal, reversed, spaced or formula ranges and multi-digit boundaries are unbounded inputs.",
     [X + "structtable.py", X + "regular_expressions.py"],
     [("range regular expression and its use", X + "structtable.py:_parse_range"), ("RANGE_REGEX", X + "regular_expressions.py")],
     ["entities[].fields[].range of the stage 2 model", "meta.lint R1001/R1002"])

prop("P02", "Formula ranges in a dynamic list keep both bounds or are reported",
     "In the rows that follow a 'List' section header of a bits or bytes table, a range cell of the form `A:B`, where A and B consist of letters, digits, + - * ( ) and white space, yields the range {low: B, high: A} with white space removed and nothing else changed. "
     "Any other text there is kept verbatim as a string range and R1001 is reported; rows before the section header keep the rules for plain ranges.",
     ["inputs"], "every formula text, and every position of the List header among the rows",
     "One test exercises two fixed formulas.",
     [X + "structtable.py", X + "regular_expressions.py", J + "queries.py"],
     [("dynamic mode switch", X + "structtable.py:__call__"), ("DYNAMIC_RANGE_REGEX", X + "regular_expressions.py")],
     ["entities[].fields[].range", "meta.lint R1001"])

prop("P03", "Gap, overlap and row-order lint is exact for every field layout",
     "For a bits/bytes table, viewed in ascending order (bits rows reversed), T1004 is reported (once, and then no other layout or duplicate check for the table) exactly when some field with a numeric range starts below the field directly before it. "
     "Otherwise T1001 is reported for a field exactly when it starts at or below the end of the field directly before it, and T1002 exactly when it starts more than one past that end; next to a field labelled with an ellipsis or with a non-numeric range nothing of the kind is reported.",
     ["inputs"], "every sequence of numeric ranges, including ellipsis rows and string ranges in between",
     "Tests contain one or two layouts; the check compares all adjacent pairs of arbitrary integers, so it depends on values at every boundary and on every position in the table.",
     [X + "structtable.py"], [("validate_fields", X + "structtable.py")],
     ["meta.lint T1001/T1002/T1004"],
     state=[("prev_range", "range of the previously visited field, None when unknown", X + "structtable.py:validate_fields")])

prop("P04", "Duplicate labels and values are reported exactly when they occur",
     "Within one table, L1002 is reported for a row exactly when its label equals the label of an earlier row, and in value tables V1002 exactly when its value equals that of an earlier row (comparison after the tool's own case normalisation). "
     "Rows whose label is the RESERVED placeholder or the ellipsis take no part; nothing is reported for distinct labels or values, and every repetition is reported with the key of the repeating row.",
     ["inputs"], "every sequence of labels and values in a table",
     "Tests cover two or three fixed tables; equality of arbitrary strings at arbitrary distances is not sampled.",
     [X + "structtable.py", X + "valuetable.py"],
     [("validate_fields", X + "structtable.py"), ("validate_fields", X + "valuetable.py")],
     ["meta.lint L1002/V1002"])

prop("P05", "Every emitted label is a valid identifier or is reported as L1004",
     "A label that reaches the stage 2 model either consists of an ASCII letter followed only by word characters, or is a placeholder (RESERVED, OBSOLETE, or an ellipsis, `…` or `...`), or L1004 is reported for its row. "
     "L1004 is not reported for a row whose name text has no characters that are invalid in such a label.",
     ["inputs"], "every text of the name cell, in tables with and without a separate attribute column, struct and value tables",
     "Validation must hold for every text; tests try a handful of names.",
     [X + "helpers.py", X + "regular_expressions.py", X + "structtable.py", X + "valuetable.py"],
     [("validate_label", X + "helpers.py"), ("LABEL_VALIDATION_REGEX", X + "regular_expressions.py")],
     ["entities[].fields[].label", "meta.lint L1004"])

prop("P06", "Struct field labels follow the documented naming rule for every name",
     "In a bits/bytes table without a separate attribute column the label is the parenthesised acronym of the field name if there is one, else the initials of the words of the name; with an attribute column it is the text before the colon, else the initials (then L1003 is reported). "
     "The label is lower case, words are joined by single underscores, and a row named Reserved or Obsolete gets the label RESERVED or OBSOLETE whatever its capitalisation.",
     ["inputs"], "every field name of the supported shapes",
     "Tests fix a few names; the rule is regular-expression driven and must hold for every name and acronym.",
     [X + "structtable.py", X + "helpers.py", X + "regular_expressions.py"],
     [("_parse_label", X + "structtable.py"), ("generate_acronym/normalize_label", X + "helpers.py")],
     ["entities[].fields[].label"])

prop("P07", "Value table entries carry their value, and their label, unaltered in content",
     "In a value table every data row yields exactly one entry, in document order, whose `val` is the text of the value cell, trimmed and lower-cased, with nothing else changed. "
     "Its label is the text of the definition up to the first character that cannot be part of a name, upper-cased with spaces and dashes as single underscores and slashes dropped; a leading number is moved to the end; a row named Reserved (in any capitalisation) is labelled RESERVED and an ellipsis row is emitted as an ellipsis entry; rows after a `Notes:` row are not data.",
     ["inputs"], "every value text and definition text, and every order of ordinary, reserved, ellipsis and notes rows",
     "Tests fix a few tables.",
     [X + "valuetable.py", X + "helpers.py", X + "regular_expressions.py"],
     [("__call__", X + "valuetable.py"), ("_extract_label", X + "valuetable.py"), ("rearrange_num_label/normalize_label", X + "helpers.py")],
     ["entities[].fields[].val/label"])

prop("P08", "Briefs are short, verbatim extracts of the description",
     "A brief is at most 60 characters long and is a verbatim piece of the row's description text that starts right behind the field name and its colon (surrounding white space and full stops dropped); no row without a colon in its description gets one. "
     "A description whose brief part has at most 60 characters is kept whole apart from leading blanks and trailing full stops; a longer one is cut at its first full stop, and dropped if even that is longer than 60.",
     ["inputs"], "every description text, at every length around the limit",
     "Tests never reach the length boundary or text with several sentences systematically.",
     [X + "helpers.py", X + "structtable.py", X + "valuetable.py"],
     [("content_extract_brief", X + "helpers.py"), ("BRIEF_MAXLEN", X + "figure.py")],
     ["entities[].fields[].brief"])

prop("P09", "Cells are read from their logical column under any rowspan and colspan",
     "For every table whose cells tile a rectangular grid using rowspan and colspan, each data row is extracted from the cells that cover its range/value, name and description columns in that grid: a cell spanning rows is seen by each row it covers and by no other row. "
     "A row's field never takes its text from a cell that belongs to another row or another column only. (Meant are rows of more than one cell whose range/value cell is separate from those of name and description; a heading spanning columns stands for the first of them.)",
     ["inputs"], "every rectangular tiling of the table (row and column spans), and every cell text",
     "Tests contain one table with row spans; the combinations of spans, their lengths, overlaps and positions are unbounded.",
     [J + "rowiter.py", X + "structtable.py", X + "valuetable.py"],
     [("row_iter, sorted_row_children, alst_*", J + "rowiter.py")],
     ["entities[].fields[]"],
     state=[("alst", "cells still spanning into following rows: (column offset, cell, remaining rows)", J + "rowiter.py:row_iter")])

prop("P10", "Struct tables emit one field per data row, in ascending layout order",
     "Every data row of a bits/bytes table before the first note row yields exactly one field, in table order for bytes and in reverse order for bits: Reserved, Obsolete and ellipsis rows yield placeholder fields carrying the row's range, section header rows (rows with a th cell), remarks (a row of a single cell, or with a cell starting 'Note') and rows whose range cell itself says Reserved, Obsolete or ellipsis yield none. "
     "Nothing after a note row that spans the table is emitted, and no row is dropped, duplicated or reordered otherwise.",
     ["inputs"], "every sequence of row kinds and capitalisations in a table",
     "Row kinds combine freely; tests contain a few fixed sequences.",
     [X + "structtable.py"], [("__call__, is_special_case, handle_special_case", X + "structtable.py")],
     ["entities[].fields[]"])

prop("P11", "Nested tables become linked entities emitted before their parent",
     "A table nested in the description cell of a row yields its own entity whose parent_fig_id is the id of the enclosing figure and whose fig_id is that id, an underscore and the row's key (the value, or the low end of the range), to any depth; it has no title and is emitted before the entity of its parent. "
     "Tables nested in any other column yield no entity, and rows or texts of a nested table never show up as rows of its parent.",
     ["inputs"], "every placement and depth of nested tables, every row key",
     "One test nests one table once.",
     [X + "figure.py", X + "structtable.py", X + "valuetable.py", J + "document.py"],
     [("extract_data_sub_table", X + "figure.py"), ("_on_parse_fig", J + "document.py")],
     ["entities[].fig_id/parent_fig_id and their order"])

prop("P12", "No figure is lost silently: each is extracted or named in the lint",
     "With --skip-figure-on-error, every top-level figure of a document (a table with rows whose first row, the caption, contains the word Figure) is, in document order, either emitted as exactly one top-level entity under its own id and title, or reported: T1007 when no extractor knows its columns, T1000 when extraction fails (there, or in a table nested in it), T1008 - each under an id of its own - when its caption has no figure number. "
     "A figure that fails or is skipped never changes what is emitted or reported for any other figure.",
     ["inputs", "fault_sequences"], "every sequence of good, failing, unknown and mis-captioned figures",
     "Failure isolation is only sampled by whole-document runs on files that happen to work.",
     [J + "document.py", J + "lint.py"],
     [("iter_figures, _on_parse_fig, parse", J + "document.py")],
     ["entities[]", "meta.lint T1000/T1007/T1008"],
     state=[("_unwind_parse_error", "set while an error of a nested figure propagates", J + "document.py")])

prop("P13", "Without the skip flag the first figure that fails aborts the run",
     "Without --skip-figure-on-error, the first figure whose extraction fails stops the processing of its document: everything before it has been emitted unchanged, nothing behind it is, and the failure reaches the caller as an error. "
     "Figures that merely have unknown columns or a caption without number do not abort.",
     ["inputs", "fault_sequences"], "every sequence of good, failing, unknown and mis-captioned figures, top-level or nested failures",
     "No test makes a figure fail.",
     [J + "document.py", S + "parse.py"], [("_on_parse_fig error handling", J + "document.py")],
     ["exception from parsing", "entities emitted before it"])

prop("P14", "Columns are recognised by heading, independent of order, case and spacing",
     "Headings are compared after trimming, lower-casing and collapsing blanks and line breaks: a table with a bytes, value or bits column (byte/bit/code are accepted and reported as T1006 with the heading got and the one expected, exactly once each) plus a description column is extracted as that type, wherever the columns stand. "
     "T1006 is reported for no other heading, and a table lacking a recognised combination of columns yields no entity and T1007 listing its normalised headings.",
     ["inputs"], "every heading text and column order",
     "Tests use the standard headings.",
     [J + "document.py", X + "figure.py", X + "structtable.py", X + "valuetable.py"],
     [("extract_tbl_headers", J + "document.py"), ("can_apply/_can_apply", X + "figure.py")],
     ["entities[].type", "meta.lint T1006/T1007"])

prop("P15", "Lint suppression removes exactly the named codes and nothing else",
     "For every set of codes given to --lint-ignore (comma separated, any case, blanks allowed), the lint section of the output is the list of all issues found minus exactly those carrying one of the named codes, in the original order and unmodified. "
     "The extracted entities do not depend on the set, and an unknown code is rejected before anything is written.",
     ["configurations", "inputs"], "every set of ignored codes, every spelling of the option",
     "No test ignores a code.",
     [S + "parse.py", S + "__main__.py", J + "lint.py", J + "parserargs.py"],
     [("ignore_lint_codes filter", S + "parse.py:parse_spec"), ("arg_lintcode", S + "__main__.py")],
     ["meta.lint of the written file"])

prop("P16", "Every model written conforms to the published stage 2 schema",
     "For every document that is processed to the end, the written JSON validates against the stage 2 schema shipped with the tool, whatever ranges, labels, ellipsis rows, dynamic lists and lint entries it contains. "
     "Each lint entry carries code, msg, fig and context, and a row for label, value and range codes.",
     ["inputs"], "every document with any mix of table kinds and row kinds",
     "Schema validation is not run by the tests on anything but a few fixed models.",
     [S + "resources/stage2.schema.json", J + "lint.py", X + "structtable.py", X + "valuetable.py", S + "parse.py"],
     [("stage2.schema.json", S + "resources/stage2.schema.json"), ("LintEntry.to_json", J + "lint.py")],
     ["the JSON file", "--validate-json"])

prop("P17", "Document quirks apply to exactly the documents and rows they name",
     "The special parser for a document is chosen by title (ignoring case) and revision together, every other document gets the standard parser. "
     "A label override for (figure, row) replaces the label of exactly that row - in struct and value tables, even where no label could be extracted (Reserved and Obsolete rows of bits/bytes tables excepted) - and is reported as L1007 for it; a brief override likewise sets the brief; all other rows and figures are unaffected. "
     "Where a document is known to hold a second figure in the table of a figure (24 in 23 of NVM Command Set 1.0c, 65 in 64 of Management Interface 1.2c), the spanning row with its caption starts an entity of its own, emitted behind the first.",
     ["inputs", "configurations"], "every title/revision text, every figure id and row key against every override table",
     "No test uses an override.",
     [J + "parse.py", J + "document.py", J + "quirks/__init__.py", X + "structtable.py", X + "valuetable.py"],
     [("get_parser", J + "parse.py"), ("label_overrides/brief_overrides", J + "document.py"), ("QUIRKS_MAP", J + "quirks/__init__.py")],
     ["entities[].fields[].label/brief", "meta.lint L1007"])

prop("P18", "The output file holds exactly the extracted model, even after an error",
     "The stage 2 file is written to the output directory under the input's name with the suffix replaced by .json, and parsing it back gives exactly the metadata and the entities in emission order, with every character of every text preserved. "
     "If processing fails part-way, the error reaches the caller and the file is closed, is well-formed JSON and holds exactly what had been emitted before the failure.",
     ["inputs", "crash_points"], "every text content, every file name, and a failure after any number of entities",
     "Tests never write a file through the writer.",
     [S + "writer.py", S + "parse.py"], [("FileWriter", S + "writer.py"), ("parse_spec", S + "parse.py")],
     ["the JSON file on disk"])

prop("P19", "Stage 1 HTML is well-formed and keeps all table text, whatever it contains",
     "For every Word document in which the styles and list levels referred to are defined, the stage 1 file is well-formed and its tables contain, cell by cell, paragraph by paragraph, exactly the text of the Word table cells: the text of every run, of every text element of a run, also inside hyperlinks and simple fields, with characters special to HTML preserved. "
     "No text is lost, duplicated, reordered or moved to another cell or table.",
     ["inputs"], "every text and every run structure of a table cell",
     "One end-to-end test covers one tiny document.",
     [H + "htmlrenderer.py", H + "parser.py"],
     [("_render_span escaping", H + "htmlrenderer.py"), ("_select_runs/_parse_spans", H + "parser.py")],
     ["the HTML file"])

prop("P20", "Word cell merges become the equivalent row and column spans",
     "For every Word table with horizontally (gridSpan) and vertically (vMerge) merged cells, each merged region appears in stage 1 as one cell at its top-left position with rowspan and colspan equal to its extent, unmerged cells have neither, and the cells of the HTML table tile the same grid. "
     "A vMerge that continues a region extends the cell above it, one that restarts opens a new region.",
     ["inputs"], "every sequence of gridSpan and vMerge settings in a table",
     "No test covers merges.",
     [H + "docx/tablewrap.py", H + "parser.py", H + "htmlrenderer.py"],
     [("TableWrap.grid", H + "docx/tablewrap.py"), ("_render_table origin test", H + "htmlrenderer.py")],
     ["td/th with rowspan/colspan in the HTML file"],
     state=[("matrix", "layout grid, each slot pointing to the covering cell", H + "docx/tablewrap.py")])

prop("P21", "List items keep their order, nesting depth and kind",
     "Consecutive Word list paragraphs in a cell, of list levels that are defined, become HTML lists in which each item has the text of its paragraph, the items appear in document order, an item of a deeper level is inside a list nested in the item before it, and returning to a shallower level continues the enclosing list of that level. "
     "Ordered and bulleted levels map to ol and ul, and paragraphs with a different numbering definition or none end the list.",
     ["inputs"], "every sequence of list levels and numbering ids",
     "No test covers lists.",
     [H + "parser.py", H + "htmlrenderer.py", H + "docx/numbering.py"],
     [("_parse_list/_parse_list_elems", H + "parser.py"), ("_render_list", H + "htmlrenderer.py")],
     ["ol/ul/li structure in the HTML file"])

prop("P22", "Text formatting in stage 1 equals the formatting in effect in Word",
     "Each text run is shown with exactly the bold, italic, underline, strike-through, vertical alignment and colour in effect: those set on the run, else those of its character style, else those of the styles that one is based on, at any depth; an explicit off overrides an inherited on. "
     "Runs share a style class only if their effective formatting is equal, runs with the same settings do share one, and each class used is defined in the style sheet with that formatting.",
     ["inputs"], "every combination of on/off/unset properties along a style chain",
     "No test covers formatting.",
     [H + "docx/runproperties.py", H + "docx/styles.py", H + "docx/document.py", H + "css.py"],
     [("RunProperties.merge/from_rpr_elem/css", H + "docx/runproperties.py"), ("StyleResolver", H + "docx/styles.py"), ("CssCache", H + "css.py")],
     ["span classes in the HTML file and rules in the CSS file"])

prop("P23", "Title and revision of the page header identify the document in all stages",
     "The title is the text of the page header before the first comma, trimmed, and the revision the word following 'Revision'; whatever characters they contain, stage 1 records them unaltered and the stage 2 model reports the same title and revision in lower case as its specification and revision. ",
     ["inputs"], "every header text, split over text runs in any way",
     "One fixed header is tested.",
     [H + "docx/header.py", H + "htmlrenderer.py", J + "parse.py", S + "parse.py"],
     [("Header", H + "docx/header.py"), ("data-spec/data-revision", H + "htmlrenderer.py"), ("html_to_spec_doc", J + "parse.py")],
     ["head of the HTML file", "meta of the JSON file"])

prop("P24", "The server serves each upload's own report, and 404 for unknown reports",
     "After any sequence of uploads, the report, JSON and HTML addresses of an upload return the model and the stage 1 document of exactly that upload's content, also when several uploads have the same file name or are processed interleaved. "
     "An address whose hash no completed upload produced is answered with 404 on all three.",
     ["histories", "schedules"], "every sequence and interleaving of uploads and requests (bounded number)",
     "The server has no tests.",
     ["src/spexsrv/application/app.py"],
     [("SPEX_CACHE_LOOKUP, cache_entry", "src/spexsrv/application/app.py:spec_parse"), ("report/json_report/html_report", "src/spexsrv/application/app.py")],
     ["responses of /report, /json, /html"],
     state=[("SPEX_CACHE_LOOKUP", "content hash -> cached report path", "src/spexsrv/application/app.py")])

prop("P25", "An uploaded file name cannot make the server write outside its own folder",
     "Whatever file name a client sends with an upload - with directories, absolute, with .. components, or empty - the server creates and overwrites files only inside its own temporary directories.",
     ["inputs"], "every file name",
     "The server has no tests.",
     ["src/spexsrv/application/app.py", S + "writer.py"],
     [("destination", "src/spexsrv/application/app.py:spec_parse")],
     ["paths written to"])

prop("P26", "The report shows each figure that has lint, and only those",
     "For every lint list, the figures shown in the report are exactly the top-level figures of the stage 1 document that some entry refers to, directly or through a nested figure id, each with the complete table of its own id. "
     "Ids that do not name a table of the document are left out without an error.",
     ["inputs"], "every set of lint figure ids and every document",
     "The server has no tests.",
     ["src/spexsrv/application/report_view.py", "src/spexsrv/application/app.py"],
     [("get_erroneous_figures", "src/spexsrv/application/report_view.py")],
     ["report_html of the report page"])

prop("P27", "The command's exit status tells whether every input was processed",
     "The command exits with status 0 exactly when every input named was processed to the end and, with --validate-json, every written model is valid; any failure in any of the inputs gives a non-zero status. "
     "Inputs with a suffix other than .html or .docx, or that do not exist, are refused with non-zero status and no output is produced for them.",
     ["inputs", "configurations", "fault_sequences"], "every combination of options and of good and bad inputs",
     "The command line has no tests.",
     [S + "__main__.py", S + "parse.py", S + "validate.py"],
     [("main", S + "__main__.py")], ["exit status", "files in the output directory"])

prop("P28", "Header shading and table captions are classified exactly",
     "A Word cell shaded in a grey tone (three equal colour components, any case, other than white) becomes a header cell (th) and every other cell a data cell (td); any six-digit fill other than white is shown as background colour of that cell. "
     "A table whose first cell is a data cell starting 'Figure N:' gets the id N, every other table gets none.",
     ["inputs"], "every fill value and caption text",
     "No test covers shading or captions in stage 1.",
     [H + "parser.py", H + "htmlrenderer.py", X + "regular_expressions.py"],
     [("_parse_table shading heuristic, find_id", H + "parser.py"), ("TABLE_ID_REGEX", X + "regular_expressions.py")],
     ["td/th, class and id in the HTML file, rules in the CSS file"])

prop("P29", "A Word figure is extracted as its text says, through both stages",
     "Converting a Word document and extracting from the result gives the same entities and lint as extracting from an HTML document with the same cell texts, heading row, merges and nesting: nothing depends on how Word split the text into runs, on formatting, or on the layout of the generated HTML (except for the white space that separates the paragraphs within a brief).",
     ["inputs"], "every cell text and run split of a figure's table",
     "One end-to-end test covers one tiny document.",
     [H + "parser.py", H + "htmlrenderer.py", J + "parse.py", J + "document.py", S + "parse.py"],
     [("parse_spec", S + "parse.py")], ["entities[] and meta.lint of the JSON file"])

prop("P30", "The log file is complete and machine readable",
     "Every message logged is one line of spex.log, each a JSON object with the text, level and bound values of the message; the file starts empty with each run. An error being handled is recorded in it with type, message, traceback and all its causes. Every figure with an id whose extraction fails has such an entry, and so has every error that ends the command; figures that do not fail have none.",
     ["inputs", "fault_sequences"], "every error raised anywhere during processing",
     "No test reads the log.",
     [S + "log/_log_config.py"], [("LogFileSerializer", S + "log/_log_config.py")], ["spex.log"])

prop("P31", "Concurrent clients cannot corrupt one another's uploads",
     "For any number of clients uploading at the same time, with connections dropped at any point, the temporary files of each upload are removed, every upload that is not dropped completes, and its result is what it would be alone.",
     ["schedules", "fault_sequences"], "every interleaving of the ASGI messages of the connections, with disconnects at any message",
     "The server has no tests.",
     ["src/spexsrv/application/app.py"], [("sse_events finally", "src/spexsrv/application/app.py")], ["temporary directories", "responses"])

prop("P32", "Figures and documents are processed independently of one another",
     "What is extracted from and reported for a figure depends only on that figure, the title and revision of its document and the options: it is the same alone, next to any other figures (also of the same number), and in a document processed behind any others in the same run. "
     "Likewise in stage 1 a table, and a cell, comes out the same whatever other tables, cells or documents precede or follow it: open lists, merges, shades, styles and numberings never carry over from one to the next (names of style classes aside).",
     ["inputs", "histories"], "every pair of documents, figures, tables and cells in either order",
     "Each test handles one table of one document in a fresh parser; state that leaks from one to the next never shows.",
     [J + "document.py", X + "structtable.py", X + "valuetable.py", J + "rowiter.py", H + "parser.py", H + "htmlrenderer.py", H + "docx/styles.py", S + "parse.py"],
     [("per-figure extraction", J + "document.py:_on_parse_fig"), ("table and list state", H + "parser.py")],
     ["entities[] and meta.lint of the JSON file", "tables of the HTML file and rules of the CSS file"])

prop("P33", "Each finding is filed once, under the figure and the row it is about",
     "The row-level findings of a table (all codes but T1001, T1002, T1004, L1002 and V1002, which compare rows) are exactly those each of its rows raises in a table of its own, in row order: filed under the id of that table - for a nested table the id made of the enclosing figure and row - and naming the row by its range text, lower bound or value. "
     "A nested table yields the same fields and findings as the same table at top level would, under its own id.",
     ["inputs"], "every combination of rows, at top level and nested",
     "Tests look for a code somewhere in the lint list; they do not compare where it is filed.",
     [X + "structtable.py", X + "valuetable.py", X + "figure.py", X + "helpers.py", J + "lint.py"],
     [("add_issue", X + "figure.py"), ("row keys", X + "structtable.py:__call__")], ["meta.lint", "entities[].fields"])

prop("P34", "An upload is refused, or answered by progress events that end with its report",
     "A request to /parse without a document is refused with status 422, and one that does not accept event streams or whose file name is unusable with a client error; a refused request leaves no file and no report. "
     "Every other upload is answered with status 200 and a text/event-stream in which each message is one event, 'data: ' with a JSON object and a blank line: progress updates - those of phase html, for Word documents only, before those of phase json, of which there is one per entity of the model - and then, exactly if the document was processed, one final report-completed event whose report can be fetched. "
     "Within a phase the figure index starts at 0, grows in steps of at most one, and stays below the number of figures, which does not change.",
     ["inputs"], "every document and every request",
     "The server has no tests.",
     ["src/spexsrv/application/app.py", "src/spex/parse.py"],
     [("spec_parse/sse_events/json_to_sse", "src/spexsrv/application/app.py"), ("parse_spec", "src/spex/parse.py")], ["the response to an upload"])

prop("P35", "Text of a document stays data in the report page",
     "Whatever texts an uploaded document contains, in its title, headings, labels, values, briefs or anywhere else, the report page, plain or bundled, contains them only inside the constants of its script (report, report_html, erroneous_figure_ids): each is valid JSON with the stored data, without a '<' that could end the script or start markup, and the rest of the page is that of any other document.",
     ["inputs"], "every text at every place of a document",
     "The server has no tests.",
     ["src/spexsrv/application/app.py", "src/spexsrv/templates/report.html"],
     [("report", "src/spexsrv/application/app.py"), ("script constants", "src/spexsrv/templates/report.html")], ["the report page"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        fh.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
