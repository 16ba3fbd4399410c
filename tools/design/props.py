"""per property: (how it is decided / oracle, why tests cannot, what is left out)"""
HOW = {
"P01": ("`ranges.h_free/h_shape`: the range cell is a symbolic text, parsed by the real stage 2 from a complete HTML document. Oracle: a hand-written recogniser of `N` / `H:L` over the same symbolic characters.", "the unit tests hold a handful of cells; the defect found (`82h` became 82) needs an unusual suffix", ""),
"P02": ("`ranges.h_dyn*`: rows behind a List header with symbolic cells; oracle: recogniser of `A:B` with white space removed; `h_dyn_mode` places the header at every position among ordinary rows.", "formula texts are unbounded in variety", ""),
"P03": ("`struct.h_layout`: symbolic digits in every range, rows of seven kinds in any order. Oracle: the rule of the statement over the rows in ascending order, so solver-chosen numbers cover every gap/overlap/reversal.", "relations between neighbours over all numbers", "order of the issues is not judged; a row with a numeric range next to an ellipsis is free"),
"P04": ("`struct.h_dup`, `values.h_dup`: labels and values symbolic; oracle: equality of the emitted labels/values of earlier rows.", "equalities between texts after normalisation (case, separators)", ""),
"P05": ("`struct.h_ident`, `values.h_label/h_attr`: arbitrary name texts; oracle: the identifier grammar over the emitted label.", "needs all short texts", ""),
"P06": ("`struct.h_name/h_attr/h_reserved`: words, acronyms and gaps symbolic; oracle: initials, acronym normalisation.", "every combination of characters and white space", "attribute names with trailing blanks before the colon or slashes at the ends are not judged"),
"P07": ("`values.*`: value and definition symbolic; oracle: trim/lower for the value; label rule for names that consist of name characters.", "as P06", "definitions that do not start with a name character are judged only by P05"),
"P08": ("`struct.h_brief*`: symbolic start, filler up to total lengths around 60, full stops at places around the limit; oracle: verbatim-substring and the length rule.", "off-by-one at exact lengths and positions of full stops", "white space other than blanks inside a brief (paragraph joins)"),
"P09": ("`doc.h_grid`: every tiling of the grid by spanning cells (choices of the harness), texts unique per cell; oracle: the grid itself.", "the number of tilings", "tilings where the range cell is merged with the name/description cell; rows left with a single cell"),
"P10": ("`struct.h_rows/h_many/h_reserved`: every sequence of ten row kinds, symbolic ranges/acronyms.", "interplay of row kinds", "a cell merely starting with 'note' as two-cell row is a remark by definition"),
"P11": ("`doc.h_nest/h_place`: nested tables at every depth/place with symbolic row keys.", "depth and placement", "several tables in one cell are all emitted under the same id (as the code does); only their count, parent and order are judged"),
"P12": ("`doc.h_account/h_caption`, `files.h_cli_account`: every sequence of figure kinds (ordinary, unknown columns, without number, no figure, failing, failing in a nested table, and those of figures with special extractors), captions with symbolic characters; through the library and the command.", "failure of one figure in any position", ""),
"P13": ("same harnesses with the flag off: prefix of the entities, error reaches the caller, nothing after.", "position of the failure", ""),
"P14": ("`doc.h_heads/h_unknown/h_reports`: headings in any order, with symbolic case and white space; T1006/T1007 contents compared.", "all spellings of a heading", "a table that has both of two alternative columns (e.g. definition and description) follows the code's priority list, which is not documented; not judged"),
"P15": ("`files.h_ignore*`: every subset of codes up to a size in symbolic spelling; arbitrary texts as option value; documents raising many codes.", "sets and spellings", ""),
"P16": ("`files.h_schema*`: documents of every table type with symbolic texts are written and the model is validated symbolically against the schema of the tree (`symx/schema.py` interprets the JSON schema keywords used).", "every combination that can reach the writer", "the requirement on lint rows is checked by the harness, not by the shipped schema"),
"P17": ("`quirk.*`: titles/revisions with symbolic characters; override tables of the harness against symbolic figure ids and row keys; `h_real`: the overrides the known documents need against symbolic figure numbers and row keys up to three tables deep; `h_second`: captions inside a table.", "exact match of documents/rows", "what the special figures do with other spanning rows than the known ones"),
"P18": ("`files.h_write/h_writer/h_crash/h_again/h_cwd`: symbolic texts everywhere, failure at each figure; the file is read back with `json`.", "every character, every failure point", "documents of equal stem in one run overwrite each other (documented naming)"),
"P19": ("`word.h_text/h_nested_text/h_name/h_list/h_again/h_mix`: Word files are generated (zip with symbolic XML text), converted by the real stage 1 and parsed again; oracle: the text put in.", "HTML special characters, run structure", "w:br, w:tab, w:sdt, w:ins; documents that refer to styles or list levels they do not define (the converter stops with an error)"),
"P20": ("`word.h_merge*/h_mix`: every tiling, every sequence of vMerge settings, symbolic spans; oracle: the tiling / a two-line model of vMerge.", "number of merge patterns", "gridBefore/gridAfter, vertical merges that do not form rectangles"),
"P21": ("`word.h_list*/h_mix`: every sequence of paragraphs by numbering and level, levels and numbering ids symbolic; oracle: stack model.", "sequences", "nesting is judged where items return only to levels that are open; markers (CSS) and numbering through paragraph styles are not judged"),
"P22": ("`word.h_format/h_toggle/h_colour/h_resolve/h_mix`: settings at run and along style chains; the class is resolved to its CSS and compared with the effective formatting.", "combinations along chains", "paragraph styles' own run formatting, theme colours"),
"P23": ("`word.h_header*`: headers with symbolic characters, split over runs/paragraphs/cells; read back from stage 1 and from the model.", "every character", "headers of several lines, headers without the word Revision"),
"P24": ("`server.h_sequence/h_again/h_docx/h_unknown/h_failed/h_near/h_digest/h_schedule`: the real quart application driven through ASGI in-process; contents and addresses symbolic; upload interleavings are choices (see P31).", "sequences, equal names, addresses", "only .html/.docx uploads (others are refused by stage 2); the style sheet of docx uploads; href escaping of its name"),
"P25": ("`server.h_name`: symbolic file names in the multipart header; the audit hook records every path that is created or changed.", "all names", ""),
"P26": ("`server.h_select/h_page/h_page_docx`: symbolic figure ids against tables; report pages of uploaded documents with lint at every depth, three tables deep included.", "ids as texts", ""),
"P27": ("`files.h_status/h_stub/h_suffix/h_cwd`: every sequence of inputs of twelve kinds and options; parsing replaced by stand-ins with every outcome; suffixes symbolic.", "combinations of failures", ""),
"P28": ("`word.h_shade/h_caption/h_mix`: six symbolic hexadecimal digits; captions with symbolic characters, runs and paragraphs.", "16 million fills, all captions", ""),
"P29": ("`word.h_both*/h_split`: the same content as Word file through both stages and as HTML through stage 2; entities and lint compared.", "relation between two runs", "white space between paragraphs within a brief (and hence the 60 character limit there)"),
"P30": ("`logs.h_serial/h_run`: the real loguru set-up with its sinks in a scratch directory; messages symbolic; chains of errors; runs of the command over failing documents with and without --verbose.", "texts in log records, failure places", "T1008 figures have no id and no traceback; the file is complete when the program ends (buffered)"),
"P31": ("`server.h_schedule`: each connection is an ASGI conversation driven message by message; every interleaving of the messages and every point of disconnection is a fork of the exploration, contents symbolic.", "schedules", "ASGI level: what hypercorn, the kernel and threads of aiofiles do below is assumed as documented"),
"P32": ("`apart.h_docs/h_figs/h_words/h_tables/h_cells/h_named/h_command`: differential: the same item alone and next to others, starting from a fresh program state.", "state leaking between items", "names of style classes"),
"P33": ("`apart.h_rows/h_subs`: differential: findings of a table against those of one-row tables; nested against top-level.", "combination of rows", "codes that compare rows"),
"P34": ("`server.h_events/h_events_word/h_events_failed/h_refused`: the real application through ASGI in-process; the messages of the response are parsed and compared with the model of the same document.", "kinds of figures and requests, symbolic letters", "the browser's side of the stream"),
"P35": ("`server.h_data`: the page of a document with an arbitrary text against that of one with a harmless text; script constants parsed and searched for '<'.", "every text inside seven break-out contexts", "what the script of the page does with the data (the tables of the document are shown as HTML by design)"),
}
