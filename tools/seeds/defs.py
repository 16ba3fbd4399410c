SEEDS = []
J = "src/spex/jsonspec/"
X = J + "extractors/"
H = "src/spex/htmlspec/"


def seed(id, prop, pre, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, pre=pre, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed("p01-row-key-min", "P11", "html", [(X + "structtable.py", 'return str(val["low"]) if isinstance(val, dict) else val',
     'return str(min(int(val["low"]), int(val["high"]))) if isinstance(val, dict) and str(val["low"]).isdigit() and str(val["high"]).isdigit() else val if isinstance(val, str) else str(val["low"])')],
     "a row whose range is reversed and that raises a further lint message", "lint and nested entities of a reversed range are filed under another row key than the lower bound", '''
e, lint, err = parse(table("Figure 7: T", ["Bits", "Description"], tr("03:07", raw("<p>Abc Def: x</p>" + table("", ["Value", "Description"], tr("0", "Zero"))))))
assert err is None
assert e[0]["fig_id"] == "7_7", e
''')
seed("p01-text-compare", "P01", "html", [(X + "structtable.py", "            low = int(_low) if _low is not None else high\n            if low > high:",
     "            low = int(_low) if _low is not None else high\n            if (_low or \"\") > m.group(\"high\"):")],
     "bounds with a different number of digits", "ranges such as 10:9 are reported as reversed, and 9:10 is not", '''
_, lint, _ = parse(table("Figure 7: T", ["Bits", "Description"], tr("10:9", "Abc: x"), tr("8:0", "Def: x")))
assert not any(c == "R1002" for c, _, _ in lint), lint
_, lint, _ = parse(table("Figure 7: T", ["Bits", "Description"], tr("9:10", "Abc: x")))
assert any(c == "R1002" for c, _, _ in lint), lint
''')
seed("p02-mode-lost", "P02", "html", [(X + "structtable.py", 'if "List" in colspan and not is_dynamic_table_mode:\n                        is_dynamic_table_mode = True',
     'is_dynamic_table_mode = "List" in colspan')],
     "a second spanning heading below the heading of a dynamic list", "formula ranges below it are no longer extracted", '''
t = table("Figure 7: T", ["Bytes", "Description"], tr("03:00", "Abc: x"), tr(p("Descriptor List", "th", colspan=2)), tr("15:04", "Def: x"),
          tr(p("Vendor Entries", "th", colspan=2)), tr("(N*16+15):(N*16)", "Ghi: x"))
e, lint, err = parse(t)
assert e[0]["fields"][2]["range"] == {"low": "(N*16)", "high": "(N*16+15)"}, e
''')
seed("p03-text-range", "P03", "html", [(X + "structtable.py", "                # skip next range check\n                prev_range = None", "                # skip this range check\n                pass")],
     "a field between two others whose range cannot be parsed", "a gap is reported between fields that are not neighbours", '''
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Aaa: x"), tr("N:1", "Bbb: x"), tr("9:5", "Ccc: x")))
assert not any(c == "T1002" for c, _, _ in lint), lint
''')
seed("p03-two-fields", "P03", "html", [(X + "structtable.py", "    def validate_fields(self, fields: List[StructField]) -> None:\n        if len(fields) < 2:", "    def validate_fields(self, fields: List[StructField]) -> None:\n        if len(fields) <= 2:")],
     "a table of exactly two fields", "gaps, overlaps and duplicates of such a table are not reported", '''
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Aaa: x"), tr("9:5", "Ccc: x")))
assert any(c == "T1002" for c, _, _ in lint), lint
''')
seed("p04-first-label", "P04", "html", [(X + "structtable.py", 'labels = {fields[0]["label"]}', "labels: set = set()")],
     "the second use of a label is a duplicate of the very first field", "the duplicate is not reported", '''
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha Beta (AB): x"), tr("1", "Gamma (GG): x"), tr("2", "All Bits (AB): y")))
assert ("L1002", "7", "2") in lint, lint
''')
seed("p04-either-or", "P04", "html", [(X + "valuetable.py", """            labels.add(field_label)

            if field_value in values:""", """
            elif field_value in values:"""), (X + "valuetable.py", "            values.add(field_value)", "            labels.add(field_label)\n            values.add(field_value)")],
     "a row that repeats both the label and the value", "only the label is reported", '''
_, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", "Alpha: x"), tr("1h", "Beta: x"), tr("0h", "Alpha: y")))
assert ("V1002", "7", "0h") in lint and ("L1002", "7", "0h") in lint, lint
''')
seed("p05-prefix-only", "P05", "html", [(X + "regular_expressions.py", 'LABEL_VALIDATION_REGEX = compile(r"^[a-zA-Z][\\w]*$")', 'LABEL_VALIDATION_REGEX = compile(r"^[a-zA-Z][\\w]*")')],
     "a label with an invalid character after a valid start", "it is emitted and not reported", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Attribute", "Description"], tr("0", "AB%C: long", "Alpha"), tr("1", "DD: x", "Beta")))
assert ("L1004", "7", "0") in lint, (e, lint)
''')
seed("p06-double-space", "P06", "html", [(X + "helpers.py", 'return "".join(w[0] for w in text.split()).lower()', 'return "".join(w[:1] for w in text.split(" ")).lower()')],
     "words separated by a line break or a no-break space", "the initial of the second word is missing from the label", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha Beta\\u00a0Gamma: x"), tr("1", "Delta: x")))
assert e[0]["fields"][0]["label"] == "abg", e
''')
seed("p06-last-colon", "P06", "html", [(X + "structtable.py", '        txt_parts = label.split(":", 1)\n        if len(txt_parts) == 1:\n            # no explicit', '        txt_parts = label.rsplit(":", 1)\n        if len(txt_parts) == 1:\n            # no explicit')],
     "an attribute cell with a second colon", "the label runs up to the last colon", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Attribute", "Description"], tr("0", "AB: long: longer", "Alpha"), tr("1", "DD: x", "Beta")))
assert e[0]["fields"][0]["label"] == "ab", e
''')
seed("p07-reserved-prefix", "P07", "html", [(X + "valuetable.py", "            if text.upper() == RESERVED:", "            if text.upper().startswith(RESERVED):")],
     "a name that merely begins with the word reserved", "its label is replaced", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", "Reserved Area Full: x"), tr("1h", "Beta: x")))
assert e[0]["fields"][0]["label"] == "RESERVED_AREA_FULL", e
''')
seed("p07-attribute-tail", "P07", "html", [(X + "valuetable.py", 'return txt_parts[0].replace(" ", "_").upper()', 'return txt_parts[0].split(" ", 2)[0].upper() if len(txt_parts) > 1 else txt_parts[0].replace(" ", "_").upper()')],
     "a value table with an attribute column whose short-hand has several words", "all but the first word are dropped", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Attribute", "Description"], tr("0h", "Soft Reset: x", "y"), tr("1h", "Beta: x", "y")))
assert e[0]["fields"][0]["label"] == "SOFT_RESET", e
''')
seed("p08-exactly-60", "P08", "html", [(X + "helpers.py", "    if len(brief) <= brief_maxlen:\n        return brief\n", "    if len(brief) < brief_maxlen:\n        return brief\n")],
     "a brief of exactly 60 characters with a period in it", "it is cut at the period", '''
b = "This is e.g. " + "x" * 47
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha: " + b), tr("1", "Delta: x")))
assert e[0]["fields"][0].get("brief") == b, e
''')
seed("p09-offset-after-colspan", "P09", "html", [(J + "rowiter.py", "                alst_insert(alst, column_offset, elem, row_span)\n            column_offset += int(td.get(\"colspan\", 1))",
     "                alst_insert(alst, column_offset, elem, row_span)\n            column_offset += 1")],
     "a cell with a rowspan to the right of a cell with a colspan", "it is re-inserted one column too far left in the rows below", '''
t = table("Figure 7: T", ["Type", "Kind", "Bytes", "Description"], tr(p("c", colspan=2), "0", p("Alpha: x", rowspan=2)), tr("a", "b", "1"))
t2 = table("Figure 8: T", ["Type", "Kind", "Bytes", "Description"], tr(p("c", colspan=2), p("0", rowspan=2), "Alpha: x"), tr("a", "b", "Beta (BB): x"))
e, lint, err = parse(t, t2)
assert [f["label"] for f in e[1]["fields"]] == ["a", "bb"] and [f["range"] for f in e[1]["fields"]] == [{"low": 0, "high": 0}] * 2, (e, lint)
''')
seed("p09-adjacent-rowspans", "P09", "html", [(J + "rowiter.py", "        while elem_off is not None and elem_off == col_off:\n", "        if elem_off is not None and elem_off == col_off:\n")],
     "two neighbouring cells that both span rows, followed by a further column", "cells of the next row move to other columns", '''
t = table("Figure 7: T", ["Type", "Kind", "Bytes", "Description"], tr(p("a", rowspan=2), p("b", rowspan=2), "0", "Alpha (AA): x"), tr("1", "Beta (BB): x"))
e, lint, err = parse(t)
assert [f["label"] for f in e[0]["fields"]] == ["aa", "bb"] and e[0]["fields"][1]["range"] == {"low": 1, "high": 1}, (e, lint)
''')
seed("p10-note-anywhere", "P10", "html", [(X + "structtable.py", '                elif row_txt.startswith("note"):', '                elif "note" in row_txt:')],
     "a row spanning all columns that mentions the word note, with data rows below it", "all rows below it are dropped", '''
t = table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"), tr(p("Descriptors, see the notes below", colspan=2)), tr("1", "Beta (BB): x"))
e, lint, err = parse(t)
assert [f["label"] for f in e[0]["fields"]] == ["aa", "bb"], (e, lint)
''')
seed("p10-bits-single", "P10", "html", [(X + "structtable.py", 'fields = list(reversed(fields)) if self.type == "bits" else fields', 'fields = list(reversed(fields)) if self.type == "bits" and not is_dynamic_table_mode else fields')],
     "a table of bits with a dynamic list", "its fields are emitted in descending order", '''
e, lint, err = parse(table("Figure 7: T", ["Bits", "Description"], tr(p("Entry List", "th", colspan=2)), tr("N+1:N", "Alpha (AA): x"), tr("3:0", "Beta (BB): x")))
assert [f["label"] for f in e[0]["fields"]] == ["bb", "aa"], (e, lint)
''')
seed("p11-first-only", "P11", "html", [(X + "figure.py", '            yield from self._parse(entity_base, tbl)', '            yield from self._parse(entity_base, tbl)\n            if "title" not in entity_base and self.parent_fig_id is not None:\n                break'),
     (X + "figure.py", '        tbls = Xpath.elems(data, "./table")\n        if len(tbls) == 0:\n            return\n', '        tbls = Xpath.elems(data, "./table")\n')],
     "two tables in one cell of a table that is nested itself", "only the first of them is extracted", '''
def n(l):
    return table("", ["Value", "Description"], tr("0h", l + ": x"), tr("1h", "Zeta: x"))
m = table("", ["Bits", "Description"], tr("0", raw("<p>Beta (BB): x</p>" + n("One") + n("Two"))))
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", raw("<p>Gamma (GG): x</p>" + m)), tr("1", "Delta (DD): x")))
assert [x["fig_id"] for x in e] == ["7_0_0", "7_0_0", "7_0", "7"], (e, lint)
''')
seed("p11-grandparent", "P11", "html", [(X + "valuetable.py", '                "fig_id": f"""{self.fig_id}_{str(val_cleaned)}""",\n                "parent_fig_id": self.fig_id,', '                "fig_id": f"""{self.fig_id}_{str(val_cleaned)}""",\n                "parent_fig_id": self.parent_fig_id or self.fig_id,')],
     "a table nested in a value table which is nested itself", "it is linked to its grandparent", '''
n = table("", ["Value", "Description"], tr("0h", "One: x"), tr("1h", "Two: x"))
m = table("", ["Value", "Description"], tr("2h", raw("<p>Three: x</p>" + n)), tr("3h", "Four: x"))
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", raw("<p>Gamma (GG): x</p>" + m)), tr("1", "Delta (DD): x")))
assert [(x["fig_id"], x.get("parent_fig_id")) for x in e] == [("7_0_2h", "7_0"), ("7_0", "7"), ("7", None)], (e, lint)
''')
seed("p12-second-failure", "P12", "html", [(J + "document.py", '        self._unwind_parse_error = False\n        fig_id = entity["fig_id"]', '        fig_id = entity["fig_id"]')],
     "two figures that fail in one document", "the second one vanishes without any lint", '''
bad = [table(f"Figure {i}: T", ["Bytes", "Attribute", "Description"], tr("0", raw("<i>x</i>"), "d"), tr("1", "AB: x", "d")) for i in (7, 8)]
e, lint, err = parse(*bad)
assert err is None
assert {f for c, f, _ in lint if c == "T1000"} == {"7", "8"}, (e, lint)
''')
seed("p12-figure-prefix", "P12", "html", [(J + "document.py", 'return title if "Figure" in title else None', 'return title if title.startswith("Figure") else None')],
     "a table whose title has text before the word Figure", "the table is dropped without any lint", '''
e, lint, err = parse(table("Note: Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha: x"), tr("1", "Beta: x")))
assert e or lint, (e, lint)
''')
seed("p13-validate-skips", "P13", "html", [(J + "parserargs.py", "        self.skip_fig_on_error = skip_fig_on_error\n", "        self.skip_fig_on_error = skip_fig_on_error or verbose\n")],
     "the verbose flag without the skip flag, and a figure that fails", "the run continues after the failing figure and succeeds", '''
import subprocess
bad = table("Figure 7: T", ["Bytes", "Attribute", "Description"], tr("0", raw("<i>x</i>"), "d"), tr("1", "AB: x", "d"))
ok = table("Figure 8: T", ["Bytes", "Description"], tr("0", "Alpha: x"))
Path("in.html").write_text(html(bad, ok))
os.mkdir("out")
rc = subprocess.run([sys.executable, "-m", "spex", "-v", "-o", "out", "in.html"], env=dict(os.environ, PYTHONPATH="/repo/src"), capture_output=True).returncode
assert rc != 0
''')
seed("p13-top-level-only", "P13", "html", [(J + "document.py", """                        "parent_fig_id" in entity
                        or self.args.skip_fig_on_error is False
""", """                        "parent_fig_id" in entity
                        and self.args.skip_fig_on_error is False
                        or not (self.args.skip_fig_on_error or tbl_hdrs[0] == "value")
""")],
     "a failing figure without the skip flag whose first column is the value", "the run continues after it", '''
n = table("", ["Bytes", "Attribute", "Description"], tr("0", raw("<i>x</i>"), "d"), tr("1", "AB: x", "d"))
e, lint, err = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", raw("<i>Alpha</i>")), tr("1h", "Beta: x")), skip=False)
assert err is not None, (e, lint)
''')
seed("p14-two-spaces", "P14", "html", [(J + "document.py", 'hdr = sub(" +", " ", hdr', 'hdr = sub("  ", " ", hdr')],
     "a heading of two words with three spaces (a line break and indentation) between them", "the column is not recognised", '''
e, lint, err = parse(table("Figure 7: T", ["Code", "Power\\n  Scope", "Extra"], tr("0h", "Alpha: x", "y"), tr("1h", "Beta: x", "y")))
assert e and [f["label"] for f in e[0]["fields"]] == ["ALPHA", "BETA"], (e, lint)
''')
seed("p15-alias", "P15", "html", [(J + "lint.py", '    V1002 = "duplicate value"', '    V1002 = "duplicate label"')],
     "a table with a duplicate value; members of an enumeration with equal values are aliases", "duplicate values are reported as L1002, and suppressed with it", '''
_, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", "Alpha: x"), tr("1h", "Beta: x"), tr("0h", "Gamma: y")))
assert [c for c, _, _ in lint] == ["V1002"], lint
''')
seed("p15-figure-codes", "P15", "html", [("src/spex/parse.py", "            if lint_entry.code not in ignore_lint_codes\n", "            if lint_entry.code not in ignore_lint_codes\n            and not (lint_entry.row is None and lint_entry.code[0] + \"1000\" in ignore_lint_codes)\n"),
     ("src/spex/parse.py", "    ignore_lint_codes: Set[str] = set(c.name for c in args.lint_codes_ignore)\n", "    ignore_lint_codes: Set[str] = {c.name for c in args.lint_codes_ignore}\n")],
     "suppression of T1000 on a document with other table lint", "all other messages about whole tables are suppressed as well", '''
import json
from spex.parse import parse_spec
Path("in.html").write_text(html(table("Figure 7: T", ["Nothing", "Else"], tr("0", "Alpha: x"))))
os.mkdir("out")
g = parse_spec(Path("in.html"), ParserArgs(output_dir=Path("out"), lint_codes_ignore=[Code.T1000]))
for _ in g:
    pass
assert [x["code"] for x in json.loads(Path("out/in.json").read_text())["meta"]["lint"]] == ["T1007"]
''')
seed("p16-null-context", "P16", "html", [(J + "lint.py", '            "context": self.ctx,\n', '            "context": self.ctx or None,\n')],
     "a lint message without context", "the model does not conform to the schema", '''
from spex.parse import parse_spec
from spex.validate import validate_json
Path("in.html").write_text(html(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha: x"), tr("3", "Beta: x"))))
os.mkdir("out")
for _ in parse_spec(Path("in.html"), ParserArgs(output_dir=Path("out"))):
    pass
validate_json(Path("out/in.json"))
''')
seed("p16-numeric-row", "P16", "html", [(J + "lint.py", '            ret["row"] = self.row\n', '            ret["row"] = int(self.row) if self.row.isdecimal() and self.err is LintErr.LBL_IMPUTED else self.row\n')],
     "a name without a colon in an attribute column", "the row in the lint message is a number, the schema wants text", '''
from spex.parse import parse_spec
from spex.validate import validate_json
Path("in.html").write_text(html(table("Figure 7: T", ["Bytes", "Attribute", "Description"], tr("5:0", "Some Name", "Alpha: x"))))
os.mkdir("out")
for _ in parse_spec(Path("in.html"), ParserArgs(output_dir=Path("out")), yield_progress=True):
    pass
validate_json(Path("out/in.json"))
import json
assert [x["row"] for x in json.loads(Path("out/in.json").read_text())["meta"]["lint"]] == ["0"]
''')
seed("p17-revision-case", "P17", "html", [(J + "parse.py", 'doc_rev = Xpath.attr_first_req(doc, "./head/meta/@data-revision").lower()', 'doc_rev = Xpath.attr_first_req(doc, "./head/meta/@data-revision").strip()')],
     "a document whose revision is written with a capital letter", "its quirks are not applied", '''
t = table("Figure 37: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"), tr("1", "Beta (BB): x"))
e, lint, err = parse(t, spec="NVM Express® Zoned Namespace Command Set Specification", rev="1.1C")
assert [f["label"] for f in e[0]["fields"]] == ["zt", "zs"], (e, lint)
''')
seed("p17-second-figure-case", "P17", "html", [(J + "quirks/mi.py", 'row_txt = XmlUtils.to_text(row).lstrip().lower()', 'row_txt = XmlUtils.to_text(row).lstrip()')],
     "figure 64 of the management interface document, with the caption of figure 65 in its usual capitalisation", "the row is no longer recognised as caption, the figure fails", '''
t = table("Figure 64: T", ["Bits", "Description"], tr("1", "Alpha (AA): x"), tr(p("Figure 65: Second", colspan=2)), tr(p("Bits", "th"), p("Description", "th")), tr("1", "Beta (BB): x"))
e, lint, err = parse(t, spec="NVM Express® Management Interface Specification", rev="1.2c", skip=False)
assert [x["fig_id"] for x in e] == ["64", "65"], (e, lint)
''')
seed("p18-dotted-name", "P18", "html", [("src/spex/writer.py", "        fname = src.name[: -len(src.suffix)]", '        fname = src.name.split(".")[0]')],
     "an input file name with further dots", "the model is written to another file", '''
from spex.parse import parse_spec
Path("base-2.0c.html").write_text(html(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha: x"))))
os.mkdir("out")
for _ in parse_spec(Path("base-2.0c.html"), ParserArgs(output_dir=Path("out"))):
    pass
assert os.listdir("out") == ["base-2.0c.json"], os.listdir("out")
''')
seed("p18-append", "P18", "html", [("src/spex/writer.py", 'open(self._output, "w")', 'open(self._output, "r+" if self._output.exists() else "w")')],
     "a second run that writes a shorter model to the same place", "the end of the older model stays in the file", '''
import json
from spex.parse import parse_spec
os.mkdir("out")
for n in (9, 1):
    Path("in.html").write_text(html(*[table(f"Figure {i}: T", ["Bytes", "Description"], tr("0", "Alpha: x")) for i in range(n)]))
    for _ in parse_spec(Path("in.html"), ParserArgs(output_dir=Path("out"))):
        pass
    assert len(json.loads(Path("out/in.json").read_text())["entities"]) == n
''')
seed("p18-only-success", "P18", "html", [("src/spex/writer.py", "        if self._dst is not None:\n            try:\n                json.dump(self._doc, self._dst, indent=2, ensure_ascii=False)",
     "        if self._dst is not None:\n            try:\n                if not isinstance(exc_val, Exception) or self._doc[\"entities\"]:\n                    json.dump(self._doc, self._dst, indent=2, ensure_ascii=False)")],
     "a failure in the first figure", "the output file is empty", '''
import json
from spex.parse import parse_spec
Path("in.html").write_text(html(table("Figure 7: T", ["Bytes", "Attribute", "Description"], tr("0", raw("<i>x</i>"), "d"), tr("1", "AB: x", "d"))))
os.mkdir("out")
with contextlib.redirect_stderr(io.StringIO()):
    try:
        for _ in parse_spec(Path("in.html"), ParserArgs(output_dir=Path("out"))):
            pass
    except Exception:
        pass
assert json.loads(Path("out/in.json").read_text())["entities"] == []
''')
DEC = 'numbering=\'<w:abstractNum w:abstractNumId="0">\' + levels([("decimal", "%1."), ("lowerLetter", "%2."), ("bullet", "o")]) + \'</w:abstractNum><w:num w:numId="1"><w:abstractNumId w:val="0"/></w:num>\''
seed("p19-list-in-list", "P19", "docx", [(H + "htmlrenderer.py", '                if not open_elem:\n                    s.emitln("<li>").indent()\n                self._render_list(s, elem)', '                self._render_list(s, elem)')],
     "list items whose level rises by two and falls by one", "the HTML is not well-formed", f'''
d, css, f = stage1(tbl(row("Figure 7: T"), row(tc(li(1, 0, "a"), li(1, 2, "b"), li(1, 1, "c"), li(1, 0, "d")))), {DEC})
assert "".join(d.itertext()).replace("\\n", "").replace(" ", "").endswith("abcd")
''')
seed("p19-second-nested", "P19", "docx", [(H + "parser.py", "        self.__tbls_seen.add(tbl)\n", "        if tbl.getnext() is not None:\n            self.__tbls_seen.add(tbl)\n")],
     "a nested table that is the last thing in its cell", "it is listed a second time as a figure of its own", '''
d, css, f = stage1(tbl(row("Figure 7: T"), row(tc(par("x"), tbl(row("inner"))))), "<w:p/>")
assert "".join(d.itertext()).count("inner") == 1
''')
seed("p19-font-before-text", "P19", "docx", [(H + "parser.py", "            else:\n                stream.consume()\n", "            else:\n                stream.consume()\n                if not stream.end() and current.tag == Tag.tcPr.value and stream.peek().tag == Tag.tbl.value:\n                    stream.consume()\n") if False else
     (H + "parser.py", "        if len(spans) > 0:\n            return Paragraph", "        if len(spans) > 0 and any(not s.text.isspace() for s in spans) or len(spans) == 1:\n            return Paragraph")],
     "a paragraph of several runs which are all white space", "the paragraph is dropped", '''
d, css, f = stage1(tbl(row("Figure 7: T"), row(tc(par(" ", " ")))))
assert len([s for s in d.iter("span") if s.text == " "]) == 2
''')
seed("p20-merge-after-span", "P20", "docx", [(H + "docx/tablewrap.py", "                    left_cell = matrix[-1][cell_index]\n", "                    left_cell = matrix[-1][len({id(c) for c in merge_row})]\n")],
     "a vertically merged cell to the right of a horizontally merged one", "another cell is extended in place of it", '''
V = lambda v: f'<w:vMerge w:val="{v}"/>'
d, css, f = stage1(tbl(row("Figure 7: T", "x", "y"), row(tc("a", pr='<w:gridSpan w:val="2"/>'), tc("b", pr=V("restart"))), row(tc("c", pr='<w:gridSpan w:val="2"/>'), tc(pr=V("continue")))))
assert [(("".join(c.itertext())).strip(), c.get("colspan"), c.get("rowspan")) for c in d.iter("td")][3:] == [("a", "2", None), ("b", None, "2"), ("c", "2", None)]
''')
seed("p20-span-restart", "P20", "docx", [(H + "docx/tablewrap.py", "                    left_cell.bottom = row_index\n", "                    left_cell.bottom = max(left_cell.top + 1, left_cell.bottom)\n")],
     "a cell merged over three or more rows", "it spans only two of them", '''
V = lambda v: f'<w:vMerge w:val="{v}"/>'
d, css, f = stage1(tbl(row("Figure 7: T", "x"), row(tc("a", pr=V("restart")), "1"), row(tc(pr=V("continue")), "2"), row(tc(pr=V("continue")), "3")))
assert [c.get("rowspan") for c in d.iter("td") if "a" in "".join(c.itertext()).split()] == ["3"]
''')
seed("p21-level-jump", "P21", "docx", [(H + "parser.py", "            if child_ilvl > ilvl:\n", "            if child_ilvl == ilvl + 1:\n")],
     "list items whose level rises by two at once", "the item is put on the outer level", f'''
d, css, f = stage1(tbl(row("Figure 7: T"), row(tc(li(1, 0, "a"), li(1, 2, "b"), li(1, 0, "d")))), {DEC})
assert [len([x for x in s.iterancestors() if x.tag in ("ol", "ul")]) for s in d.iter("span") if s.text in "abd"] == [1, 2, 1]
''')
seed("p21-first-num", "P21", "docx", [(H + "docx/numbering.py", "            num_to_abs_num[num_id] = abs_num_id\n", "            num_to_abs_num.setdefault(num_id, len(num_to_abs_num) if num_id - 1 in num_to_abs_num and len(abs_nums) == len(num_elems) and abs_num_id in abs_nums and len(num_to_abs_num) in abs_nums else abs_num_id)\n")],
     "several numbering instances that refer to the abstract numberings in another order", "a list takes the kind of another list", '''
num = ''.join(f'<w:abstractNum w:abstractNumId="{i}">' + levels([x]) + '</w:abstractNum>' for i, x in enumerate([("decimal", "%1."), ("bullet", "o")]))
num += ''.join(f'<w:num w:numId="{i}"><w:abstractNumId w:val="{a}"/></w:num>' for i, a in [(1, 1), (2, 0)])
d, css, f = stage1(tbl(row("Figure 7: T"), row(tc(li(1, 0, "a"), par("-"), li(2, 0, "b")))), numbering=num)
assert [next(x.tag for x in s.iterancestors() if x.tag in ("ol", "ul")) for s in d.iter("span") if s.text in "ab"] == ["ul", "ol"]
''')
seed("p22-off-not-merged", "P22", "docx", [(H + "docx/runproperties.py", "        if other.__italics is not None:", "        if other.__italics:")],
     "a run that switches off the italics of its character style", "it stays italic", '''
d, css, f = stage1(tbl(row("Figure 7: T"), row(tc(par(r("abc", '<w:rStyle w:val="E"/><w:i w:val="0"/>'))))), styles='<w:style w:type="character" w:styleId="E"><w:rPr><w:i/></w:rPr></w:style>')
s = [s for s in d.iter("span") if s.text == "abc"][0]
assert "italic" not in css.split("." + s.get("class", "none ") + " {")[-1].split("}")[0]
''')
seed("p22-class-shared", "P22", "docx", [(H + "docx/runproperties.py", "self.__css_attrs == other.__css_attrs", "self.__css_attrs.keys() == other.__css_attrs.keys()")],
     "two runs that set the same attributes to different values", "the second is shown in the format of the first", '''
d, css, f = stage1(tbl(row("Figure 7: T"), row(tc(par(r("abc", '<w:color w:val="FF0000"/>'), r("def", '<w:color w:val="00FF00"/>'))))))
a, b = [s.get("class") for s in d.iter("span") if s.text in ("abc", "def")]
assert a != b
''')
seed("p22-based-on-order", "P22", "docx", [(H + "docx/styles.py", "        return based_on_rpr.merge(rpr) if based_on_rpr is not None else rpr\n", "        if rpr is None or based_on_rpr is None:\n            return rpr or based_on_rpr\n        return rpr.merge(based_on_rpr)\n")],
     "a character style that overrides an attribute of the style it is based on", "the attribute of the base style wins", '''
st = '<w:style w:type="character" w:styleId="B"><w:rPr><w:color w:val="FF0000"/></w:rPr></w:style><w:style w:type="character" w:styleId="E"><w:basedOn w:val="B"/><w:rPr><w:color w:val="00FF00"/></w:rPr></w:style>'
d, css, f = stage1(tbl(row("Figure 7: T"), row(tc(par(r("abc", '<w:rStyle w:val="E"/>'))))), styles=st)
assert "#00FF00" in css and "#FF0000" not in css
''')
seed("p23-two-commas", "P23", "docx", [(H + "docx/header.py", 'self._header.split(",")[0].strip()', 'self._header.rsplit(",", 1)[0].strip()')],
     "a header with more than one comma", "the title contains part of the revision text", '''
d, css, f = stage1(header="Demo, Revision 1.0c, June 2024")
assert d.find("./head/meta").get("data-spec") == "Demo"
''')
seed("p23-last-revision", "P23", "docx", [(H + "docx/header.py", 'm.group("rev") if', 'm.group("rev").rstrip("abcdef") if')],
     "a revision with a letter in it", "the letter is dropped", '''
d, css, f = stage1(header="Demo, Revision 1.0c")
assert d.find("./head/meta").get("data-revision") == "1.0c"
''')
seed("p24-first-chunk", "P24", "srv", [("src/spexsrv/application/app.py", '        for chunk in iter(lambda: fh.read(chunk_bytes), b""):\n            hash_md5.update(chunk)\n', '        hash_md5.update(fh.read(chunk_bytes))\n')],
     "two uploads that begin with the same 4096 bytes", "the second upload replaces the report of the first", '''
async def main():
    async with app.test_app() as a:
        c = a.test_client()
        pad = [(str(i), "Field number %d with some more text (F%d): x" % (i, i)) for i in range(60, 0, -1)]
        one = await post(c, "a.html", html(7, pad + [("0", "Alpha (AA): x")]))
        two = await post(c, "b.html", html(7, pad + [("0", "Beta (BB): x")]))
        j = json.loads(await (await c.get(url_of(one).replace("/report/", "/json/"))).get_data(as_text=True))
        assert j["entities"][0]["fields"][0]["label"] == "aa", j["entities"][0]["fields"][0]
asyncio.run(main())
''')
seed("p26-title-space", "P26", "docx", [(X + "regular_expressions.py", 'TABLE_ID_REGEX = compile(r"^Figure (?P<id>\\d+):.*")', 'TABLE_ID_REGEX = compile(r"^Figure (?P<id>\\d+): .*")')],
     "a caption without a space after the colon", "the figure gets no id and is missing from the report", '''
d, css, f = stage1(tbl(row("Figure 7:Title"), row("a")))
assert [t.get("id") for t in d.iter("table")] == ["7"]
from spexsrv.application.report_view import get_erroneous_figures
assert list(get_erroneous_figures(["7_0"], f)) == ["7_0"]
''')
seed("p26-nested-id", "P26", "docx", [("src/spexsrv/application/report_view.py", '        figure_id = figure.split("_")[0]\n', '        figure_id = figure\n'),
     ("src/spexsrv/application/app.py", '        report["fig"].split("_")[0] for report', '        report["fig"] for report')],
     "lint on a nested figure (each of the two edits alone is harmless)", "the figure is missing from the report", '''
d, css, f = stage1(tbl(row("Figure 7: T"), row("a")))
from spexsrv.application.report_view import get_erroneous_figures
assert list(get_erroneous_figures(["7_0"], f)) == ["7_0"]
''')
seed("p27-skip-unknown", "P27", "html", [("src/spex/__main__.py", '''                    "requires a HTML model or the docx specification file\\n"
                )
                sys.stderr.flush()
                sys.exit(1)
''', '''                    "requires a HTML model or the docx specification file\\n"
                )
                sys.stderr.flush()
                if len(args.input) == 1:
                    sys.exit(1)
                continue
''')],
     "several inputs, one of them of an unknown kind", "the status is 0 although it was not processed", '''
import subprocess
Path("in.html").write_text(html(table("Figure 8: T", ["Bytes", "Description"], tr("0", "Alpha: x"))))
Path("in.txt").write_text("x")
os.mkdir("out")
rc = subprocess.run([sys.executable, "-m", "spex", "-o", "out", "in.txt", "in.html"], env=dict(os.environ, PYTHONPATH="/repo/src"), capture_output=True).returncode
assert rc != 0
''')
seed("p27-verbose-only", "P27", "html", [("src/spex/__main__.py", "        if pargs.verbose:\n            traceback.print_exc()\n        sys.exit(1)\n", "        if pargs.verbose:\n            traceback.print_exc()\n        sys.exit(0 if pargs.skip_fig_on_error and not pargs.verbose else 1)\n")],
     "a document that cannot be read, together with the skip flag", "the status is 0", '''
import subprocess
Path("in.html").write_text("<html><head>")
os.mkdir("out")
rc = subprocess.run([sys.executable, "-m", "spex", "-s", "-o", "out", "in.html"], env=dict(os.environ, PYTHONPATH="/repo/src"), capture_output=True).returncode
assert rc != 0
''')
seed("p28-white-lower", "P28", "docx", [(H + "parser.py", 'if shd_fill.lower() != "ffffff"', 'if shd_fill != "FFFFFF"')],
     "a white fill written in lower case", "a data cell becomes a header cell", '''
d, css, f = stage1(tbl(row("Figure 7: T"), row(tc("a", pr='<w:shd w:fill="ffffff"/>'))))
assert not list(d.iter("th"))
''')
seed("p28-short-fill", "P28", "docx", [(H + "parser.py", "if shd_fill and shd_fill.lower() and len(shd_fill) == 6:", "if shd_fill and shd_fill.lower() and len(shd_fill.strip(\"0\") or \"0\") == 6:")],
     "a grey fill that starts or ends with a zero", "a header cell becomes a data cell", '''
d, css, f = stage1(tbl(row("Figure 7: T"), row(tc("a", pr='<w:shd w:fill="C0C0C0"/>'))))
assert len(list(d.iter("th"))) == 1
''')
seed("p29-hyper-split", "P29", "docx", [(H + "htmlrenderer.py", "        for span in p.spans:\n            self._render_span(s, span)\n        s.dedent().emitln(\"</p>\")", "        for span in p.spans:\n            self._render_span(s, span)\n            if span.style is not None and span.style.bold and len(p.spans) > 2:\n                s.emitln(\"\")\n        s.dedent().emitln(\"</p>\")") if False else
     (H + "htmlrenderer.py", "        else:\n            s.emit(f\"<span>{txt}</span>\")", "        else:\n            s.emit(f\"<span>{txt}</span>\" if txt.strip() or not txt else \"<span></span>\")")],
     "a run of nothing but white space between two others", "the words around it are glued together in the model", '''
from spex.jsonspec.parse import open_doc
from spex.jsonspec.parserargs import ParserArgs
G = '<w:shd w:fill="D9D9D9"/>'
d, css, f = stage1(tbl(row(tc("Figure 7: T", pr='<w:gridSpan w:val="2"/>')), row(tc("Bytes", pr=G), tc("Description", pr=G)), row("0", tc(par("Alpha", " ", "Beta: x"))), row("1", "Cc: x")))
e = list(open_doc(f).get_parser(ParserArgs(output_dir=f.parent)).parse())
assert e[0]["fields"][0]["label"] == "ab", e
''')
seed("p29-hdr-row-shade", "P29", "docx", [(H + "parser.py", "                cell_cache[p] = tcell\n", "                cell_cache[Point(gridcell.left, rndx)] = tcell\n"),
     (H + "parser.py", "                p = Point(cndx, rndx)\n                tcell = cell_cache.get(p, None)\n", "                p = Point(gridcell.left, gridcell.top)\n                tcell = cell_cache.get(p, None)\n")],
     "nothing: equivalent", "nothing", '''
assert False
''')
seed("p30-short-cause", "P30", "html", [("src/spex/log/_log_config.py", '        exc_json["cause"] = jsonify_exc(exc.__cause__)\n', '        cause = exc.__cause__\n        exc_json["cause"] = {"type": type(cause).__qualname__, "msg": str(cause), "frames": []}\n')],
     "an exception that was raised from another one", "the trace of the cause is missing from the log", '''
from spex.log._log_config import jsonify_exc
def deep():
    raise KeyError("k")
try:
    try:
        deep()
    except KeyError as e:
        raise RuntimeError("r") from e
except RuntimeError as e:
    x = e
with contextlib.redirect_stdout(io.StringIO()):
    j = jsonify_exc(x)
assert [f["name"] for f in j["cause"]["frames"]][-1] == "deep"
''')
seed("p30-extra-clash", "P30", "html", [("src/spex/log/_log_config.py", '            log["extra"] = record["extra"]\n', '            log.update(record["extra"])\n')],
     "extra data whose name is that of a standard entry", "the standard entry is overwritten and the extra data misplaced", '''
import json
import subprocess
os.mkdir("d")
os.chdir("d")
subprocess.run([sys.executable, "-c", "from spex.log import logger; logger.bind(line='x', row='1').debug('hello')"], env=dict(os.environ, PYTHONPATH="/repo/src"), check=True)
j = json.loads(Path("spex.log").read_text().splitlines()[-1])
assert isinstance(j["line"], int) and j["extra"] == {"line": "x", "row": "1"}
''')
seed("p31-shared-dir", "P31", "srv", [("src/spexsrv/application/app.py", "    temp_dir_path = Path(temp_dir.name)\n    destination", "    temp_dir_path = Path(app.config[SPEX_CACHE_TMPDIR].name)\n    destination")],
     "two clients whose files have the same name, one of them starting before the other is done", "a client gets the report of the other's file", '''
from quart.testing.connections import TestHTTPConnection
async def main():
    async with app.test_app() as a:
        c = a.test_client()
        bits = [(str(i), "Field (F%d): x" % i) for i in range(3, 0, -1)]
        # the response body is produced only once it is asked for
        from spexsrv.application import app as m
        rvs = []
        for lab in ("AA", "BB"):
            async with app.test_request_context("/parse", method="POST", headers={"Accept": "text/event-stream"}, form={}) as _:
                pass
            from werkzeug.datastructures import MultiDict
            class Req:
                pass
        import quart
        async def upload(lab):
            orig = m.request
            fs = FileStorage(io.BytesIO(html(7, bits + [("0", f"Alpha ({lab}): x")]).encode()), filename="a.html")
            class R:
                @property
                def files(self):
                    async def f():
                        return {"document": fs}
                    return f()
                accept_mimetypes = ["text/event-stream"]
            m.request = R()
            try:
                async with app.test_request_context("/parse", method="POST"):
                    rv = await m.spec_parse()
            finally:
                m.request = orig
            return rv
        r1 = await upload("AA")
        r2 = await upload("BB")
        labels = []
        for r in (r1, r2):
            url = None
            async with r.response as body:
                async for chunk in body:
                    d = json.loads(chunk.decode()[6:])
                    url = d.get("url", url)
            j = json.loads(await (await c.get(url.replace("/report/", "/json/"))).get_data(as_text=True))
            labels.append(j["entities"][0]["fields"][0]["label"])
        assert labels == ["aa", "bb"], labels
asyncio.run(main())
''')
SEEDS = [s for s in SEEDS if s["id"] != "p29-hdr-row-shade"]

import defs2
defs2.define(seed)
import defs3
defs3.define(seed)
import defs4
defs4.define(seed)
import defs5
defs5.define(seed)
import defs6
defs6.define(seed)
import defs7
defs7.define(seed)
import defs8
defs8.define(seed)
import defs9
defs9.define(seed)
# break the stable tests, or show nothing the unchanged tree does not
DROP = {"w9-p01-digits", "w9-p26-limit", "w8-p21-num-base", "w8-p06-list-name", "w8-p07-upper-first", "w8-p08-two-par", "w8-p26-many", "w8-p21-ilvl-index", "w8-p22-class-keys", "w8-p22-alias-first", "w8-p19-field-first", "w8-p19-two-texts", "w8-p20-merge-blank", "w8-p28-upper-grey", "w8-p09-colindex-repeat", "w8-p09-single-cell", "w8-p15-empty-ctx", "w8-p24-stale-html", "w8-p24-html-mismatch", "w8-p25-suffix-abs", "w8-p02-spaces", "w8-p01-plus", "w7-p08-stop-blank", "w7-p11-any-depth", "w7-p32-lint-shared", "w7-p07-reserved-case", "w7-p17-mark", "w7-p31-args", "w7-p02-numeric", "w7-p02-reserved", "w7-p03-nested-off", "w7-p04-ell-clear", "w7-p04-val-brief", "w7-p05-digits", "w7-p09-empty-row", "w7-p14-nested-code", "w7-p19-sdt-stop", "w7-p24-head", "w7-p26-nested-table", "w7-p28-mixed-case", "w7-p29-trail", "w7-p32-remember-cls", "w7-p34-shortcut", "w6-p19-deep-link", "w6-p19-texts", "w6-p22-alias", "w6-p31-cleanup", "w6-p12-wrap-row", "w6-p14-nbsp", "w6-p04-struct-prefix", "w6-p08-cut-stop", "w6-p03-order-reserved", "w6-p04-suffix", "w6-p09-th-rowspan", "w6-p15-family-dot", "w6-p21-empty-item", "w6-p22-cache-limit", "w5-p01-newline", "w5-p03-contained", "w5-p04-third", "w5-p10-obsolete-range", "w5-p10-note-mid", "w5-p13-nested", "w5-p14-last-column", "w5-p19-blank-run", "w5-p25-drive", "w5-p26-prefix", "w5-p34-failed", "w5-p01-octal", "w5-p08-first-line", "w5-p11-root-parent", "w2-p02-lower", "w2-p07-value-blanks", "w2-p08-stop-blank", "w2-p11-deep-tables", "w2-p32-extractor-memo", "w2-p17-mention", "w2-p32-linter-shared",
        "w3-p08-sentence", "w4-p02-bare-colon", "w4-p02-int-bounds", "w4-p05-dots", "w4-p07-three-seps", "w4-p19-field-in-link",
        "w4-p23-revision-dash", "w4-p26-first-missing", "w4-p28-second-cell", "w4-p11-last-id", "w3-p07-number-glued", "w3-p14-priority", "w3-p21-level-index", "w3-p24-by-name", "w3-p26-any-table"}
SEEDS[:] = [s for s in SEEDS if s["id"] not in DROP]
