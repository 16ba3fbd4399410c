"""Ninth wave of planted bugs."""
from defs4 import A, CLI, H, J, X
from defs5 import UP
from defs8 import CLI_JSON

SCHEMA = "src/spex/resources/stage2.schema.json"


def define(seed):
    seed("w9-p10-note-first", "P10", "html", [(X + "structtable.py", '                elif row_txt.startswith("note"):\n', '                elif row_txt.startswith("note") and len(fields) > 1:\n')],
         "a notes row after a single field, with rows behind it", "the rows behind it are read as fields", '''
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"), tr(p("Notes: 1. z", colspan=2)), tr("1", "Beta (BB): x")))
assert [f["label"] for f in e[0]["fields"]] == ["aa"], (e, lint)
''')
    seed("w9-p10-ell-list", "P10", "html", [(X + "structtable.py", "                if row_txt.startswith(ELLIPSIS):\n", "                if row_txt.startswith(ELLIPSIS) and not is_dynamic_table_mode:\n")],
         "a row of an ellipsis only, in a list of dynamic entries", "it is lost", '''
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr(p("One List", "th", colspan=2)), tr("3:0", "Alpha (AA): x"), tr(p("…", colspan=2)), tr("n+3:n", "Beta (BB): x")))
assert [f["label"] for f in e[0]["fields"]] == ["aa", "…", "bb"], (e, lint)
''')
    seed("w9-p10-list-again", "P02", "html", [(X + "structtable.py", '                    if "List" in colspan and not is_dynamic_table_mode:\n                        is_dynamic_table_mode = True\n', '                    if "List" in colspan:\n                        is_dynamic_table_mode = not is_dynamic_table_mode\n')],
         "a table with two list headings", "behind the second one formulas are text again", '''
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr(p("A List", "th", colspan=2)), tr("3:0", "Alpha (AA): x"), tr(p("B List", "th", colspan=2)), tr("n+3:n", "Beta (BB): x")))
assert e[0]["fields"][1]["range"] == {"low": "n", "high": "n+3"}, (e, lint)
''')
    seed("w9-p11-list-id", "P11", "html", [(X + "structtable.py", '                "fig_id": f"""{self.fig_id}_{row_key}""",\n', '                "fig_id": f"""{self.fig_id}_{range_field if is_dynamic_table_mode else row_key}""",\n')],
         "a nested table in a row of a list of dynamic entries", "its id has the whole range", '''
inner = table(None, ["Value", "Description"], tr("0h", "Zero: x"))
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr(p("A List", "th", colspan=2)), tr("3:0", raw("<p>Alpha (AA): x</p>" + inner))))
assert e[0]["fig_id"] == "7_0", (e, lint)
''')
    seed("w9-p16-row-empty", "P16", "html", [(SCHEMA, '''"row": {
                "description": "ID of the row, if relevant. Is the value/code or lower-bound of range",
                "type": "string"''', '''"row": {
                "description": "ID of the row, if relevant. Is the value/code or lower-bound of range",
                "type": "string",
                "minLength": 1''')],
         "a finding about a row without range", "the model is not valid any more", CLI_JSON + '''
Path("a.html").write_text(html(table("Figure 7: T", ["Bytes", "Description"], tr("", "Alpha (AA): x"))))
assert run("--validate-json", "a.html") == 0
''')
    seed("w9-p24-md5-head", "P24", "srv", [(A + "app.py", '        for chunk in iter(lambda: fh.read(chunk_bytes), b""):\n            hash_md5.update(chunk)\n', '        for chunk in iter(lambda: fh.read(chunk_bytes * 4), b""):\n            hash_md5.update(chunk[:chunk_bytes])\n')],
         "two documents which differ behind their first four thousand bytes", "one is served under the address of the other", UP + '''
async def main():
    async with app.test_app():
        c = app.test_client()
        docs = [html("7", [("%d" % i, "Alpha (AA): " + "x" * 20) for i in range(100)] + [("200", n + " (ZZ): x")]) for n in ("Beta", "Gamm")]
        urls = [events((await upload(c, d))[1])[-1]["url"] for d in docs]
        for d, u in zip(docs, urls):
            assert await (await c.get(u.replace("/report/", "/html/"))).get_data() == d.encode()
asyncio.run(main())
''')
    seed("w9-p34-limit", "P34", "srv", [(A + "app.py", "50 * 1024 * 1024", "50 * 1024")],
         "a document of more than fifty thousand bytes", "it is refused", UP + '''
async def main():
    async with app.test_app():
        c = app.test_client()
        d = html("7", [("%d" % i, "Alpha (AA): " + "x" * 20) for i in range(1500)])
        s, body = await upload(c, d)
        assert s == 200 and events(body)[-1]["type"] == "report-completed", s
asyncio.run(main())
''')
    seed("w9-p06-small-words", "P06", "html", [(X + "helpers.py", '    return "".join(w[0] for w in text.split()).lower()\n', '    return "".join(w[0] for w in text.split() if w not in ("of", "and", "the")).lower()\n')],
         "a name with small words", "its acronym lacks their letters", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Number of Errors: x")))
assert e[0]["fields"][0]["label"] == "noe", e
''')
    seed("w9-p06-dash", "P06", "html", [(X + "helpers.py", '    return "".join(w[0] for w in text.split()).lower()\n', '    return "".join(w[0] for w in text.replace("-", " ").split()).lower()\n')],
         "a name with a dash in a word", "its acronym has a letter more", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Non-Volatile Memory: x")))
assert e[0]["fields"][0]["label"] == "nm", e
''')
    seed("w9-p01-digits", "P01", "html", [(X + "regular_expressions.py", r'''RANGE_REGEX = compile(r"(?P<high>\d+)\s*''', r'''RANGE_REGEX = compile(r"(?P<high>\d{1,6})\s*''')],
         "a number of seven digits or more", "the range is left as text", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("1048576:0", "Alpha (AA): x")))
assert e[0]["fields"][0]["range"] == {"low": 0, "high": 1048576}, (e, lint)
''')
    seed("w9-p23-first-text", "P23", "docx", [(H + "docx/header.py", '            e.text for e in Xpath.elems(self._elem, ".//w:t") if e.text is not None\n', '            e.text for e in Xpath.elems(self._elem, ".//w:p//w:t[not(ancestor::w:txbxContent)]") if e.text is not None\n')],
         "a header whose text is in a text box", "it is not found", '''
from lxml import etree as _e
x, _, _ = stage1(tbl(row("a")), header=None, header_xml="<w:p><w:r><w:txbxContent><w:p><w:r><w:t>NVM, Revision 1.0</w:t></w:r></w:p></w:txbxContent></w:r></w:p>")
assert x.find("./head/meta").get("data-spec") == "NVM", etree.tostring(x)
''') if False else None
    seed("w9-p12-inner-any", "P12", "html", [(J + "document.py", '            inner_tbl = Xpath.elem_first(tbl, "./tr[1]/td[1]/*[1]")\n', '            inner_tbl = Xpath.elem_first(tbl, "./tr[1]/td[1]/table[1]")\n')],
         "a figure with a table in its title row", "that table is taken for the figure", '''
t = "<table><tr><td><p>Figure 7: T</p><table><tr><td><p>z</p></td></tr></table></td></tr><tr><th><p>Bytes</p></th><th><p>Description</p></th></tr>" + tr("0", "Alpha (AA): x") + "</table>"
e, lint, err = parse(t)
assert len(e) == 1 and e[0]["fields"], (e, lint)
''')
    seed("w9-p14-headers-memo", "P32", "html", [(J + "document.py", '''        return [
            normalize_hdr(XmlUtils.to_text(thdr).lower().strip())
            for thdr in Xpath.elems(tbl, "./tr[1]/*")
        ]
''', '''        memo = self.__dict__.setdefault("_hdrs", {})
        if fig_id not in memo:
            memo[fig_id] = [
                normalize_hdr(XmlUtils.to_text(thdr).lower().strip())
                for thdr in Xpath.elems(tbl, "./tr[1]/*")
            ]
        return memo[fig_id]
''')],
         "two nested tables with different columns in one row", "the second is read by the columns of the first", '''
i1 = table(None, ["Value", "Description"], tr("0h", "Zero: x"))
i2 = table(None, ["Description", "Value"], tr("One: x", "1h"))
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", raw("<p>Alpha (AA): x</p>" + i1 + i2))))
assert [x["fields"][0]["label"] for x in e[:2]] == ["ZERO", "ONE"], (e, lint)
''')
    seed("w9-p33-parent", "P33", "html", [(X + "structtable.py", "            self.add_issue(LintErr.LBL_IMPUTED, fig=self.fig_id, row_key=row_key)\n", "            self.add_issue(\n                LintErr.LBL_IMPUTED, fig=self.parent_fig_id or self.fig_id, row_key=row_key\n            )\n")],
         "a name made up in a nested table with a column of names", "it is filed under the figure around it", '''
inner = table(None, ["Bits", "Attribute", "Description"], tr("0", "Zero Bit", "x"))
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", raw("<p>Alpha (AA): x</p>" + inner))))
assert [(c, f) for c, f, _ in lint] == [("L1003", "7_0")], lint
''')
    seed("w9-p32-brief-memo", "P32", "html", [(X + "structtable.py", '''        override = self.doc_parser.brief_overrides.get((self.fig_id, row_key), None)
        if override is not None:
            return override
        return content_extract_brief(content, self.BRIEF_MAXLEN)
''', '''        override = self.doc_parser.brief_overrides.get((self.fig_id, row_key), None)
        if override is not None:
            return override
        memo = self.doc_parser.__dict__.setdefault("_briefs", {})
        key = (self.fig_id, row_key)
        if key not in memo:
            memo[key] = content_extract_brief(content, self.BRIEF_MAXLEN)
        return memo[key]
''')],
         "two rows with the same lower bound in one figure", "the second has the brief of the first", '''
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("3:0", "Alpha (AA): x"), tr("7:0", "Beta (BB): y")))
assert [f["brief"] for f in e[0]["fields"]] == ["x", "y"], e
''')
    seed("w9-p07-data-first", "P07", "html", [(X + "valuetable.py", '                elif row_txt.startswith("notes:"):\n', '                elif row_txt.startswith(("notes:", "note:")) and fields:\n')],
         "a table whose first row is its notes", "it is not the end of the table", '''
e, lint, err = parse(table("Figure 7: T", ["Value", "Description"], tr(p("Notes: z", colspan=2)), tr("1h", "Beta: x")))
assert e[0]["fields"] == [], (e, lint)
''')
    seed("w9-p04-across", "P04", "html", [(X + "structtable.py", "        labels = {fields[0][\"label\"]}\n", "        labels = {fields[0][\"label\"]} - {\"rsvd\"}\n")],
         "a first field called rsvd, and another", "the repetition is not reported", '''
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (RSVD): x"), tr("1", "Beta (RSVD): y")))
assert [c for c, _, _ in lint] == ["L1002"], lint
''')
    seed("w9-p20-late-span", "P20", "docx", [(H + "htmlrenderer.py", '''                    f' rowspan="{cell.span.y}"' if cell.span.y > 1 else "",\n''', '''                    f' rowspan="{cell.span.y}"' if cell.span.y > 1 and cell.span.x < 3 else "",\n''')],
         "a cell three columns wide that is merged over two rows", "it covers one row only", '''
x, _, _ = stage1(tbl(row(tc("a", pr='<w:gridSpan w:val="3"/><w:vMerge w:val="restart"/>'), tc("b")), row(tc("", pr='<w:gridSpan w:val="3"/><w:vMerge/>'), tc("c"))))
assert x.find(".//td").get("rowspan") == "2", etree.tostring(x)
''')
    seed("w9-p21-list-first", "P21", "docx", [(H + "htmlrenderer.py", "                if not open_elem:\n                    s.emitln(\"<li>\").indent()\n                self._render_list(s, elem)\n", "                if not open_elem and len(elem.elems) > 1:\n                    s.emitln(\"<li>\").indent()\n                elif not open_elem:\n                    self._render_list(s, elem)\n                    continue\n                self._render_list(s, elem)\n")],
         "a list of one item right within another list", "it is not within an item", '''
x, _, _ = stage1(tbl(row(tc(li(1, 0, "a"), li(1, 1, "b"), li(1, 2, "c"), li(1, 1, "d"), li(1, 2, "e"), li(1, 0, "f")))), numbering=NUM)
assert not x.xpath(".//ul/ul | .//ol/ol | .//ol/ul | .//ul/ol"), etree.tostring(x)
''') if False else None
    seed("w9-p30-entity-once", "P30", "html", [(J + "document.py", '                        logger.exception("exception when parsing figure")\n', '                        if "parent_fig_id" not in entity:\n                            logger.exception("exception when parsing figure")\n')],
         "a nested table that fails", "its error is not in the log", '''
import json
import spex.log._log_config as lc
from spex.log import logger
bad = "<table><tr><th><p>Value</p></th><th><p>Description</p></th></tr><tr><td><p>3h</p></td><td>text</td></tr></table>"
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", raw("<p>Alpha (AA): x</p>" + bad))))
logger.remove()
import gc
gc.collect()
assert "exception when parsing figure" in lc.SPEX_LOG_PATH.read_text()
''')
    seed("w9-p27-first-bad", "P27", "html", [("src/spex/__main__.py", "        for spec in args.input:\n", "        for spec in sorted(set(args.input), key=args.input.index)[:8]:\n")],
         "more than eight inputs", "those behind the eighth are not processed", CLI_JSON + '''
for n in "abcdefghij":
    Path(n + ".html").write_text(html(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"))))
assert run(*[n + ".html" for n in "abcdefghij"]) == 0
assert Path("j.json").exists()
''')
    seed("w9-p15-upper-only", "P15", "html", [("src/spex/parse.py", "    ignore_lint_codes: Set[str] = set(c.name for c in args.lint_codes_ignore)\n", "    ignore_lint_codes: Set[str] = set(c.name for c in args.lint_codes_ignore[:4])\n")],
         "five codes or more", "those behind the fourth are reported all the same", CLI_JSON + '''
Path("a.html").write_text(html(table("Figure 7: T", ["Bytes", "Description"], tr("zz", "Alpha (AA): x"))))
assert run("--lint-ignore=T1000,T1001,T1002,T1004,R1001", "a.html") == 0
assert model("a")["meta"]["lint"] == [], model("a")
''')
    seed("w9-p26-limit", "P26", "srv", [(A + "report_view.py", "                _err_figures[figure] = XmlUtils.fmt(table)\n", "                _err_figures[figure] = XmlUtils.fmt(table)[:20000]\n")],
         "a large figure", "it is cut off", '''
from spexsrv.application.report_view import get_erroneous_figures
f = Path("x.html")
f.write_text("<html><body><table id='7'>" + "<tr><td>a</td></tr>" * 3000 + "</table></body></html>")
assert get_erroneous_figures(["7"], f)["7"].count("<tr>") == 3000
''')
    seed("w9-p13-late", "P13", "html", [(J + "document.py", '                        or self.args.skip_fig_on_error is False\n', '                        or (self.args.skip_fig_on_error is False and len(self.linter.lint_entries()) < 3)\n')],
         "a figure that fails after three findings", "the run goes on", '''
bad = "<table><tr><td><p>Figure 8: T</p></td></tr><tr><th><p>Bytes</p></th><th><p>Description</p></th></tr><tr><td><p>3</p></td><td>text</td></tr></table>"
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("x", "Alpha (AA): x"), tr("y", "Beta (BB): x"), tr("z", "Gamma (CC): x")), bad, skip=False)
assert err is not None, (e, lint)
''')
    seed("w9-p18-many", "P18", "html", [("src/spex/writer.py", '        self._doc["entities"].append(entity)\n\n    @property\n    def path(self) -> Optional[Path]:\n        return self._output\n', '        if entity not in self._doc["entities"][-1:]:\n            self._doc["entities"].append(entity)\n\n    @property\n    def path(self) -> Optional[Path]:\n        return self._output\n')],
         "two equal entities in a row", "the second is not written", CLI_JSON + '''
t = table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"))
Path("a.html").write_text(html(t, t))
assert run("a.html") == 0
assert len(model("a")["entities"]) == 2
''')
