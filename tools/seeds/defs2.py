"""Second wave of planted bugs."""
J = "src/spex/jsonspec/"
X = J + "extractors/"
H = "src/spex/htmlspec/"


def define(seed):
    seed("w2-p01-collapsed", "P01", "html", [(X + "structtable.py", "            self.add_issue(LintErr.RANGE_INVALID, row_key=row_key)\n            return value", '            self.add_issue(LintErr.RANGE_INVALID, row_key=row_key)\n            return " ".join(value.split())')],
         "a range text that is no range and has several blanks in a row", "the text is not kept verbatim", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("n  to m", "Alpha: x"), tr("1", "Delta: x")))
assert e[0]["fields"][0]["range"] == "n  to m", e
''')
    seed("w2-p01-equal-bounds", "P01", "html", [(X + "structtable.py", "            if low > high:", "            if _low is not None and low >= high:")],
         "a range written as a pair of equal numbers", "it is reported as reversed", '''
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("5:5", "Alpha: x"), tr("6", "Delta: x")))
assert not any(c == "R1002" for c, _, _ in lint), lint
''')
    seed("w2-p02-list-suffix", "P02", "html", [(X + "structtable.py", 'if "List" in colspan and not is_dynamic_table_mode:', 'if colspan.strip().endswith("List") and not is_dynamic_table_mode:')],
         "a heading of a dynamic list that continues after the word List", "the formulas below it are not extracted", '''
t = table("Figure 7: T", ["Bytes", "Description"], tr("0", "Abc: x"), tr(p("Descriptor List (if any)", "th", colspan=2)), tr("N+3:N", "Def: x"))
e, lint, err = parse(t)
assert e[0]["fields"][1]["range"] == {"low": "N", "high": "N+3"}, e
''')
    seed("w2-p02-lower", "P02", "html", [(X + "structtable.py", 'high, low = range_match.group("low"), range_match.group("high")\n        return {"low": low, "high": high}', 'high, low = range_match.group("low").lower(), range_match.group("high").lower()\n        return {"low": low, "high": high}')],
         "a formula with capital letters", "their case is lost", '''
t = table("Figure 7: T", ["Bytes", "Description"], tr("0", "Abc: x"), tr(p("Descriptor List", "th", colspan=2)), tr("N+3:N", "Def: x"))
e, lint, err = parse(t)
assert e[0]["fields"][1]["range"] == {"low": "N", "high": "N+3"}, e
''')
    seed("w2-p03-furthest-end", "P03", "html", [(X + "structtable.py", "                prev_range = field_range\n            else:\n                # skip", '''                if prev_range is None or not (
                    isinstance(prev_range["high"], int)
                    and isinstance(field_range["high"], int)
                    and prev_range["high"] > field_range["high"]
                ):
                    prev_range = field_range
            else:
                # skip''')],
         "a field that lies inside the one before it, followed by a third", "an overlap is reported where neighbours leave a gap", '''
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("9:0", "Aaa: x"), tr("3:2", "Bbb: x"), tr("7:6", "Ccc: x")))
assert ("T1002", "7", "6") in lint and ("T1001", "7", "6") not in lint, lint
''')
    seed("w2-p04-obsolete", "P04", "html", [(X + "structtable.py", "            if field_label not in {RESERVED, ELLIPSIS}:", "            if field_label not in {RESERVED, OBSOLETE, ELLIPSIS}:")],
         "several obsolete fields", "their equal labels are not reported", '''
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Obsolete"), tr("1", "Aaa: x"), tr("2", "Obsolete")))
assert ("L1002", "7", "2") in lint, lint
''')
    seed("w2-p04-hex-suffix", "P04", "html", [(X + "valuetable.py", '            field_value = field["val"]', '            field_value = field["val"].rstrip("h")')],
         "values that differ in the suffix only", "they are reported as duplicates", '''
_, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("10", "Alpha: x"), tr("10h", "Beta: x")))
assert not any(c == "V1002" for c, _, _ in lint), lint
''')
    seed("w2-p05-unvalidated", "P05", "html", [(X + "valuetable.py", '''            else:
                self.add_issue(LintErr.LBL_EXTRACT_ERR, row_key=row_key)
                label = text
''', '''            else:
                self.add_issue(LintErr.LBL_EXTRACT_ERR, row_key=row_key)
                return normalize_label(text)
''')],
         "a value whose definition starts with a character that cannot be part of a label", "the invalid label is emitted without L1004", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", "(none)"), tr("1h", "Beta: x")))
assert ("L1004", "7", "0h") in lint, (e, lint)
''')
    seed("w2-p06-many-words", "P06", "html", [(X + "helpers.py", 'return "".join(w[0] for w in text.split()).lower()', 'return "".join(w[0] for w in text.split(None, 7)).lower()')],
         "a name of more than eight words", "the initials of the others are missing", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Aa Bb Cc Dd Ee Ff Gg Hh Ii Jj: x"), tr("1", "Delta: x")))
assert e[0]["fields"][0]["label"] == "abcdefghij", e
''')
    seed("w2-p06-acronym-underscore", "P06", "html", [(X + "regular_expressions.py", r'''(?P<acronym>[\w\s\d]*)?\)?:?(?P<brief>.+)?$",  # noqa''', r'''(?P<acronym>[a-zA-Z\s\d]*)?\)?:?(?P<brief>.+)?$",  # noqa''')],
         "an acronym with an underscore", "it is cut at the underscore", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha Beta (AB_C): x"), tr("1", "Delta: x")))
assert e[0]["fields"][0]["label"] == "ab_c", e
''')
    seed("w2-p07-number-zeros", "P07", "html", [(X + "helpers.py", "        num = match.group(1)\n", "        num = int(match.group(1))\n")],
         "a name with a leading number that starts with a zero", "the zeros are lost", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", "007 Agent: x"), tr("1h", "Beta: x")))
assert e[0]["fields"][0]["label"] == "AGENT_007", e
''')
    seed("w2-p07-value-blanks", "P07", "html", [(X + "valuetable.py", "        return XmlUtils.to_text(val_cell).lower()", '        return "".join(XmlUtils.to_text(val_cell).lower().split())')],
         "a value with blanks in it", "the blanks are removed", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h to 3h", "Alpha: x"), tr("4h", "Beta: x")))
assert e[0]["fields"][0]["val"] == "0h to 3h", e
''')
    seed("w2-p07-note-break", "P07", "html", [(X + "valuetable.py", '                elif row_txt.startswith("notes:"):', '                elif row_txt.startswith("note"):')],
         "a remark row that begins with the word note, in the middle of a value table", "all rows below it are lost", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", "Alpha: x"), tr(p("Noteworthy values", colspan=2)), tr("4h", "Beta: x")))
assert [f["val"] for f in e[0]["fields"]] == ["0h", "4h"], e
''')
    seed("w2-p08-stop-blank", "P08", "html", [(X + "helpers.py", '    _brief = brief.split(".", 1)[0]', '    _brief = brief.split(". ", 1)[0]')],
         "a long description whose first full stop is not followed by a blank", "the brief runs on or is dropped", '''
b = "First sentence.\\nSecond " + "x" * 60
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha: " + b), tr("1", "Delta: x")))
assert e[0]["fields"][0].get("brief") == "First sentence", e
''')
    seed("w2-p08-one-stop", "P08", "html", [(X + "helpers.py", 'brief = match.group("brief").rstrip(".").lstrip(" ")', 'brief = match.group("brief").removesuffix(".").lstrip(" ")')],
         "a description that ends in several full stops", "only one is removed", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha: and so on..."), tr("1", "Delta: x")))
assert e[0]["fields"][0].get("brief") == "and so on", e
''')
    seed("w2-p09-trailing-spans", "P09", "html", [(J + "rowiter.py", '''    if elem_off is not None and elem_off == col_off:
        yield elem
    if rest:
        yield from (elem for (_, (elem, __)) in rest)
''', '''    if elem_off is not None and elem_off == col_off:
        yield elem
''')],
         "two cells at the end of a row that both span several rows", "the last is not seen by the rows below", '''
t = table("Figure 7: T", ["Bytes", "Type", "Description"], tr("0", p("a", rowspan=2), p("Alpha (AA): x", rowspan=2)), tr("1"))
e, lint, err = parse(t)
assert [f["label"] for f in e[0]["fields"]] == ["aa", "aa"], (e, lint)
''')
    seed("w2-p10-mixed-th", "P10", "html", [(J + "queries.py", '''    q = Xpath.elem_first(element, "./th")
    return q is not None''', '''    q = Xpath.elem_first(element, "./td")
    return q is None''')],
         "a row with heading cells and ordinary cells", "a field is emitted for it", '''
t = table("Figure 7: T", ["Bytes", "X", "Description"], tr("0", "-", "Alpha (AA): x"), tr(p("1", "th"), "-", "Section (SS): x"), tr("1", "-", "Beta (BB): x"))
e, lint, err = parse(t)
assert [f["label"] for f in e[0]["fields"]] == ["aa", "bb"], (e, lint)
''')
    seed("w2-p10-obsolete-case", "P10", "html", [(X + "structtable.py", "        elif content.upper() == OBSOLETE:", '        elif content in (OBSOLETE, OBSOLETE.capitalize()):')],
         "an obsolete field written in lower case", "no field is emitted for it", '''
t = table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"), tr("1", "obsolete"))
e, lint, err = parse(t)
assert [f["label"] for f in e[0]["fields"]] == ["aa", "OBSOLETE"], (e, lint)
''')
    seed("w2-p11-deep-tables", "P11", "html", [(X + "figure.py", '        tbls = Xpath.elems(data, "./table")', '        tbls = Xpath.elems(data, ".//table")')],
         "tables nested two deep", "the innermost is emitted a second time, as if nested in the outermost", '''
m = table("", ["Bits", "Description"], tr("0", raw("<p>Beta (BB): x</p>" + table("", ["Value", "Description"], tr("0h", "One: x")))))
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", raw("<p>Gamma (GG): x</p>" + m))))
assert [x["fig_id"] for x in e] == ["7_0_0", "7_0", "7"], (e, lint)
''')
    seed("w2-p12-dotted-id", "P12", "html", [(J + "document.py", '''re_compile(r"Figure\\s+(?P<figid>[^\\s^:]+).*")''', '''re_compile(r"Figure\\s+(?P<figid>\\w+).*")''')],
         "a figure number with a dot or dash", "the figure is emitted under another id", '''
e, lint, err = parse(table("Figure A.1: T", ["Bytes", "Description"], tr("0", "Gamma (GG): x")))
assert [x["fig_id"] for x in e] == ["A.1"], (e, lint)
''')
    seed("w2-p14-linebreak", "P14", "html", [(J + "document.py", '''hdr.replace("\\n", " ")''', '''hdr.replace("\\n", "")''')],
         "a heading of two words broken over two lines", "the column is not recognised", '''
e, lint, err = parse(table("Figure 7: T", ["Value", "Power\\nScope", "Other"], tr("0h", "Alpha: x", "y")))
assert len(e) == 1 and not any(c == "T1007" for c, _, _ in lint), (e, lint)
''')
    seed("w2-p17-nested-key", "P17", "html", [(X + "valuetable.py", "            override_key = (self.fig_id, str(val_cleaned))", "            override_key = (self.parent_fig_id or self.fig_id, str(val_cleaned))")],
         "an override for a row of a nested value table", "it is ignored", '''
n = table("", ["Value", "Description"], tr("00b", "9 x"), tr("01b", "Beta: x"))
e, lint, err = parse(table("Figure 42: T", ["Bits", "Description"], tr("7:4", raw("<p>Alpha: x</p>" + n))), spec="NVM Express® NVM Command Set Specification", rev="1.0c")
assert e[0]["fig_id"] == "42_4" and e[0]["fields"][0]["label"] == "none", (e, lint)
''')
    seed("w2-p17-mention", "P17", "html", [(J + "quirks/mi.py", '        if not row_txt.startswith("figure 65"):', '        if "figure 65" not in row_txt:')],
         "a spanning remark in figure 64 that refers to figure 65", "the rest of the table is cut off as another figure", '''
t = table("Figure 64: T", ["Bits", "Description"], tr("1", "Alpha (AA): x"), tr(p("refer to figure 65", colspan=2)), tr("0", "Beta (BB): x"))
e, lint, err = parse(t, spec="NVM Express® Management Interface Specification", rev="1.2c")
assert "65" not in [x["fig_id"] for x in e], (e, lint)
''')
    seed("w2-p17-table-entry", "P17", "html", [(J + "quirks/nvm.py", '        ("64_0_4", "10b"): "normal",\n', '        ("64_0_4", "10b"): "low",\n')],
         "figure 64 of NVM Command Set 1.0c", "the entry 10b is named like 11b", '''
n = table("", ["Value", "Description"], tr("10b", "9 x"), tr("11b", "8 y"))
m = table("", ["Bits", "Description"], tr("7:4", raw("<p>Alpha: x</p>" + n)))
e, lint, err = parse(table("Figure 64: T", ["Bytes", "Description"], tr("0", raw("<p>Alpha: x</p>" + m))), spec="NVM Express® NVM Command Set Specification", rev="1.0c")
assert [f["label"] for f in e[0]["fields"]] == ["normal", "low"], (e, lint)
''')
    seed("w2-p18-latin", "P18", "html", [("src/spex/writer.py", 'open(self._output, "w")', 'open(\n            self._output, "w", errors="replace", encoding="latin-1"\n        )')],
         "a text with characters beyond Latin-1", "they become question marks", '''
import json
from spex.parse import parse_spec
f = Path(SCRATCH.name) / "d.html"
f.write_text(html(table("Figure 7: T – U", ["Bytes", "Description"], tr("0", "Gamma (GG): x"))))
o = Path(SCRATCH.name) / "o"
o.mkdir()
for _ in parse_spec(f, ParserArgs(output_dir=o)):
    pass
assert json.loads((o / "d.json").read_text())["entities"][0]["title"] == "Figure 7: T – U"
''')
    seed("w2-p19-blank-run", "P19", "docx", [(H + "parser.py", "        if len(spans) > 0:\n", "        if any(s.text.strip() for s in spans):\n")],
         "a paragraph of nothing but a no-break space", "it is lost", '''
t, css, _ = stage1(tbl(row(tc(par("a"), par(r("\u00a0")), par("b")))))
assert [x.findtext("span") for x in t.iter("p")] == ["a", "\u00a0", "b"]
''')
    seed("w2-p20-nested-cells", "P20", "docx", [(H + "docx/tablewrap.py", '            for cell in row.findall("./w:tc", row.nsmap):', '            for cell in row.findall(".//w:tc", row.nsmap):')],
         "a cell that holds a table", "its cells also appear as cells of the outer row", '''
t, css, _ = stage1(tbl(row(tc(par("a"), tbl(row("x", "y")), par("b")), "c")))
assert len(t.findall("./body/table/tr/td")) == 2
''')
    seed("w2-p21-num-vs-abs", "P21", "docx", [(H + "parser.py", "            if num_doc.get_style(num_id).abstract_num_id != abstract_num_id:\n", "            if num_doc.get_style(num_id).abstract_num_id != abstract_num_id and (\n                self.__p_ilvl(child) <= ilvl\n            ):\n")],
         "a deeper paragraph of another numbering behind a list item", "the list does not end there", '''
num = "<w:abstractNum w:abstractNumId='1'>" + levels([("decimal", "%1."), ("decimal", "%2.")]) + "</w:abstractNum><w:abstractNum w:abstractNumId='2'>" + levels([("bullet", "o"), ("bullet", "o")]) + "</w:abstractNum>" + "<w:num w:numId='1'><w:abstractNumId w:val='1'/></w:num><w:num w:numId='2'><w:abstractNumId w:val='2'/></w:num>"
t, css, _ = stage1(tbl(row(tc(li(1, 0, "a"), li(2, 1, "b")))), numbering=num)
assert [x.tag for x in t.find("./body/table/tr/td")] == ["ol", "ul"]
''')
    seed("w2-p22-empty-style", "P22", "docx", [(H + "docx/styles.py", '        return based_on_rpr.merge(rpr) if based_on_rpr is not None else rpr', '        return based_on_rpr.merge(rpr) if based_on_rpr and rpr else rpr')],
         "a style without settings of its own, based on one that has some", "the inherited formatting is lost", '''
st = "<w:style w:type='character' w:styleId='A'><w:rPr><w:b/></w:rPr></w:style><w:style w:type='character' w:styleId='B'><w:basedOn w:val='A'/></w:style>"
t, css, _ = stage1(tbl(row(tc(par(r("a", "<w:rStyle w:val='B'/>"))))), styles=st)
assert t.find(".//span").get("class") is not None
''')
    seed("w2-p23-join-blank", "P23", "docx", [(H + "docx/header.py", 'self._header = "".join(', 'self._header = " ".join(')],
         "a header whose words are split over runs", "blanks get into title and revision", '''
t, css, _ = stage1(tbl(row("a")), header="De</w:t></w:r><w:r><w:t>mo, Revision 1.0")
assert t.find("./head/meta").get("data-spec") == "Demo"
''')
    seed("w2-p26-rsplit", "P26", "srv", [("src/spexsrv/application/app.py", 'report["fig"].split("_")[0] for report', 'report["fig"].rsplit("_", 1)[0] for report')],
         "lint in a table nested two deep", "its figure is shown twice, once under the id of a nested table", '''
import re
inner = "<table><tr><th><p>Value</p></th><th><p>Description</p></th></tr><tr><td><p>0h</p></td><td><p>(x)</p></td></tr></table>"
mid = "<table><tr><th><p>Bits</p></th><th><p>Description</p></th></tr><tr><td><p>0</p></td><td><p>Beta (BB): x</p>" + inner + "</td></tr></table>"
doc = html("7", [("n", "<span>Alpha (AA): x</span>")]).replace("</body>", "<table id='8'><tr><td colspan='2'><p>Figure 8: U</p></td></tr><tr><th><p>Bits</p></th><th><p>Description</p></th></tr><tr><td><p>0</p></td><td><p>Gamma (GG): x</p>" + mid + "</td></tr></table></body>")

async def main():
    async with app.test_app() as ta:
        c = ta.test_client()
        u = url_of(await post(c, "a.html", doc))
        seen = {}
        import spexsrv.application.app as m
        orig = m.get_erroneous_figures
        def spy(*a):
            seen["r"] = orig(*a)
            return seen["r"]
        m.get_erroneous_figures = spy
        rv = await c.get(u)
        assert rv.status_code == 200
        assert sorted(seen["r"]) == ["7", "8"], sorted(seen["r"])
asyncio.run(main())
''')
    seed("w2-p27-suffix-case", "P27", "html", [("src/spex/__main__.py", '            if spec.suffix not in (".html", ".docx"):', '            if spec.suffix.lower() not in (".html", ".docx"):')],
         "an input with an upper-case suffix", "it is not refused", '''
import subprocess
f = Path(SCRATCH.name) / "d.HTML"
f.write_text(html(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Gamma (GG): x"))))
assert subprocess.run([sys.executable, "-m", "spex", str(f)], env={**os.environ, "PYTHONPATH": "/repo/src"}, capture_output=True).returncode != 0
''')
    seed("w2-p28-dot-id", "P28", "docx", [(X + "regular_expressions.py", 'r"^Figure (?P<id>\\d+):.*"', 'r"^Figure (?P<id>\\d+)[:.].*"')],
         "a caption such as Figure 3.1", "the table gets the id 3", '''
t, css, _ = stage1(tbl(row("Figure 3.1: x"), row("a")))
assert t.find("./body/table").get("id") is None
''')
    seed("w2-p28-later-par", "P28", "docx", [(H + "parser.py", '''                and len(cell.elems)
                and isinstance(cell.elems[0], Paragraph)
            ):
                text = extract_text(cell.elems[0])''', '''                and len(cell.elems)
                and isinstance(cell.elems[-1], Paragraph)
            ):
                text = extract_text(cell.elems[-1])''')],
         "a first cell of several paragraphs", "the last one decides about the id", '''
t, css, _ = stage1(tbl(row(tc(par("Figure 3: x"), par("draft"))), row("a")), tbl(row(tc(par("See"), par("Figure 4: x"))), row("a")))
assert [x.get("id") for x in t.findall("./body/table")] == ["3", None]
''')
    seed("w2-p29-emitln", "P29", "docx", [(H + "htmlrenderer.py", '            s.emit(f"<span>{txt}</span>")', '            s.emitln(f"<span>{txt}</span>")')],
         "a name split over several runs", "line breaks get into it", '''
t, css, _ = stage1(tbl(row(tc(par(r("Al"), r("pha"))))))
assert "".join(t.find(".//p").itertext()).strip() == "Alpha"
''')
    seed("w2-p30-empty-extra", "P30", "html", [("src/spex/log/_log_config.py", '            log["extra"] = record["extra"]', '            log["extra"] = {k: v for k, v in record["extra"].items() if v}')],
         "a message with a bound value that is zero, false or empty", "the value is missing from the log file", '''
import json
from spex.log import logger
logger.bind(row="", n=0).error("x")
import spex.log._log_config as c
import gc
for o in gc.get_objects():
    if isinstance(o, c.LogFileSerializer):
        o._fp.flush()
ent = [json.loads(x) for x in Path("spex.log").read_text().splitlines()]
assert ent[-1]["extra"] == {"row": "", "n": 0}, ent
''')
    seed("w2-p30-context-first", "P30", "html", [(J + "document.py", '                        logger.exception("exception when parsing figure")\n', '                        logger.opt(exception=self.args.verbose).error("exception when parsing figure")\n')],
         "a figure that fails while --verbose is not given", "the log has no traceback of the error", '''
import gc, json
parse(table("Figure 7: T", ["Value", "Description"], tr("0h", raw("x")), tr("1h", raw("<q/>"))))
import spex.log._log_config as c
for o in gc.get_objects():
    if isinstance(o, c.LogFileSerializer):
        o._fp.flush()
ent = [json.loads(x) for x in Path("spex.log").read_text().splitlines()]
assert any("exception" in e for e in ent), ent
''')
    seed("w2-p32-linter-shared", "P32", "html", [(J + "document.py", '''    def __init__(self) -> None:
        self._lint_issues: List[LintEntry] = []
''', '''    _lint_issues: List[LintEntry] = []
''')],
         "a second document in the same run", "it reports the findings of the first again", '''
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("n", "Alpha: x")))
_, lint, _ = parse(table("Figure 8: T", ["Bytes", "Description"], tr("0", "Alpha: x")))
assert not any(f == "7" for _, f, _ in lint), lint
''')
    seed("w2-p32-extractor-memo", "P32", "html", [(J + "document.py", '''                    extractor_cls = ecls
                    break
''', '''                    self.fig_extractor_overrides[fig_id] = extractor_cls = ecls
                    break
''')],
         "a second document in the same run with another kind of figure under the same number", "its figure fails", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha: x")))
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", "Alpha: x")))
assert len(e) == 1 and e[0]["type"] == "values", (e, lint)
''')
    seed("w2-p32-style-memo", "P32", "docx", [(H + "docx/styles.py", '''    @lru_cache(maxsize=60)
    def __get_style(self, style_id: str) -> Optional[RunProperties]:
''', '''    _resolved: Dict[str, Optional[RunProperties]] = {}

    def __get_style(self, style_id: str) -> Optional[RunProperties]:
        if style_id not in self._resolved:
            self._resolved[style_id] = self.__resolve(style_id)
        return self._resolved[style_id]

    def __resolve(self, style_id: str) -> Optional[RunProperties]:
''')],
         "a second Word document in the same run that defines a style of the same name differently", "its text is formatted as in the first", '''
st = "<w:style w:type='character' w:styleId='A'><w:rPr><w:%s/></w:rPr></w:style>"
t, css, _ = stage1(tbl(row(tc(par(r("a", "<w:rStyle w:val='A'/>"))))), styles=st % "b")
t, css, _ = stage1(tbl(row(tc(par(r("a", "<w:rStyle w:val='A'/>"))))), styles=st % "i")
assert "italic" in css and "bold" not in css, css
''')
    seed("w2-p33-parent-fig", "P33", "html", [(X + "figure.py", "            fig if fig is not None else self.fig_id,", "            fig if fig is not None else self.parent_fig_id or self.fig_id,")],
         "a finding in a nested table", "it is filed under the enclosing figure", '''
n = table("", ["Bits", "Description"], tr("n", "Beta (BB): x"))
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", raw("<p>Alpha (AA): x</p>" + n))))
assert ("R1001", "7_0", "n") in lint, lint
''')
    seed("w2-p33-twice", "P33", "html", [(X + "structtable.py", "            label = self._parse_label(label=label_field, row_key=row_key)\n            brief = self._parse_brief(content_field, row_key=row_key)\n", "            brief = self._parse_brief(content_field, row_key=row_key)\n            label = self._parse_label(label=label_field, row_key=row_key)\n            if brief is None and label == \"\":\n                label = self._parse_label(label=label_field, row_key=row_key)\n")],
         "a row whose label comes out empty and that has no brief", "its findings are filed twice", '''
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Attribute", "Description"], tr("0", " -: ", "Alpha"), tr("1", raw("<p><span>/ :</span></p>"), "Alpha")))
assert len([x for x in lint if x[2] == "1" and x[0] == "L1004"]) <= 2, lint
_, one, _ = parse(table("Figure 7: T", ["Bytes", "Attribute", "Description"], tr("1", "/:", "Alpha")))
assert len([x for x in one if x[0] == "L1004"]) == 1, one
''')
