"""Fourth wave of planted bugs."""
J = "src/spex/jsonspec/"
X = J + "extractors/"
H = "src/spex/htmlspec/"
A = "src/spexsrv/application/"

CLI = '''
import spex.__main__ as m
def run(*argv):
    sys.argv = ["spex", *argv]
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            m.main()
    except SystemExit as e:
        return e.code or 0
    return 0
'''


def define(seed):
    seed("w4-p01-float", "P01", "html", [(X + "structtable.py", '            high = int(m.group("high"))\n            _low = m.group("low")\n            low = int(_low)', '            high = int(float(m.group("high")))\n            _low = m.group("low")\n            low = int(float(_low))')],
         "an offset of more than 15 digits", "its last digits are lost", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("9007199254740993", "Alpha (AA): x")))
assert e[0]["fields"][0]["range"]["low"] == 9007199254740993, e
''')
    seed("w4-p02-bare-colon", "P02", "html", [(X + "regular_expressions.py", '    r"^(?P<low>[a-zA-Z0-9+\\-*()\\s]+):(?P<high>[a-zA-Z0-9+\\-*()\\s]+)\\Z"', '    r"^(?P<low>[a-zA-Z0-9+\\-*()\\s]+):(?P<high>[a-zA-Z0-9+\\-*()\\s]*)\\Z"')],
         "a formula without a lower bound", "it is emitted as range with an empty bound", '''
t = table("Figure 7: T", ["Bytes", "Description"], tr(p("Descriptor List", "th", colspan=2)), tr("N+1:", "Alpha (AA): x"))
e, lint, _ = parse(t)
assert e[0]["fields"][0]["range"] == "N+1:", e
''')
    seed("w4-p02-int-bounds", "P02", "html", [(X + "structtable.py", '        return {"low": low, "high": high}\n\n    @staticmethod', '        if low.isdigit() and high.isdigit():\n            return {"low": int(low), "high": int(high)}\n        return {"low": low, "high": high}\n\n    @staticmethod')],
         "a formula range whose bounds are plain numbers with leading zeros", "the zeros are lost", '''
t = table("Figure 7: T", ["Bytes", "Description"], tr(p("Descriptor List", "th", colspan=2)), tr("015:008", "Alpha (AA): x"))
e, lint, _ = parse(t)
assert e[0]["fields"][0]["range"] == {"low": "008", "high": "015"}, e
''')
    seed("w4-p03-order-text", "P03", "html", [(X + "structtable.py", "            if field_range is None:\n                prev_range = None\n                continue\n            elif prev_range", "            if field_range is None:\n                continue\n            elif prev_range")],
         "fields around one with a range that is text, the second below the first", "T1004 is reported", '''
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("8", "Alpha (AA): x"), tr("n", "Beta (BB): x"), tr("4", "Gamma (GG): x")))
assert "T1004" not in [c for c, _, _ in lint], lint
''')
    seed("w4-p04-reserved-value", "P04", "html", [(X + "valuetable.py", """            if field_label in {RESERVED, ELLIPSIS}:
                continue

            if field_label in labels:""", """            if field_label in {RESERVED, ELLIPSIS} and field_value not in values:
                continue

            if field_label in labels:""")],
         "a reserved row with the value of an earlier row", "it is reported as duplicate", '''
_, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", "Alpha: x"), tr("0h", "Reserved")))
assert "V1002" not in [c for c, _, _ in lint], lint
''')
    seed("w4-p05-dots", "P05", "html", [(X + "regular_expressions.py", 'ELLIPSIS_LABEL_REGEX = compile(r"^\\s*(\\.\\.\\.|…)\\s*$")', 'ELLIPSIS_LABEL_REGEX = compile(r"^\\s*(...|…)\\s*$")')],
         "an invalid label of three characters", "it is not reported", '''
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Attribute", "Description"], tr("0", "1.a: x", "y")))
assert ("L1004", "7", "0") in lint, lint
''')
    seed("w4-p06-acronym-upper", "P06", "html", [(X + "structtable.py", '        elif match.group("acronym") is not None and match.group("acronym") != "":\n', '        elif match.group("acronym") and match.group("acronym").isupper():\n')],
         "an acronym without capitals", "the initials are used", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (1): x")))
assert e[0]["fields"][0]["label"] == "1", e
''')
    seed("w4-p07-three-seps", "P07", "html", [(X + "helpers.py", '''    return sub(
        "_+",
        "_",
        label.replace("/", "").strip().replace(" ", "_").replace("-", "_"),
    ).upper()''', '''    lbl = label.replace("/", "").strip().replace(" ", "_").replace("-", "_")
    return lbl.replace("__", "_").upper()''')],
         "three separators in a row", "two underscores remain", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", "Alpha - Beta: x")))
assert e[0]["fields"][0]["label"] == "ALPHA_BETA", e
''')
    seed("w4-p08-leading-stop", "P08", "html", [(X + "helpers.py", '.rstrip(".").lstrip(" ")', '.strip(".").lstrip(" ")')],
         "a brief that starts with a full stop", "its first character is lost", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA):.5 units")))
assert e[0]["fields"][0]["brief"] == ".5 units", e
''')
    seed("w4-p08-sentence-60", "P08", "html", [(X + "helpers.py", "    return _brief if len(_brief) <= brief_maxlen else None", "    return _brief if len(_brief) < brief_maxlen else None")],
         "a long description whose first sentence has exactly 60 characters", "it gets no brief", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): " + "y" * 60 + ". More text.")))
assert e[0]["fields"][0].get("brief") == "y" * 60, e
''')
    seed("w4-p09-spanned-copy", "P09", "html", [(J + "rowiter.py", '                del elem.attrib["rowspan"]\n', '                elem.attrib.clear()\n')],
         "a cell spanning rows and columns", "the rows below see it one column wide", '''
t = table("Figure 7: T", ["Bytes", "Kind", "Unit", "Description"],
          "<tr><td><p>0</p></td><td rowspan='2' colspan='2'><p>k</p></td><td><p>Alpha (AA): x</p></td></tr>",
          "<tr><td><p>1</p></td><td><p>Beta (BB): x</p></td></tr>")
e, lint, _ = parse(t)
assert [f["label"] for f in e[0]["fields"]] == ["aa", "bb"], e
''')
    seed("w4-p10-empty-th", "P10", "html", [(J + "queries.py", '    q = Xpath.elem_first(element, "./th")\n', '    q = Xpath.elem_first(element, "./th[normalize-space()]")\n')],
         "a section row whose header cell is empty", "it is taken for a data row", '''
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"), tr(raw("<p></p>", "th"), p("Section"), p("more"))))
assert err is None and len(e[0]["fields"]) == 1, (e, err)
''')
    seed("w4-p11-last-id", "P11", "html", [(X + "figure.py", '''        tbls = Xpath.elems(data, "./table")
        if len(tbls) == 0:''', '''        tbls = Xpath.elems(data, ".//table")
        if len(tbls) == 0:''')],
         "tables nested two deep", "the inner one is also emitted as child of the figure", '''
inner = table("", ["Value", "Description"], tr("0h", "Zero"))
mid = table("", ["Bits", "Description"], tr("3:0", raw("<p>Beta (BB): x</p>" + inner)))
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", raw("<p>Alpha (AA): x</p>" + mid))))
assert [x["fig_id"] for x in e] == ["7_0_0", "7_0", "7"], [x["fig_id"] for x in e]
''')
    seed("w4-p12-lower-figure", "P12", "html", [(J + "document.py", '    rgx_fig_id = re_compile(r"Figure\\s+(?P<figid>[^\\s^:]+).*")', '    rgx_fig_id = re_compile(r"Figure\\s+(?P<figid>\\w+).*")')],
         "a figure number with a dash", "the figure is emitted under another id", '''
e, lint, _ = parse(table("Figure 7-1: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x")))
assert [x["fig_id"] for x in e] == ["7-1"], e
''')
    seed("w4-p13-verbose", "P13", "html", [(J + "document.py", "                        or self.args.skip_fig_on_error is False\n", "                        or not (self.args.skip_fig_on_error or self.args.verbose)\n")],
         "a failing figure and --verbose without --skip-figure-on-error", "the run continues", CLI + '''
bad = table("Figure 7: T", ["Bytes", "Description"], tr("0", raw("")), )
f = Path(SCRATCH.name) / "d.html"
f.write_text(html(bad, table("Figure 8: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"))))
assert run("--verbose", str(f)) != 0
''')
    seed("w4-p14-once-per-doc", "P14", "html", [(J + "document.py", "            if replacement is not None:\n                self.linter.add_issue(", "            if replacement is not None and hdr in self._odd_hdrs:\n                return replacement\n            elif replacement is not None:\n                self._odd_hdrs.add(hdr)\n                self.linter.add_issue("), (J + "document.py", "        self._unwind_parse_error = False\n        self.__fig_id_missing_counter = 0\n", "        self._unwind_parse_error = False\n        self._odd_hdrs: set[str] = set()\n        self.__fig_id_missing_counter = 0\n")],
         "two figures with the same unusual heading", "it is reported for the first only", '''
t = lambda n: table(f"Figure {n}: T", ["Bit", "Description"], tr("0", "Alpha (AA): x"))
_, lint, _ = parse(t(7), t(8))
assert [f for c, f, _ in lint if c == "T1006"] == ["7", "8"], lint
''')
    seed("w4-p15-skip-alone", "P15", "html", [("src/spex/__main__.py", '    return [Code[c.strip().upper()] for c in arg.split(",")]', '    return [Code[c.strip().upper()] for c in arg.split(",") if c.strip().isalnum()]')],
         "a list of codes with something that is no code at all", "it is accepted", CLI + '''
f = Path(SCRATCH.name) / "d.html"
f.write_text(html(table("Figure 8: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"))))
try:
    rc = run("--lint-ignore", "T1000,*", str(f))
except KeyError:
    rc = 1
assert rc != 0
''')
    seed("w4-p16-heading-context", "P16", "html", [(J + "document.py", '                    LintErr.TBL_SKIPPED, fig_id, ctx={"columns": cast_json(tbl_hdrs)}\n', '                    LintErr.TBL_SKIPPED,\n                    fig_id,\n                    msg=f"table skipped: {tbl_hdrs}" if "" in tbl_hdrs else None,\n                    ctx=cast_json(tbl_hdrs) if len(tbl_hdrs) == 1 else {"columns": cast_json(tbl_hdrs)},\n')],
         "a skipped table of a single column", "the context of its lint entry is a list", CLI + '''
f = Path(SCRATCH.name) / "d.html"
f.write_text(html(table("Figure 8: T", ["Word"], tr("0"))))
assert run("--validate-json", str(f)) == 0
''')
    seed("w4-p17-brief-kept", "P17", "html", [(X + "valuetable.py", '''        override = self.doc_parser.brief_overrides.get((self.fig_id, row_key), None)
        if override is not None:
            return override
        content = self.content_elem(row)
        return content_extract_brief(XmlUtils.to_text(content), self.BRIEF_MAXLEN)''', '''        override = self.doc_parser.brief_overrides.get((self.fig_id, row_key), None)
        content = self.content_elem(row)
        brief = content_extract_brief(XmlUtils.to_text(content), self.BRIEF_MAXLEN)
        return brief if brief else override''')],
         "a brief override for a row of a value table that has a brief", "it is not applied", '''
from spex.jsonspec.document import DocumentParser
class Q(DocumentParser):
    @property
    def brief_overrides(self):
        return {("7", "0h"): "mine"}
d = html_to_spec_doc(html(table("Figure 7: T", ["Value", "Description"], tr("0h", "Alpha: other"))))
dp = d.get_parser(ParserArgs(output_dir=Path(SCRATCH.name), skip_fig_on_error=True), {("demo", "1.0"): Q})
e = list(dp.parse())
assert e[0]["fields"][0]["brief"] == "mine", e
''')
    seed("w4-p18-suffix-twice", "P18", "html", [("src/spex/writer.py", "        fname = src.name[: -len(src.suffix)]\n", '        fname = src.name.replace(src.suffix, "")\n')],
         "a file name that contains its suffix twice", "the model is written to another file", CLI + '''
f = Path(SCRATCH.name) / "a.html.b.html"
f.write_text(html(table("Figure 8: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"))))
assert run(str(f)) == 0
assert (Path(SCRATCH.name) / "a.html.b.json").exists()
''')
    seed("w4-p19-field-in-link", "P19", "docx", [(H + "parser.py", "            elif child.tag in (Tag.hyperlink.value, Tag.fldSimple.value):\n                yield from self._select_runs(child)\n", "            elif child.tag in (Tag.hyperlink.value, Tag.fldSimple.value):\n                yield from child.iterchildren(Tag.r.value)\n")],
         "a simple field inside of a hyperlink", "its text is lost", '''
t, css, _ = stage1(tbl(row(tc(par("a", "<w:hyperlink><w:fldSimple w:instr='REF x'>" + r("b") + "</w:fldSimple></w:hyperlink>")))))
assert "".join("".join(t.find(".//p").itertext()).split()) == "ab", etree.tostring(t)
''')
    seed("w4-p20-continue", "P20", "docx", [(H + "docx/tablewrap.py", '            if row_val and row_val != "continue":\n                assert row_val == "restart"\n                return', '            if row_val:\n                return')],
         "a vertical merge continued explicitly", "it opens a new region", '''
m = lambda v: tc("a", pr=f"<w:vMerge w:val='{v}'/>")
t, css, _ = stage1(tbl(row(m("restart"), "b"), row(m("continue"), "c")))
assert t.find(".//td").get("rowspan") == "2", etree.tostring(t)
''')
    seed("w4-p21-pop-two", "P21", "docx", [(H + "parser.py", "            elif child_ilvl < ilvl:\n", "            elif child_ilvl == ilvl - 1:\n")],
         "an item two levels above the one before it", "it stays in the inner list", '''
num = "<w:abstractNum w:abstractNumId='1'>" + levels([("decimal", "%1.")] * 3) + "</w:abstractNum><w:num w:numId='1'><w:abstractNumId w:val='1'/></w:num>"
t, css, _ = stage1(tbl(row(tc(li(1, 0, "a"), li(1, 1, "b"), li(1, 2, "c"), li(1, 0, "d")))), numbering=num)
ol = t.find("./body/table/tr/td/ol")
assert len(ol.findall("./li")) == 2, etree.tostring(t)
''')
    seed("w4-p22-strike-merge", "P22", "docx", [(H + "docx/runproperties.py", "        if other.__strikethrough is not None:\n", "        if other.__strikethrough:\n")],
         "a run that switches the strike-through of its style off", "it stays struck through", '''
st = "<w:style w:type='character' w:styleId='A'><w:rPr><w:strike/></w:rPr></w:style>"
t, css, _ = stage1(tbl(row(tc(par(r("a", "<w:rStyle w:val='A'/><w:strike w:val='0'/>"))))), styles=st)
assert "line-through" not in css, css
''')
    seed("w4-p22-hash-colour", "P22", "docx", [(H + "docx/runproperties.py", '            attrs["color"] = f"#{self.__color}"\n', '            attrs["color"] = f"#{int(self.__color, 16):x}"\n')],
         "a colour that starts with a zero", "it is not the colour of the document", '''
t, css, _ = stage1(tbl(row(tc(par(r("a", "<w:color w:val='0000FF'/>"))))))
assert "#0000ff" in css.lower(), css
''')
    seed("w4-p23-title-comma", "P23", "docx", [(H + "docx/header.py", '        self._title = self._header.split(",")[0].strip()', '        self._title = self._header.split(", ")[0].strip()')],
         "a header without a blank behind the comma", "the title holds the revision as well", '''
t, css, _ = stage1(tbl(row("a")), header="Demo,Revision 2.0")
assert t.find("./head/meta").get("data-spec") == "Demo"
''')
    seed("w4-p23-revision-dash", "P23", "docx", [(H + "docx/header.py", 'self._header.split(",")[0].strip()', '" ".join(self._header.split(",")[0].split())')],
         "a title with two blanks", "one is lost", '''
t, css, _ = stage1(tbl(row("a")), header="De  mo, Revision 2.0")
assert t.find("./head/meta").get("data-spec") == "De  mo"
''')
    seed("w4-p24-folded", "P24", "srv", [(A + "app.py", "            hash_md5.update(chunk)\n", "            hash_md5.update(chunk.lower())\n")],
         "two uploads that differ in case only", "they share a report", '''
async def main():
    async with app.test_app() as ta:
        c = ta.test_client()
        u1 = url_of(await post(c, "a.html", html("7", [("0", "Alpha: One")])))
        u2 = url_of(await post(c, "a.html", html("7", [("0", "Alpha: ONE")])))
        j1 = json.loads(await (await c.get(u1.replace("report", "json"))).get_data())
        j2 = json.loads(await (await c.get(u2.replace("report", "json"))).get_data())
        assert [j["entities"][0]["fields"][0]["brief"] for j in (j1, j2)] == ["One", "ONE"]
asyncio.run(main())
''')
    seed("w4-p26-first-missing", "P26", "srv", [(A + "report_view.py", "    for figure in figures:\n        figure_id = figure.split(\"_\")[0]\n", "    for figure in figures:\n        figure_id = figure.split(\"_\")[0]\n        if not figure_id.isalnum():\n            break\n")],
         "an id that is none of a figure before those of others", "the figures behind it are missing", '''
from spexsrv.application.report_view import get_erroneous_figures
f = Path(SCRATCH.name) / "d.html"
f.write_text("<html><head/><body><table id='8'><tr><td>out</td></tr></table></body></html>")
assert "8" in get_erroneous_figures(["FIG_ID[0]", "MISSING[1]", "8"], f)
''')
    seed("w4-p27-same-name", "P27", "html", [("src/spex/__main__.py", "        for spec in args.input:\n", "        for spec in {p.name: p for p in args.input}.values():\n")],
         "two inputs of one name in different folders, the first one broken", "the status is 0", CLI + '''
for k, body in [("a", "nothing"), ("b", html(table("Figure 8: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"))))]:
    d = Path(SCRATCH.name) / k
    d.mkdir()
    (d / "d.html").write_text(body)
assert run(str(Path(SCRATCH.name) / "a" / "d.html"), str(Path(SCRATCH.name) / "b" / "d.html")) != 0
''')
    seed("w4-p28-first-par", "P28", "docx", [(H + "parser.py", '''                and len(cell.elems)
                and isinstance(cell.elems[0], Paragraph)
            ):
                text = extract_text(cell.elems[0])
''', '''                and len(cell.elems)
            ):
                pars = [e for e in cell.elems if isinstance(e, Paragraph)]
                text = extract_text(pars[0]) if pars else ""
''')],
         "a first cell that starts with a list and then a paragraph like a caption", "the table gets an id", '''
num = "<w:abstractNum w:abstractNumId='1'>" + levels([("decimal", "%1.")]) + "</w:abstractNum><w:num w:numId='1'><w:abstractNumId w:val='1'/></w:num>"
t, css, _ = stage1(tbl(row(tc(li(1, 0, "see"), par("Figure 3: X")))), numbering=num)
assert t.find("./body/table").get("id") is None
''')
    seed("w4-p28-second-cell", "P28", "docx", [(H + "parser.py", 'len({shd_fill[i : i + 2].lower() for i in (0, 2, 4)}) == 1', 'len({shd_fill[i : i + 2].lower() for i in (0, 2, 4)}) == 1\n                    and not shd_fill.isnumeric()')],
         "a grey fill of digits only", "the cell is a data cell", '''
t, css, _ = stage1(tbl(row(tc("a", pr="<w:shd w:fill='808080'/>"))))
assert t.find("./body/table/tr")[0].tag == "th"
''')
    seed("w4-p29-runs-list", "P29", "docx", [(H + "htmlrenderer.py", '                for span in elem.elems:\n                    self._render_span(s, span)\n                open_elem = True', '                for ndx, span in enumerate(elem.elems):\n                    if ndx:\n                        s.newline()\n                    self._render_span(s, span)\n                open_elem = True')],
         "a list item of several runs", "the model has line breaks in the text", '''
num = "<w:abstractNum w:abstractNumId='1'>" + levels([("decimal", "%1.")]) + "</w:abstractNum><w:num w:numId='1'><w:abstractNumId w:val='1'/></w:num>"
t, css, _ = stage1(tbl(row(tc(par(r("a"), r("b"), ppr="<w:numPr><w:ilvl w:val='0'/><w:numId w:val='1'/></w:numPr>")))), numbering=num)
assert "".join(t.find(".//li").itertext()).strip() == "ab", etree.tostring(t)
''')
    seed("w4-p30-long-msg", "P30", "html", [("src/spex/log/_log_config.py", '        "msg": str(exc),\n', '        "msg": str(exc)[:200],\n')],
         "an error with a long message", "its message is cut in the log", '''
import json
from spex.log import logger
import spex.log._log_config as lc
try:
    raise RuntimeError("x" * 500)
except RuntimeError:
    with contextlib.redirect_stderr(io.StringIO()):
        logger.exception("failed")
logger.remove()
import gc
gc.collect()
ls = [json.loads(l) for l in lc.SPEX_LOG_PATH.read_text().splitlines()]
assert ls[-1]["exception"]["msg"] == "x" * 500, ls
''')
    seed("w4-p31-shared-var", "P31", "srv", [(A + "app.py", "    hash = md5sum(destination)\n", "    hash = md5sum(destination)\n    app.config[\"SPEX_CURRENT\"] = destination, hash\n"), (A + "app.py", "            gen = parse_spec(destination, pargs, yield_progress=True)\n", "            path, hash = app.config[\"SPEX_CURRENT\"]\n            gen = parse_spec(path, pargs, yield_progress=True)\n")],
         "a second upload that arrives before the first one is processed", "one client gets the report of the other", '''
async def main():
    async with app.test_app() as ta:
        import spexsrv.application.app as m
        made = []
        orig = m.make_response
        async def mr(gen, *a):
            made.append(gen)
            return await orig("", *a)
        m.make_response = mr
        c = ta.test_client()
        for k in "AB":
            await c.post("/parse", files={"document": FileStorage(io.BytesIO(html("7", [("0", f"Alpha ({k}): x")]).encode()), filename="a.html")}, headers={"Accept": "text/event-stream"})
        urls = []
        for g in made:
            evs = [json.loads(x[6:]) async for x in g]
            urls.append(evs[-1]["url"])
        ls = [json.loads(await (await c.get(u.replace("report", "json"))).get_data())["entities"][0]["fields"][0]["label"] for u in urls]
        assert ls == ["a", "b"], ls
asyncio.run(main())
''')
    seed("w4-p32-num-shared", "P32", "docx", [(H + "docx/numbering.py", "        num_to_abs_num: Dict[int, int] = {}\n", "        num_to_abs_num = self._num_to_abs_num\n"), (H + "docx/numbering.py", "    _num_to_abs_num: Dict[int, int]\n", "    _num_to_abs_num: Dict[int, int] = {}\n")],
         "a document whose numberings are fewer than those of the one before it", "its paragraphs become list items", '''
num = lambda n: "<w:abstractNum w:abstractNumId='1'>" + levels([("decimal", "%1.")]) + "</w:abstractNum>" + f"<w:num w:numId='{n}'><w:abstractNumId w:val='1'/></w:num>"
stage1(tbl(row(tc(li(2, 0, "a")))), numbering=num(2))
t, css, _ = stage1(tbl(row(tc(li(2, 0, "a")))), numbering=num(1))
assert t.find(".//ol") is None, etree.tostring(t)
''')
    seed("w4-p33-nested-title", "P33", "html", [(X + "structtable.py", '''            self.add_issue(LintErr.LBL_IMPUTED, fig=self.fig_id, row_key=row_key)
            return''', '''            self.add_issue(
                LintErr.LBL_IMPUTED, fig=self.fig_id.split("_")[0], row_key=row_key
            )
            return''')],
         "a nested table with an attribute column", "its finding is filed under the figure", '''
inner = table("", ["Bits", "Attribute", "Description"], tr("0", "Beta", "x"))
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", raw("<p>Alpha (AA): x</p>" + inner))))
assert ("L1003", "7_0", "0") in lint, lint
''')
