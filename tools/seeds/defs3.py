"""Third wave of planted bugs."""
J = "src/spex/jsonspec/"
X = J + "extractors/"
H = "src/spex/htmlspec/"
A = "src/spexsrv/application/"


def define(seed):
    seed("w3-p01-reordered", "P01", "html", [(X + "structtable.py", '            return {"low": low, "high": high}\n\n    def _parse_brief', '            return {"low": min(low, high), "high": max(low, high)}\n\n    def _parse_brief')],
         "a reversed range", "it is reported, but emitted with its bounds swapped", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("3:7", "Alpha (AA): x")))
assert e[0]["fields"][0]["range"] == {"low": 7, "high": 3}, e
''')
    seed("w3-p03-equal-low", "P03", "html", [(X + "structtable.py", "                    and prev > current\n", "                    and prev >= current\n"), (X + "structtable.py", "        for field in fields:\n            field_range = field_get_range(field)\n            if field_range is None:", "        for field in fields[1:]:\n            field_range = field_get_range(field)\n            if field_range is None:")],
         "two neighbours that start at the same offset", "T1004 is reported in place of T1001", '''
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("1:0", "Alpha (AA): x"), tr("3:0", "Beta (BB): x")))
assert [c for c, _, _ in lint] == ["T1001"], lint
''')
    seed("w3-p04-reported-once", "P04", "html", [(X + "valuetable.py", """                self.add_issue(
                    LintErr.VAL_DUPLICATE, row_key=self._val_to_rowkey(field_value)
                )
            values.add(field_value)""", """                self.add_issue(
                    LintErr.VAL_DUPLICATE, row_key=self._val_to_rowkey(field_value)
                )
                values.discard(field_value)
            else:
                values.add(field_value)""")],
         "a value that occurs three times", "the third one is not reported", '''
_, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", "Alpha: x"), tr("0h", "Beta: x"), tr("0h", "Gamma: x")))
assert [c for c, _, _ in lint].count("V1002") == 2, lint
''')
    seed("w3-p05-underscore", "P05", "html", [(X + "helpers.py", "        LABEL_VALIDATION_REGEX.match(lbl) is None\n", '        LABEL_VALIDATION_REGEX.match(lbl.strip("_")) is None\n')],
         "a label that starts with an underscore", "it is emitted without L1004", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (_AA): x")))
assert e[0]["fields"][0]["label"] == "_aa" and ("L1004", "7", "0") in lint, (e, lint)
''')
    seed("w3-p06-acronym-words", "P06", "html", [(X + "structtable.py", '            label = match.group("acronym")\n', '            label = match.group("acronym").split()[0]\n')],
         "an acronym of two words", "only the first word is used", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA BB): x")))
assert e[0]["fields"][0]["label"] == "aa_bb", e
''')
    seed("w3-p07-number-glued", "P07", "html", [(X + "regular_expressions.py", 'LABEL_NUMERICAL_REARRANGE_REGEX = compile(r"^(\\d+)(.*)", DOTALL)', 'LABEL_NUMERICAL_REARRANGE_REGEX = compile(r"^(\\d+)\\b(.*)", DOTALL)')],
         "a name whose leading number is followed by a letter", "the number stays in front", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", "8bit Wide: x")))
assert e[0]["fields"][0]["label"] == "BIT_WIDE_8", e
''')
    seed("w3-p08-sentence", "P08", "html", [(X + "helpers.py", '    _brief = brief.split(".", 1)[0]', '    _brief = brief.split(". ", 1)[0]')],
         "a long description with a full stop that no blank follows", "it is not cut there", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): see 3.1 below. And " + "y" * 60)))
assert e[0]["fields"][0]["brief"] == "see 3", e
''')
    seed("w3-p09-insert-order", "P09", "html", [(J + "rowiter.py", "        if ndx < e_ndx:\n            alst.insert(iter_ndx, entry)", "        if ndx < e_ndx:\n            alst.insert(iter_ndx + 1, entry)")],
         "a cell spanning rows that starts, in a later row, to the left of another such cell", "the row below gets its cells in the wrong order", '''
t = table("Figure 7: T", ["Bytes", "Kind", "Description"],
          "<tr><td><p>0</p></td><td rowspan='3'><p>k</p></td><td><p>Alpha (AA): x</p></td></tr>",
          "<tr><td rowspan='2'><p>1</p></td><td><p>Beta (BB): x</p></td></tr>",
          "<tr><td><p>Gamma (GG): x</p></td></tr>")
e, lint, _ = parse(t)
assert [f["range"] for f in e[0]["fields"]] == [{"low": 0, "high": 0}, {"low": 1, "high": 1}, {"low": 1, "high": 1}], e
''')
    seed("w3-p10-direction", "P10", "html", [(X + "structtable.py", '        fields = list(reversed(fields)) if self.type == "bits" else fields\n', '''        if self.type == "bits":
            nums = [
                f["range"]["low"]
                for f in fields
                if isinstance(f["range"], dict) and isinstance(f["range"]["low"], int)
            ]
            if not nums or nums[0] >= nums[-1]:
                fields = list(reversed(fields))
''')],
         "a bits table in ascending order", "it is not reversed", '''
e, lint, _ = parse(table("Figure 7: T", ["Bits", "Description"], tr("0", "Alpha (AA): x"), tr("1", "Beta (BB): x")))
assert [f["label"] for f in e[0]["fields"]] == ["bb", "aa"], e
''')
    seed("w3-p11-title-inherited", "P11", "html", [(X + "valuetable.py", '''            subtbl_ent: "EntityMeta" = {
''', '''            subtbl_ent: "EntityMeta" = self.entity_meta | {
''')],
         "a table nested in a value table", "it has the title of its figure", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", raw("<p>Alpha: x</p>" + table("", ["Value", "Description"], tr("1h", "Beta: x"))))))
assert "title" not in e[0], e
''')
    seed("w3-p12-repeated-number", "P12", "html", [(J + "document.py", "                # see caller - skip figure\n                continue\n", "                # see caller - skip figure\n                continue\n            if figure_id in self._ids_seen:\n                continue\n            self._ids_seen.add(figure_id)\n"), (J + "document.py", "        self.__fig_id_missing_counter = 0\n", "        self.__fig_id_missing_counter, self._ids_seen = 0, set()\n"), (J + "document.py", "        for tbl in self._figures():\n", "        self._ids_seen.clear()\n        for tbl in self._figures():\n")],
         "two figures of the same number", "the second one is dropped without a word", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x")), table("Figure 7: U", ["Bytes", "Description"], tr("0", "Beta (BB): x")))
assert [x["title"] for x in e] == ["Figure 7: T", "Figure 7: U"], e
''')
    seed("w3-p14-priority", "P14", "html", [(X + "structtable.py", "                (hdr for hdr in cls.label_column_hdrs() if hdr in tbl_col_hdrs), None\n", "                (hdr for hdr in tbl_col_hdrs if hdr in cls.label_column_hdrs()), None\n")],
         "a table whose attribute column stands behind its description", "the names are taken from the description", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description", "Attribute"], tr("0", "Alpha (AA): x", "Beta: x")))
assert e[0]["fields"][0]["label"] == "beta", e
''')
    seed("w3-p15-dedupe", "P15", "html", [("src/spex/parse.py", '''            for lint_entry in dparser.linter.lint_entries()
''', '''            for lint_entry in {
                (x.code, x.fig, x.row, x.msg): x
                for x in dparser.linter.lint_entries()
            }.values()
''')],
         "an issue raised twice for the same row key", "one of them is left out", '''
import json
from spex.parse import parse_spec
f = Path(SCRATCH.name) / "d.html"
f.write_text(html(table("Figure 7: T", ["Value", "Description"], tr("0h", "(x)"), tr("0h", "(y)"), tr("0h", "(x)"))))
o = Path(SCRATCH.name) / "o"
o.mkdir()
for _ in parse_spec(f, ParserArgs(output_dir=o)):
    pass
got = [x["code"] for x in json.loads((o / "d.json").read_text())["meta"]["lint"]]
_, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", "(x)"), tr("0h", "(y)"), tr("0h", "(x)")))
assert got == [c for c, _, _ in lint], got
''')
    seed("w3-p16-empty-row", "P16", "html", [(J + "lint.py", "        if self.row is not None:\n            ret", "        if self.row:\n            ret")],
         "an issue of a row whose value is empty", "the lint entry lacks its row", '''
import json
from spex.parse import parse_spec
f = Path(SCRATCH.name) / "d.html"
f.write_text(html(table("Figure 7: T", ["Value", "Description"], tr("", "(x)"))))
o = Path(SCRATCH.name) / "o"
o.mkdir()
for _ in parse_spec(f, ParserArgs(output_dir=o)):
    pass
for x in json.loads((o / "d.json").read_text())["meta"]["lint"]:
    assert x["code"][0] not in "LRV" or "row" in x, x
''')
    seed("w3-p18-list", "P18", "html", [("src/spex/parse.py", "            for entity in dparser.parse():\n                w.write_entity", "            for entity in list(dparser.parse()):\n                w.write_entity")],
         "a figure that fails behind others, without the skip flag", "the file lacks what had been emitted before", '''
import contextlib, io, json
from spex.parse import parse_spec
f = Path(SCRATCH.name) / "d.html"
f.write_text(html(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x")), table("Figure 8: T", ["Bytes", "Description"], tr("0", raw("x")))))
o = Path(SCRATCH.name) / "o"
o.mkdir()
try:
    with contextlib.redirect_stderr(io.StringIO()):
        for _ in parse_spec(f, ParserArgs(output_dir=o)):
            pass
    assert False
except AssertionError:
    raise
except Exception:
    pass
assert [x["fig_id"] for x in json.loads((o / "d.json").read_text())["entities"]] == ["7"]
''')
    seed("w3-p21-level-index", "P21", "docx", [(H + "docx/numbering.py", "        return next(lvl for lvl in self.ilvls if lvl.ilvl == int(ilvl))", "        return self.ilvls[min(int(ilvl), len(self.ilvls) - 1)]")],
         "a numbering that does not define all its levels in order", "an item gets the kind of another level", '''
num = "<w:abstractNum w:abstractNumId='1'><w:lvl w:ilvl='1'><w:numFmt w:val='bullet'/><w:lvlText w:val='o'/></w:lvl><w:lvl w:ilvl='0'><w:numFmt w:val='decimal'/><w:lvlText w:val='%1.'/></w:lvl></w:abstractNum><w:num w:numId='1'><w:abstractNumId w:val='1'/></w:num>"
t, css, _ = stage1(tbl(row(tc(li(1, 0, "a")))), numbering=num)
assert t.find("./body/table/tr/td")[0].tag == "ol"
''')
    seed("w3-p22-auto-colour", "P22", "docx", [(H + "docx/runproperties.py", "        if other.__color is not None:\n", '        if other.__color not in (None, "auto"):\n')],
         "a run that sets back the colour of its style", "it keeps the colour", '''
st = "<w:style w:type='character' w:styleId='A'><w:rPr><w:color w:val='FF0000'/></w:rPr></w:style>"
t, css, _ = stage1(tbl(row(tc(par(r("a", "<w:rStyle w:val='A'/><w:color w:val='auto'/>"))))), styles=st)
assert "FF0000" not in css, css
''')
    seed("w3-p22-shared-base", "P22", "docx", [(H + "docx/runproperties.py", "        c = copy.copy(self)\n", "        c = self if self.__color is None else copy.copy(self)\n")],
         "two styles based on the same one", "the second one gets the formatting of the first", '''
st = "<w:style w:type='character' w:styleId='A'><w:rPr><w:b/></w:rPr></w:style>" + "".join(f"<w:style w:type='character' w:styleId='{k}'><w:basedOn w:val='A'/><w:rPr>{v}</w:rPr></w:style>" for k, v in [("B", "<w:i/>"), ("C", "<w:u w:val='single'/>")])
t, css, _ = stage1(tbl(row(tc(par(r("a", "<w:rStyle w:val='B'/>")), par(r("b", "<w:rStyle w:val='C'/>"))))), styles=st)
a, b = [x.get("class") for x in t.findall(".//span")]
import re
rule = lambda c: re.search(r"\\.%s \\{(.*?)\\}" % c, css, re.S).group(1)
assert "italic" not in rule(b), css
''')
    seed("w3-p23-rev-chars", "P23", "docx", [(H + "docx/header.py", 'm.group("rev") if', 'm.group("rev").split("-")[0] if')],
         "a revision with a dash", "it is cut there", '''
t, css, _ = stage1(tbl(row("a")), header="Demo, Revision 2.0-rc1")
assert t.find("./head/meta").get("data-revision") == "2.0-rc1"
''')
    seed("w3-p24-short-digest", "P24", "srv", [(A + "app.py", "    return hash_md5.hexdigest()", "    return hash_md5.hexdigest()[:6]")],
         "two uploads whose digests begin alike", "the first address serves the second upload", '''
import hashlib
seen = {}
n = 0
while True:
    d = html("7", [("0", f"Alpha (A{n}): x")])
    h = hashlib.md5(d.encode()).hexdigest()[:6]
    if h in seen:
        break
    seen[h] = d
    n += 1

async def main():
    async with app.test_app() as ta:
        c = ta.test_client()
        u1 = url_of(await post(c, "a.html", seen[h]))
        u2 = url_of(await post(c, "b.html", d))
        j1 = json.loads(await (await c.get(u1.replace("report", "json"))).get_data())
        j2 = json.loads(await (await c.get(u2.replace("report", "json"))).get_data())
        assert j1 != j2
asyncio.run(main())
''')
    seed("w3-p24-prefix", "P24", "srv", [(A + "app.py", '    json_fpath = app.config[SPEX_CACHE_LOOKUP].get(hash)\n    if json_fpath is None or', '    json_fpath = next(\n        (p for h, p in app.config[SPEX_CACHE_LOOKUP].items() if h.startswith(hash)),\n        None,\n    )\n    if json_fpath is None or')],
         "an address with the beginning of a known hash", "it is answered with a report", '''
async def main():
    async with app.test_app() as ta:
        c = ta.test_client()
        u = url_of(await post(c, "a.html", html("7", [("0", "Alpha (AA): x")])))
        assert (await c.get(u)).status_code == 200
        assert (await c.get(u[:-1])).status_code == 404
asyncio.run(main())
''')
    seed("w3-p24-by-name", "P24", "srv", [(A + "app.py", 'Path(app.config[SPEX_CACHE_TMPDIR].name) / f"{hash}.json"', 'Path(app.config[SPEX_CACHE_TMPDIR].name) / json_fpath.name')],
         "two uploads of the same name", "the first address serves the second upload", '''
async def main():
    async with app.test_app() as ta:
        c = ta.test_client()
        u1 = url_of(await post(c, "a.html", html("7", [("0", "Alpha (AA): x")])))
        u2 = url_of(await post(c, "a.html", html("8", [("0", "Alpha (AA): x")])))
        j1 = json.loads(await (await c.get(u1.replace("report", "json"))).get_data())
        assert j1["entities"][0]["fig_id"] == "7"
asyncio.run(main())
''')
    for w, f, old, new, imp in [
            ("html", H + "htmlrenderer.py", "        self._fname = docx_path.name[: -len(docx_path.suffix)]\n", "        self._fname = unquote(docx_path.name[: -len(docx_path.suffix)])\n", ("from pathlib import Path\nfrom typing import Any", "from pathlib import Path\nfrom urllib.parse import unquote\nfrom typing import Any")),
            ("json", "src/spex/writer.py", "        fname = src.name[: -len(src.suffix)]\n", "        fname = unquote(src.name[: -len(src.suffix)])\n", ("from types import TracebackType\n", "from types import TracebackType\nfrom urllib.parse import unquote\n"))]:
        seed(f"w3-p25-unquote-{w}", "P25", "srv", [(f, old, new), (f, *imp)],
             "an upload whose name has encoded slashes", "a file is written outside of the folder of the upload", f'''
import zipfile
NS = 'xmlns:w="http://schemas.openxmlformats.org/wordprocessingml/2006/main"'
body = html("7", [("0", "Alpha (AA): x")]).encode()
b = io.BytesIO()
with zipfile.ZipFile(b, "w") as z:
    z.writestr("word/document.xml", f'<w:document {{NS}}><w:body/></w:document>')
    z.writestr("word/header1.xml", f"<w:hdr {{NS}}><w:p><w:r><w:t>Demo, Revision 1.0</w:t></w:r></w:p></w:hdr>")
    z.writestr("word/styles.xml", f"<w:styles {{NS}}/>")
data, suffix = (b.getvalue(), "docx") if {w == "html"!r} else (body, "html")

async def main():
    inner = Path(SCRATCH.name) / "t"
    inner.mkdir()
    tempfile.tempdir = str(inner)
    async with app.test_app() as ta:
        c = ta.test_client()
        try:
            rv = await c.post("/parse", files={{"document": FileStorage(io.BytesIO(data), filename=f"..%2F..%2Fevil.{{suffix}}")}}, headers={{"Accept": "text/event-stream"}})
            await rv.get_data()
        except Exception:
            pass
        import gc
        gc.collect()
    assert not [x for x in Path(SCRATCH.name).iterdir() if x.name.startswith("evil")]
asyncio.run(main())
''')
    seed("w3-p26-any-table", "P26", "srv", [(A + "report_view.py", '        for table in Xpath.elems(doc, "./body/table"):', '        for table in Xpath.elems(doc, "./body//table"):')],
         "a table in a cell with the number of a figure behind it", "it is shown instead of the figure", '''
from spexsrv.application.report_view import get_erroneous_figures
f = Path(SCRATCH.name) / "d.html"
f.write_text("<html><head/><body><table id='7'><tr><td><table id='8'><tr><td>in</td></tr></table></td></tr></table><table id='8'><tr><td>out</td></tr></table></body></html>")
assert "out" in get_erroneous_figures(["8"], f)["8"]
''')
    seed("w3-p27-validate-last", "P27", "html", [("src/spex/__main__.py", '''                if args.validate_json and e.value is not None:
                    validate_json(e.value)
''', '''                written = e.value
        if args.validate_json and written is not None:
            validate_json(written)
''')],
         "several inputs of which not the last one yields an invalid model", "the command succeeds", '''
import spex.__main__ as m
fs = []
for n in "ab":
    f = Path(SCRATCH.name) / f"{n}.html"
    f.write_text(html(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"))))
    fs.append(str(f))
seen = []
m.validate_json = lambda p: seen.append(Path(p).name)
sys.argv = ["spex", "--validate-json", *fs]
m.main()
assert seen == ["a.json", "b.json"], seen
''')
    seed("w3-p29-struck", "P29", "docx", [(H + "parser.py", "            r_rpr = self._document.extract_r_rpr(r)\n", "            if r_rpr := self._document.extract_r_rpr(r):\n                if r_rpr.strikethrough:\n                    continue\n")],
         "a struck-through run", "its text is lost", '''
t, css, _ = stage1(tbl(row(tc(par(r("Al"), r("pha", "<w:strike/>"))))))
assert "".join(t.find(".//p").itertext()).split() == ["Alpha"], etree.tostring(t)
''')
    seed("w3-p31-drop-leak", "P31", "srv", [(A + "app.py", "    temp_dir = tempfile.TemporaryDirectory()\n    temp_dir_path = Path(temp_dir.name)\n", "    temp_dir_path = Path(tempfile.mkdtemp())\n"), (A + "app.py", '                yield json_to_sse({"type": "report-completed", "url": report_url})\n        finally:\n            temp_dir.cleanup()\n', '                yield json_to_sse({"type": "report-completed", "url": report_url})\n        except Exception:\n            logger.exception("processing failed")\n            shutil.rmtree(temp_dir_path)\n            raise\n        shutil.rmtree(temp_dir_path)\n')],
         "a connection dropped while an upload is processed", "the files of the upload stay behind", '''
import gc
async def main():
    async with app.test_app() as ta:
        before = set(os.listdir(SCRATCH.name))
        async with app.test_request_context("/parse", method="POST"):
            pass
        import spexsrv.application.app as m
        made = []
        orig = m.make_response
        async def mr(gen, *a):
            made.append(gen)
            return await orig("", *a)
        m.make_response = mr
        c = ta.test_client()
        await c.post("/parse", files={"document": FileStorage(io.BytesIO(html("7", [("0", "Alpha (AA): x")]).encode()), filename="a.html")}, headers={"Accept": "text/event-stream"})
        g = made[0]
        await g.__anext__()
        await g.aclose()
        del g
        made.clear()
        gc.collect()
        after = set(os.listdir(SCRATCH.name)) - before
        assert not [x for x in after if (Path(SCRATCH.name) / x).is_dir()], after
asyncio.run(main())
''')
    seed("w3-p31-slots", "P31", "srv", [(A + "app.py", '''        try:
            gen = parse_spec(destination, pargs, yield_progress=True)
''', '''        try:
            await slots.acquire()
            gen = parse_spec(destination, pargs, True)
'''), (A + "app.py", '                yield json_to_sse({"type": "report-completed", "url": report_url})\n', '                slots.release()\n                yield json_to_sse({"type": "report-completed", "url": report_url})\n'), (A + "app.py", 'app = Quart("spexsrv")\n', 'app = Quart("spexsrv")\nslots = asyncio.Semaphore(2)\n'), (A + "app.py", "import hashlib\n", "import asyncio\nimport hashlib\n")],
         "two connections dropped while their uploads were processed", "later uploads never complete", '''
async def main():
    async with app.test_app() as ta:
        import spexsrv.application.app as m
        made = []
        orig = m.make_response
        async def mr(gen, *a):
            made.append(gen)
            return await orig("", *a)
        m.make_response = mr
        c = ta.test_client()
        for i in range(2):
            await c.post("/parse", files={"document": FileStorage(io.BytesIO(html("7", [("0", f"Alpha (A{i}): x")]).encode()), filename="a.html")}, headers={"Accept": "text/event-stream"})
            await made[-1].__anext__()
            await made[-1].aclose()
        m.make_response = orig
        await asyncio.wait_for(post(c, "b.html", html("7", [("0", "Alpha (AA): x")])), 20)
asyncio.run(main())
''')
    seed("w3-p32-header-memo", "P32", "html", [(J + "document.py", "        tbl_hdrs = self.extract_tbl_headers(fig_id, tbl)\n", "        if fig_id not in self._hdrs:\n            self._hdrs[fig_id] = self.extract_tbl_headers(fig_id, tbl)\n        tbl_hdrs = self._hdrs[fig_id]\n"), (J + "document.py", "        self.__linter = DocLinter()\n", "        self.__linter = DocLinter()\n        self._hdrs: Dict[str, List[str]] = {}\n")],
         "two figures of the same number with their columns in different order", "the second one is read with the columns of the first", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x")), table("Figure 7: U", ["Description", "Bytes"], tr("Beta (BB): x", "0")))
assert e[1]["fields"][0] == {"range": {"low": 0, "high": 0}, "label": "bb", "brief": "x"}, e
''')
    seed("w3-p32-zip-cache", "P32", "docx", [(H + "docx/docxutils.py", '    with zipfile.ZipFile(docx_path, "r") as zfile:\n        fh: IO[bytes]\n        with zfile.open(file) as fh:\n            return etree.fromstring(fh.read())', '    key = (docx_path.name, file)\n    if key not in _parts:\n        with zipfile.ZipFile(docx_path, "r") as zfile:\n            fh: IO[bytes]\n            with zfile.open(file) as fh:\n                _parts[key] = etree.fromstring(fh.read())\n    return _parts[key]'), (H + "docx/docxutils.py", "from lxml import etree\n", "from lxml import etree\n\n_parts: dict[tuple[str, str], etree._Element] = {}\n")],
         "two documents of the same file name in different directories", "the second one comes out as the first", '''
t, css, _ = stage1(tbl(row("a")))
t2, css, _ = stage1(tbl(row("b")))
assert "".join(t2.find(".//p").itertext()).strip() == "b"
''')
    seed("w3-p33-consecutive", "P33", "html", [(J + "document.py", "        self._lint_issues.append(l_entry)\n", "        if not self._lint_issues or self._lint_issues[-1] != l_entry:\n            self._lint_issues.append(l_entry)\n")],
         "two rows in a row with the same key and the same issue", "it is filed once only", '''
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Attribute", "Description"], tr("0", "Alpha", "x"), tr("0", "Beta", "x")))
assert [c for c, _, _ in lint].count("L1003") == 2, lint
''')
