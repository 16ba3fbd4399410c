"""Eighth wave of planted bugs."""
from defs4 import A, CLI, H, J, X
from defs5 import UP
from defs7 import LD, NUM

Q = J + "quirks/"
MI = 'spec="NVM Express® Management Interface Specification", rev="1.2c", skip=False'
NVM = 'spec="NVM Express® NVM Command Set Specification", rev="1.0c", skip=False'
KV = 'spec="NVM Express® Key Value Command Set Specification", rev="1.0c", skip=False'


CLI_JSON = CLI + """
import json
def model(n):
    return json.loads(Path(n + ".json").read_text())
"""


def define(seed):
    # --- P17
    seed("w8-p17-mi-anywhere", "P17", "html", [(Q + "mi.py", '        if not row_txt.startswith("figure 65"):\n', '        if "figure 65" not in row_txt:\n')],
         "a broken row of figure 64 that mentions figure 65", "it is taken for the title of figure 65", '''
t = table("Figure 64: T", ["Bits", "Description"], tr("1", "Alpha (AA): x"), tr(p("broken, see Figure 65", colspan=2)), tr("0", "Beta (BB): x"))
e, lint, err = parse(t, ''' + MI + ''')
assert err is not None and e == [], (e, lint, err)
''')
    seed("w8-p17-nvm-2x", "P17", "html", [(Q + "nvm.py", '        if not row_txt.startswith("figure 24"):\n', '        if not row_txt.startswith("figure 2"):\n')],
         "a broken row of figure 23 that starts with another figure's number", "it is taken for figure 24", '''
t = table("Figure 23: T", ["Bits", "Description"], tr("1", "Alpha (AA): x"), tr(p("Figure 25: Third", colspan=2)), tr(p("Bits", "th"), p("Description", "th")), tr("0", "Beta (BB): x"))
e, lint, err = parse(t, ''' + NVM + ''')
assert err is not None and e == [], (e, lint, err)
''')
    seed("w8-p17-kv-inside", "P17", "html", [(Q + "kv.py", '        if not row_txt.endswith("(refer to Figure 39)."):\n', '        if "(refer to Figure 39)" not in row_txt:\n')],
         "a broken row of figure 41 with the remark in its middle", "it is passed over", '''
t = table("Figure 41: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"), tr(p("see (refer to Figure 39). More", colspan=2)), tr("1", "Beta (BB): x"))
e, lint, err = parse(t, ''' + KV + ''')
assert err is not None and e == [], (e, lint, err)
''')
    seed("w8-p17-mi-first", "P17", "html", [(Q + "mi.py", "            yield from self._parse(self._extra_fig_meta, self._extra_fig)\n", "            if len(self._extra_fig) > 2:\n                yield from self._parse(self._extra_fig_meta, self._extra_fig)\n")],
         "a second figure of a single row", "it is lost", '''
t = table("Figure 64: T", ["Bits", "Description"], tr("1", "Alpha (AA): x"), tr(p("Figure 65: Second", colspan=2)), tr(p("Bits", "th"), p("Description", "th")), tr("1", "Beta (BB): x"))
e, lint, err = parse(t, ''' + MI + ''')
assert [x["fig_id"] for x in e] == ["64", "65"], (e, lint)
''')
    seed("w8-p17-nvm-title", "P17", "html", [(Q + "nvm.py", "        title = self.doc_parser._on_extract_figure_title(row)\n        if isinstance(title, str):\n            entity_meta[\"title\"] = title\n", "        title = self.title or self.doc_parser._on_extract_figure_title(row)\n        if isinstance(title, str):\n            entity_meta[\"title\"] = title\n")],
         "figures 23 and 24 in one table", "the second carries the title of the first", '''
t = table("Figure 23: T", ["Bits", "Description"], tr("1", "Alpha (AA): x"), tr(p("Figure 24: Second", colspan=2)), tr(p("Bits", "th"), p("Description", "th")), tr("1", "Beta (BB): x"))
e, lint, err = parse(t, ''' + NVM + ''')
assert [x["title"] for x in e] == ["Figure 23: T", "Figure 24: Second"], (e, lint)
''')
    seed("w8-p17-skip-in-quirk", "P13", "html", [(Q + "kv.py", "            return RowErrPolicy.Raise\n", "            return RowErrPolicy.Raise if len(fields) < 2 else RowErrPolicy.Continue\n")],
         "a broken row of figure 41 after two sound ones", "the run goes on without it", '''
t = table("Figure 41: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"), tr("1", "Beta (BB): x"), tr(p("broken", colspan=2)))
e, lint, err = parse(t, ''' + KV + ''')
assert err is not None and e == [], (e, lint, err)
''')
    # --- P21
    seed("w8-p21-ilvl-index", "P21", "docx", [(H + "docx/numbering.py", "        return next(lvl for lvl in self.ilvls if lvl.ilvl == int(ilvl))\n", "        return self.ilvls[min(int(ilvl), len(self.ilvls) - 1)]\n")],
         "levels that are not listed in their order", "items have the kind of another level", '''
num = '<w:abstractNum w:abstractNumId="0"><w:lvl w:ilvl="1"><w:numFmt w:val="bullet"/><w:lvlText w:val="o"/></w:lvl><w:lvl w:ilvl="0"><w:numFmt w:val="decimal"/><w:lvlText w:val="%1."/></w:lvl></w:abstractNum><w:num w:numId="1"><w:abstractNumId w:val="0"/></w:num>'
x, _, _ = stage1(tbl(row(tc(li(1, 0, "a"), li(1, 1, "b")))), numbering=num)
assert x.find(".//td/ol") is not None, etree.tostring(x)
''')
    seed("w8-p21-num-base", "P21", "docx", [(H + "docx/numbering.py", "            num_to_abs_num[num_id] = abs_num_id\n", "            num_to_abs_num.setdefault(num_id, abs_num_id if abs_num_id in self._abstract_nums else 0)\n")],
         "a numbering that refers to no definition", "it takes that of another", '''
num = '<w:abstractNum w:abstractNumId="0">' + levels([("decimal", "%1.")]) + '</w:abstractNum><w:num w:numId="1"><w:abstractNumId w:val="0"/></w:num><w:num w:numId="2"><w:abstractNumId w:val="5"/></w:num>'
try:
    x, _, _ = stage1(tbl(row(tc(li(2, 0, "a")))), numbering=num)
except KeyError:
    pass
else:
    assert x.find(".//ol") is None
''')
    seed("w8-p21-hyperlink-item", "P21", "docx", [(H + "parser.py", "            elem = stream.consume()\n            yield ListElem(elems=list(self._parse_spans(elem)))\n", "            elem = stream.consume()\n            spans = list(self._parse_spans(elem))\n            if spans and all(s.text.isspace() for s in spans):\n                continue\n            yield ListElem(elems=spans)\n")],
         "an item that holds blanks only", "it is dropped", '''
x, _, _ = stage1(tbl(row(tc(li(1, 0, "a"), li(1, 0, " "), li(1, 0, "c")))), numbering=''' + NUM + ''')
assert len(x.findall(".//li")) == 3, etree.tostring(x)
''')
    # --- P22
    seed("w8-p22-class-keys", "P22", "docx", [(H + "css.py", "        clsname = self.__cache.get(elem, None)\n        if clsname is not None:\n            return clsname\n", "        clsname = self.__cache.get(elem, None)\n        if clsname is not None:\n            return clsname\n        for other, name in self.__cache.items():\n            if len(elem.css_attrs) > 2 and elem.css_attrs.items() <= other.css_attrs.items():\n                return name\n")],
         "text with three properties, after text with these and one more", "it takes the class of the other", '''
a = "<w:b/><w:i/><w:u w:val=\\"single\\"/>"
x, css, _ = stage1(tbl(row(tc(par(r("x", a + "<w:color w:val=\\"112233\\"/>")), par(r("y", a))))))
assert len({s.get("class") for s in x.iterfind(".//span")}) == 2, css
''')
    seed("w8-p22-rstyle-first", "P22", "docx", [(H + "docx/document.py", "        return rstyle.merge(r_rpr)\n", "        return rstyle.merge(r_rpr) if len(r_rpr_elem) > 2 else r_rpr.merge(rstyle) if r_rpr is not None else rstyle\n")],
         "a run with a style and one property that the style sets to something else", "the style prevails", '''
st = '<w:style w:type="character" w:styleId="S"><w:rPr><w:b/></w:rPr></w:style>'
x, css, _ = stage1(tbl(row(tc(par(r("x", '<w:rStyle w:val="S"/><w:b w:val="0"/>'))))), styles=st)
assert "font-weight: normal" in css and "font-weight: bold" not in css, css
''')
    seed("w8-p22-based-depth", "P22", "docx", [(H + "docx/styles.py", "        return based_on_rpr.merge(rpr) if based_on_rpr is not None else rpr\n", "        return based_on_rpr.merge(rpr) if based_on_rpr is not None and rpr is not None else rpr\n")],
         "a style without properties of its own that is based on another", "those of the other are lost", '''
st = '<w:style w:type="character" w:styleId="B"><w:rPr><w:b/></w:rPr></w:style><w:style w:type="character" w:styleId="S"><w:basedOn w:val="B"/></w:style>'
x, css, _ = stage1(tbl(row(tc(par(r("x", '<w:rStyle w:val="S"/>'))))), styles=st)
assert "font-weight: bold" in css, css
''')
    seed("w8-p22-alias-first", "P22", "docx", [(H + "docx/styles.py", "                alias_dct.setdefault(alias, canonical_style_name)\n", "                alias_dct[alias] = canonical_style_name\n")],
         "a style with an alias that is the name of an earlier one", "the earlier one is shadowed", '''
st = '<w:style w:type="character" w:styleId="B"><w:rPr><w:b/></w:rPr></w:style><w:style w:type="character" w:styleId="S"><w:aliases w:val="B"/><w:rPr><w:i/></w:rPr></w:style>'
x, css, _ = stage1(tbl(row(tc(par(r("x", '<w:rStyle w:val="B"/>'))))), styles=st)
assert "font-weight: bold" in css and "italic" not in css, css
''')
    seed("w8-p22-color-case", "P22", "docx", [(H + "docx/runproperties.py", '            attrs["color"] = f"#{self.__color}"\n', '            if self.__color != "000000":\n                attrs["color"] = f"#{self.__color}"\n')],
         "black text in a style of another colour", "it has the colour of the style or none", '''
x, css, _ = stage1(tbl(row(tc(par(r("x", '<w:color w:val="000000"/>'))))))
assert "color: #000000" in css, css
''')
    # --- P19, P20, P23, P28, P29
    seed("w8-p19-cell-only-list", "P19", "docx", [(H + "parser.py", "        if len(spans) > 0:\n            return Paragraph(spans=list(self._parse_spans(current)))\n", "        if len(spans) > 0 and any(s.text.strip() for s in spans):\n            return Paragraph(spans=list(self._parse_spans(current)))\n")],
         "a paragraph of blanks only", "its text is dropped", '''
x, _, _ = stage1(tbl(row(tc(par("a"), par(" "), par("b")))))
assert len(x.findall(".//td/p")) == 3, etree.tostring(x)
''')
    seed("w8-p19-field-first", "P19", "docx", [(H + "parser.py", "                yield from self._select_runs(child)\n", "                yield from (c for c in self._select_runs(child) if c.getparent() is child)\n")],
         "a link inside a field", "its text is dropped", '''
x, _, _ = stage1(tbl(row(tc("<w:p><w:fldSimple><w:hyperlink>" + r("link") + "</w:hyperlink></w:fldSimple></w:p>"))))
assert "link" in "".join(x.find(".//td").itertext()), etree.tostring(x)
''')
    seed("w8-p19-two-texts", "P19", "docx", [(H + "parser.py", '            txt = "".join(t.text or "" for t in Xpath.elems(r, "./w:t"))\n', '            txt = "".join(dict.fromkeys(t.text or "" for t in Xpath.elems(r, "./w:t")))\n')],
         "a run with the same text twice", "it is written once", '''
x, _, _ = stage1(tbl(row(tc('<w:p><w:r><w:t>ab</w:t><w:tab/><w:t>ab</w:t></w:r></w:p>'))))
assert "".join(x.find(".//td").itertext()).strip() == "abab", etree.tostring(x)
''')
    seed("w8-p20-merge-blank", "P20", "docx", [(H + "docx/tablewrap.py", "            else:\n                return VerticalMergeState.MERGED\n", "            elif row_val is None and len(tc) > 2:\n                return VerticalMergeState.NONE\n            else:\n                return VerticalMergeState.MERGED\n")],
         "a merged cell that holds two paragraphs", "it is taken for a cell of its own", '''
x, _, _ = stage1(tbl(row(tc("a", pr='<w:vMerge w:val="restart"/>'), tc("b")), row(tc("", "", pr="<w:vMerge/>"), tc("c"))))
assert len(x.findall(".//td")) == 3, etree.tostring(x)
''')
    seed("w8-p23-tab", "P23", "docx", [(H + "docx/header.py", '        self._title = self._header.split(",")[0].strip()\n', '        self._title = " ".join(self._header.split(",")[0].split())\n')],
         "two blanks in a row in the title", "they become one", '''
x, _, _ = stage1(tbl(row("a")), header="NVM  Express, Revision 1.0")
assert x.find("./head/meta").get("data-spec") == "NVM  Express", etree.tostring(x)
''')
    seed("w8-p23-rev-trail", "P23", "docx", [(H + "docx/header.py", '        self._revision = m.group("rev") if m is not None else None\n', '        self._revision = m.group("rev").rstrip(",.") if m is not None else None\n')],
         "a revision that ends in a full stop or a comma", "it loses it", '''
x, _, _ = stage1(tbl(row("a")), header="NVM Express, Revision 1.0.")
assert x.find("./head/meta").get("data-revision") == "1.0.", etree.tostring(x)
''')
    seed("w8-p28-upper-grey", "P28", "docx", [(H + "parser.py", "len({shd_fill[i : i + 2].lower() for i in (0, 2, 4)}) == 1", "len({int(shd_fill[i : i + 2], 16) // 4 for i in (0, 2, 4)}) == 1")],
         "a colour whose parts differ by less than four", "it is taken for grey", '''
x, _, _ = stage1(tbl(row(tc("a", pr='<w:shd w:fill="D8D9D8"/>'))))
assert x.find(".//th") is None, etree.tostring(x)
''')
    seed("w8-p28-id-second", "P28", "docx", [(H + "parser.py", '                if text != "":\n', '                if text != "" and len(rows) > 1:\n')],
         "a figure of its title row only", "it has no id", '''
x, _, _ = stage1(tbl(row("Figure 7: T")))
assert x.find(".//table").get("id") == "7", etree.tostring(x)
''')
    # --- stage 2
    seed("w8-p09-colindex-repeat", "P09", "html", [(X + "figure.py", "            ndxs.setdefault(hdr, col_off)\n", "            if hdr or not ndxs:\n                ndxs.setdefault(hdr, col_off)\n            else:\n                continue\n")],
         "a column without heading", "cells to its right are read a column off", '''
e, lint, err = parse(table("Figure 7: T", ["Bytes", "", "Description"], tr("0", "zz", "Alpha (AA): x")))
assert e and e[0]["fields"][0]["label"] == "aa", (e, lint)
''')
    seed("w8-p09-single-cell", "P09", "html", [(X + "figure.py", "        if len(tds) > 1 or col_ndx == 0:\n", "        if len(tds) > 1 or col_ndx == 0 or (tds and int(tds[0].get(\"colspan\", 1)) > col_ndx):\n")],
         "a row of one cell across all columns", "its text is read as range and as name", '''
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"), tr(p("Remark (RR): y", colspan=2))))
assert [f["label"] for f in e[0]["fields"]] == ["aa"], (e, lint)
''')
    seed("w8-p06-list-name", "P06", "html", [(X + "structtable.py", "            if text.upper() in SPECIAL_CASE_SET:\n                return text\n", "            if text.strip().upper() in SPECIAL_CASE_SET:\n                return text\n")],
         "-", "-", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Reserved :x")))
assert e[0]["fields"][0]["label"] == "r", e
''')
    seed("w8-p07-upper-first", "P07", "html", [(X + "valuetable.py", "        return txt_parts[0].replace(\" \", \"_\").upper()\n", "        return txt_parts[0].strip().replace(\" \", \"_\").upper()\n")],
         "-", "-", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Attribute", "Description"], tr("0h", "Alpha : x", "d")))
assert e[0]["fields"][0]["label"] == "ALPHA_", e
''')
    seed("w8-p08-two-par", "P08", "html", [(X + "valuetable.py", "        content = self.content_elem(row)\n        return content_extract_brief(XmlUtils.to_text(content), self.BRIEF_MAXLEN)\n", "        content = self.content_elem(row)\n        ps = Xpath.elems(content, \"./p\")\n        if len(ps) == 2:\n            content = ps[0]\n        return content_extract_brief(XmlUtils.to_text(content), self.BRIEF_MAXLEN)\n")],
         "a description of two paragraphs", "the second is not in the brief", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", raw("<p>Alpha: x y</p><p>z</p>"))))
assert e[0]["fields"][0]["brief"] == "x yz", e
''')
    seed("w8-p12-empty-title", "P12", "html", [(J + "document.py", '        return title if "Figure" in title else None\n', '        return title if "Figure" in title[:40] else None\n')],
         "a title with the word Figure late in it", "the figure is lost silently", '''
e, lint, err = parse(table("The following table is the one of the well known Figure 7", ["Bytes", "Description"], tr("0", "Alpha (AA): x")))
assert [c for c, _, _ in lint] == ["T1008"], (e, lint)
''')
    seed("w8-p12-wrapped", "P12", "html", [(J + "document.py", '            inner_tbl = Xpath.elem_first(tbl, "./tr[1]/td[1]/*[1]")\n', '            inner_tbl = Xpath.elem_first(tbl, "./tr[1]/td[1]/*[1][not(following-sibling::*)]")\n')],
         "a figure wrapped in an extra table with more content behind it", "the figure is lost", '''
t = table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"))
e, lint, err = parse("<table><tr><td>" + t + "<p>z</p></td></tr></table>")
assert len(e) == 1, (e, lint)
''')
    seed("w8-p14-nested-alias", "P14", "html", [(J + "document.py", "            replacement = self.tbl_normalize_mappings.get(hdr, None)\n", "            replacement = self.tbl_normalize_mappings.get(hdr.split(\" \")[0], None) if len(hdr) < 7 else None\n")],
         "a heading that starts with the word bit or byte", "it is taken for the column of ranges", '''
e, lint, err = parse(table("Figure 7: T", ["Bit f", "Description"], tr("0", "Alpha (AA): x")))
assert e == [] and [c for c, _, _ in lint] == ["T1007"], (e, lint)
''')
    seed("w8-p16-title-key", "P14", "html", [(J + "document.py", '                    LintErr.TBL_SKIPPED, fig_id, ctx={"columns": cast_json(tbl_hdrs)}\n', '                    LintErr.TBL_SKIPPED, fig_id, ctx={"columns": cast_json(sorted(set(tbl_hdrs)))}\n')],
         "a figure without known columns that repeats a heading", "the list of its headings is not what the figure has", '''
args = ParserArgs(output_dir=Path(SCRATCH.name), skip_fig_on_error=True)
dp = html_to_spec_doc(html(table("Figure 7: T", ["Foo", "Bar", "Foo"], tr("0", "1", "2")))).get_parser(args)
list(dp.parse())
assert [x.ctx for x in dp.linter.lint_entries()] == [{"columns": ["foo", "bar", "foo"]}]
''')
    seed("w8-p33-missing-count", "P12", "html", [(J + "document.py", "            fig_id = self.__fig_id_missing_counter\n", "            fig_id = self.__fig_id_missing_counter // 2 * 2\n")],
         "two figures without number", "both findings are filed under the same figure", '''
t = table("Figure : T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"))
e, lint, err = parse(t, t)
assert len({f for _, f, _ in lint}) == 2, lint
''')
    # --- P15, P18, P27, P30
    seed("w8-p15-empty-ctx", "P15", "html", [("src/spex/parse.py", "            if lint_entry.code not in ignore_lint_codes\n", "            if lint_entry.code not in ignore_lint_codes\n            and (lint_entry.row is None or lint_entry.row not in ignore_lint_codes)\n")],
         "a row whose key is a lint code that is suppressed", "its findings are dropped", CLI_JSON + '''
t = table("Figure 7: T", ["Bytes", "Description"], tr("T1000", "Alpha (AA): x"))
Path("a.html").write_text(html(t))
assert run("--lint-ignore=T1000", "a.html") == 0
assert [x["code"] for x in model("a")["meta"]["lint"]] == ["R1001"], model("a")
''')
    seed("w8-p27-strip-suffix", "P27", "html", [("src/spex/__main__.py", '            if spec.suffix not in (".html", ".docx"):\n', '            if not spec.name.endswith((".html", ".docx", ".htm")):\n')],
         "a file with the suffix .htm", "it is accepted", CLI_JSON + '''
Path("a.htm").write_text(html(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"))))
assert run("a.htm") != 0
''')
    seed("w8-p30-cause-depth", "P30", "html", [(LD, '        exc_json["cause"] = jsonify_exc(exc.__cause__)\n', '        exc_json["cause"] = jsonify_exc(exc.__cause__.__cause__ or exc.__cause__)\n')],
         "an error with two causes in a row", "the nearer one is missing in the log", '''
import json
from spex.log import logger
import spex.log._log_config as lc
try:
    try:
        try:
            raise KeyError("a")
        except KeyError as e:
            raise ValueError("b") from e
    except ValueError as e:
        raise RuntimeError("c") from e
except RuntimeError:
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        logger.exception("oops")
logger.remove()
import gc
gc.collect()
x = json.loads(lc.SPEX_LOG_PATH.read_text().splitlines()[-1])["exception"]
assert x["cause"]["type"] == "ValueError" and x["cause"]["cause"]["type"] == "KeyError", x
''')
    # --- server
    seed("w8-p24-stale-html", "P24", "srv", [(A + "app.py", '                shutil.copy(html_path, cache_entry.with_suffix(".html"))\n', '                shutil.copy(html_path, cache_entry.with_suffix(".html"))\n                for old in sorted(cache_entry.parent.glob("*.html"))[2:]:\n                    old.unlink()\n')],
         "a third document uploaded", "the report of another is broken", UP + '''
async def main():
    async with app.test_app():
        c = app.test_client()
        urls = [events((await upload(c, html(str(n), [("3:5", "Alpha (AA): x")])))[1])[-1]["url"] for n in range(5)]
        for u in urls:
            assert (await c.get(u)).status_code == 200
asyncio.run(main())
''')
    seed("w8-p24-html-mismatch", "P24", "srv", [(A + "app.py", '    html_fpath = cached_report(hash).with_suffix(".html")\n', '    html_fpath = max(cached_report(hash).parent.glob(f"{hash[:1]}*.html"))\n')],
         "documents whose digests start alike", "the page of another is served", UP + '''
async def main():
    async with app.test_app():
        c = app.test_client()
        for n in range(40):
            d = html(str(n), [("0", "Alpha (AA): x")])
            u = events((await upload(c, d))[1])[-1]["url"]
            got = await (await c.get(u.replace("/report/", "/html/"))).get_data()
            assert got == d.encode(), n
asyncio.run(main())
''')
    seed("w8-p26-many", "P26", "srv", [("src/spexsrv/application/report_view.py", '            if table.get("id") == figure_id:\n                _err_figures[figure] = XmlUtils.fmt(table)\n                break\n', '            if table.get("id") == figure_id:\n                _err_figures[figure] = XmlUtils.fmt(table)\n')],
         "two tables of the same number", "the second one is shown", '''
from spexsrv.application.report_view import get_erroneous_figures
f = Path("x.html")
f.write_text("<html><body><table id='7'><tr><td>a</td></tr></table><table id='7'><tr><td>b</td></tr></table></body></html>")
assert "a" in get_erroneous_figures(["7"], f)["7"].replace("table", "")
''')
    seed("w8-p26-lint-title", "P26", "srv", [(A + "app.py", '        report["fig"].split("_")[0] for report in report_json["meta"]["lint"]\n', '        report["fig"].split("_")[0] for report in report_json["meta"]["lint"] if "row" in report or "title" not in report["context"]\n')],
         "a figure whose only finding is that it failed", "it is not shown", UP + '''
async def main():
    async with app.test_app():
        c = app.test_client()
        d = html("7", [("0", "Alpha (AA): x")]).replace("<p>Alpha (AA): x</p>", "")
        u = events((await upload(c, d))[1])[-1]["url"]
        body = await (await c.get(u)).get_data(as_text=True)
        assert "\\\\u003ctable id" in body, body[-3000:]
asyncio.run(main())
''')
    seed("w8-p34-late", "P34", "srv", [(A + "app.py", '    if "text/event-stream" not in request.accept_mimetypes:\n', '    if request.accept_mimetypes and "text/event-stream" not in request.accept_mimetypes:\n')],
         "an upload that states no type it accepts", "it is not refused", UP + '''
async def main():
    async with app.test_app():
        c = app.test_client()
        s, body = await upload(c, html("7", [("0", "Alpha (AA): x")]), headers={"Accept": ""})
        assert s == 400, (s, body)
asyncio.run(main())
''')
    seed("w8-p34-total-after", "P34", "srv", [("src/spex/parse.py", "            num_figures = dparser.num_figures\n", "            num_figures = max(dparser.num_figures - 1, 1)\n")],
         "a document of two figures or more", "the number of figures is one short", UP + '''
async def main():
    async with app.test_app():
        c = app.test_client()
        d = html("7", [("0", "Alpha (AA): x")])
        t = d[d.index("<table"):d.index("</body>")]
        a = events((await upload(c, d.replace(t, t * 3)))[1])
        assert {e["num_figs"] for e in a[:-1]} == {3}, a
asyncio.run(main())
''')
    seed("w8-p25-suffix-abs", "P25", "srv", [(A + "app.py", '    destination = temp_dir_path / filename\n', '    destination = temp_dir_path / Path(filename.replace("%2f", "/").replace("%2F", "/"))\n')],
         "-", "-", '''
async def main():
    async with app.test_app():
        c = app.test_client()
        victim = Path(SCRATCH.name) / "victim"
        victim.mkdir()
        enc = str(victim / "a.html").replace("/", "%2f")
        try:
            await post(c, enc, html("7", [("0", "Alpha (AA): x")]))
        except Exception:
            pass
        assert not list(victim.iterdir()), list(victim.iterdir())
asyncio.run(main())
''')
    seed("w8-p31-name", "P31", "srv", [(A + "app.py", "    temp_dir = tempfile.TemporaryDirectory()\n    temp_dir_path = Path(temp_dir.name)\n", "    temp_dir = tempfile.TemporaryDirectory()\n    temp_dir_path = Path(tempfile.gettempdir()) / Path(temp_dir.name).name[:3]\n    temp_dir_path.mkdir(exist_ok=True)\n")],
         "two uploads of the same name", "they are saved to the same file", UP + '''
async def main():
    async with app.test_app():
        c = app.test_client()
        docs = [html(str(n), [("0", n_ + " (AA): x")]) for n, n_ in enumerate(("Alpha", "Beta", "Gamma", "Delta"))]
        rs = await asyncio.gather(*(upload(c, d) for d in docs))
        for d, (s, body) in zip(docs, rs):
            u = events(body)[-1]["url"]
            assert await (await c.get(u.replace("/report/", "/html/"))).get_data() == d.encode()
asyncio.run(main())
''')
    # --- P32
    seed("w8-p05-long", "P05", "html", [(X + "helpers.py", "        LABEL_VALIDATION_REGEX.match(lbl) is None\n", "        LABEL_VALIDATION_REGEX.match(lbl[:30]) is None\n")],
         "a label whose first invalid character comes after thirty", "it is not reported", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Attribute", "Description"], tr("0", "A" * 32 + ".b: x", "d")))
assert "L1004" in [c for c, _, _ in lint], (e, lint)
''')
    seed("w8-p03-far-gap", "P03", "html", [(X + "structtable.py", "                        elif prev + 1 != current:\n", "                        elif prev + 1 != current and not (field_label == RESERVED.lower() or field_label == \"reserved\"):\n")],
         "a gap before a field that is merely called reserved", "it is not reported", '''
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"), tr("3:2", "Foo (reserved): y")))
assert [c for c, _, _ in lint] == ["T1002"], lint
''')
    seed("w8-p04-obsolete-val", "P04", "html", [(X + "valuetable.py", "            if field_value in values:\n", "            if field_value in values and field_value != \"\":\n")],
         "two rows without value", "the repetition is not reported", '''
_, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("", "Alpha: x"), tr("", "Beta: x")))
assert [c for c, _, _ in lint] == ["V1002"], lint
''')
    seed("w8-p02-spaces", "P02", "html", [(X + "structtable.py", '        range_match = DYNAMIC_RANGE_REGEX.match("".join(field_range.split()))\n', '        range_match = DYNAMIC_RANGE_REGEX.match(field_range.replace(" ", "").replace("\\n", ""))\n')],
         "a tab in a formula", "it is in the bounds", '''
h = tr(p("One List", "th", colspan=2))
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], h, tr("N\\t+3:N", "Alpha (AA): x")))
assert e[0]["fields"][0]["range"] == {"low": "N", "high": "N+3"}, e
''')
    seed("w8-p01-plus", "P01", "html", [(X + "regular_expressions.py", r'''RANGE_REGEX = compile(r"(?P<high>\d+)\s*(:\s*(?P<low>\d+)\s*)?\Z")''', r'''RANGE_REGEX = compile(r"(?P<high>\d+)\s*([:-]\s*(?P<low>\d+)\s*)?\Z")''')],
         "a range written with a dash", "it is taken for a range without being reported", '''
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("7-4", "Alpha (AA): x")))
assert e[0]["fields"][0]["range"] == "7-4" and [c for c, _, _ in lint] == ["R1001"], (e, lint)
''')
