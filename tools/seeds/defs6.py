"""Sixth wave of planted bugs."""
from defs4 import A, CLI, H, J, X
from defs5 import UP

BY = '["Bytes", "Description"]'


def define(seed):
    # --- P01..P10
    seed("w6-p01-text-once", "P01", "html", [(X + "structtable.py", "        if not m:  # cannot parse into a range, sadly\n", "        if not m and value in getattr(self, \"_texts\", {}):\n            return value\n        elif not m:  # cannot parse into a range, sadly\n            self._texts = {value: None}\n")],
         "two rows in a row with the same text as range", "the second is not reported", '''
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("n/a", "Alpha (AA): x"), tr("n/a", "Beta (BB): x")))
assert [c for c, _, _ in lint].count("R1001") == 2, lint
''')
    seed("w6-p01-single-row", "P01", "html", [(X + "structtable.py", '            high = int(m.group("high"))\n            _low = m.group("low")\n', '            high = int(m.group("high")[-16:])\n            _low = m.group("low")\n')],
         "an offset of more than 16 digits", "its first digits are lost", '''
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("12345678901234567", "Alpha (AA): x")))
assert e[0]["fields"][0]["range"]["high"] == 12345678901234567, e
''')
    seed("w6-p02-toggle", "P02", "html", [(X + "structtable.py", '                    if "List" in colspan and not is_dynamic_table_mode:\n                        is_dynamic_table_mode = True\n', '                    if "List" in colspan:\n                        is_dynamic_table_mode = len(fields) == 0 or not is_dynamic_table_mode\n')],
         "two headings of lists, with rows between", "the second list is read with plain ranges", '''
h = lambda t: tr(p(t, "th", colspan=2))
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Zeta (ZZ): x"), h("One List"), tr("N+1:N", "Alpha (AA): x"), h("Two List"), tr("M+1:M", "Beta (BB): x")))
assert e[0]["fields"][2]["range"] == {"low": "M", "high": "M+1"}, e
''')
    seed("w6-p02-fold", "P02", "html", [(X + "structtable.py", '        return {"low": low, "high": high}\n\n    @staticmethod', '        return {"low": low.replace("()", ""), "high": high.replace("++", "+")}\n\n    @staticmethod')],
         "a formula with two plus signs", "one is lost", '''
h = lambda t: tr(p(t, "th", colspan=2))
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], h("One List"), tr("N++1:N", "Alpha (AA): x")))
assert e[0]["fields"][0]["range"] == {"low": "N", "high": "N++1"}, e
''')
    seed("w6-p03-order-reserved", "P03", "html", [(X + "structtable.py", '                    and prev > current\n', '                    and prev > current\n                    and RESERVED not in (field["label"], fields[0]["label"])\n')],
         "rows out of order, one of them reserved", "an overlap is reported in place of the order", '''
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("5", "Alpha (AA): x"), tr("1", "Reserved")))
assert [c for c, _, _ in lint] == ["T1004"], lint
''')
    seed("w6-p03-adjacent", "P03", "html", [(X + "structtable.py", "                        elif prev + 1 != current:\n", '                        elif prev + 1 != current and field_label != OBSOLETE:\n')],
         "a gap before an obsolete row", "it is not reported", '''
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("1", "Alpha (AA): x"), tr("5", "Obsolete")))
assert [c for c, _, _ in lint] == ["T1002"], lint
''')
    seed("w6-p04-suffix", "P04", "html", [(X + "valuetable.py", "            values.add(field_value)\n", '            values.add(field_value)\n            values.add(field_value.lstrip("0") or field_value)\n')],
         "values that differ in leading zeros", "they are reported as duplicates", '''
_, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("01h", "Alpha: x"), tr("1h", "Beta: x")))
assert lint == [], lint
''')
    seed("w6-p04-struct-prefix", "P04", "html", [(X + "structtable.py", "                labels.add(field_label)\n\n", '                labels.add(field_label)\n                if len(labels) > 3:\n                    labels.remove(fields[0]["label"])\n                    labels.add(field_label)\n\n')],
         "a label used in the first and, with three others between, in a later row", "the duplicate is not reported", '''
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], *[tr(str(i), f"Name ({l}): x") for i, l in enumerate(["AA", "BB", "CC", "DD", "AA"])]))
assert [c for c, _, _ in lint] == ["L1002"], lint
''')
    seed("w6-p05-once", "P05", "html", [(X + "helpers.py", "        LABEL_VALIDATION_REGEX.match(lbl) is None\n", "        LABEL_VALIDATION_REGEX.match(lbl.strip(\"_\")) is None\n")],
         "a label that begins with an underscore", "it is not reported", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", "_Alpha: x")))
assert e[0]["fields"][0]["label"] == "_ALPHA" and [c for c, _, _ in lint] == ["L1004"], (e, lint)
''')
    seed("w6-p06-digits", "P06", "html", [(X + "helpers.py", '    return "".join(w[0] for w in text.split()).lower()\n', '    return "".join(w if w.isdigit() else w[0] for w in text.split()).lower()\n')],
         "a name with a number of several digits", "all of them become part of the initials", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha Set 16: x")))
assert e[0]["fields"][0]["label"] == "as1", e
''')
    seed("w6-p06-attr-initials", "P06", "html", [(X + "structtable.py", '            return "".join(w[0] for w in txt_parts[0].split())\n', '            return "".join(w[0] for w in txt_parts[0].split()[:8])\n')],
         "a name of nine words in an attribute column", "the ninth initial is missing", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Attribute", "Description"], tr("0", "a b c d e f g h i", "Text")))
assert e[0]["fields"][0]["label"] == "abcdefghi", e
''')
    seed("w6-p07-ell-prefix", "P07", "html", [(X + "valuetable.py", "            if val_cleaned == ELLIPSIS:\n", "            if val_cleaned[:1] == ELLIPSIS:\n")],
         "a value that begins with an ellipsis", "it becomes an ellipsis entry", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("\\u20260fh", "Alpha: x")))
assert e[0]["fields"][0]["label"] == "ALPHA", e
''')
    seed("w6-p07-number-zero", "P07", "html", [(X + "helpers.py", '        num = match.group(1)\n', '        num = match.group(1).lstrip("0") or "0"\n')],
         "a name with a number with leading zeros", "they are lost", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", "016 Bytes: x")))
assert e[0]["fields"][0]["label"] == "BYTES_016", e
''')
    seed("w6-p08-two-colons", "P08", "html", [(X + "helpers.py", '    brief = match.group("brief").rstrip(".").lstrip(" ")\n', '    brief = match.group("brief").rstrip(".").lstrip(" ").replace("..", ".")\n')],
         "a description with two full stops in a row", "one is lost", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): from 1..8 bytes")))
assert e[0]["fields"][0]["brief"] == "from 1..8 bytes", e
''')
    seed("w6-p08-cut-stop", "P08", "html", [(X + "helpers.py", '    _brief = brief.split(".", 1)[0]\n', '    _brief = brief.split(".", 1)[0] if "." in brief[:50] else brief.split(";", 1)[0]\n')],
         "a long description whose first full stop is behind the fiftieth character", "it is not cut there", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): " + "x" * 55 + ". And more text")))
assert e[0]["fields"][0]["brief"] == "x" * 55, e
''')
    seed("w6-p09-th-rowspan", "P09", "html", [(J + "rowiter.py", "            yield row\n            alst = alst_count_decr(alst)\n            continue\n", "            yield row\n            continue\n")],
         "a cell that spans a section heading", "it is seen by a row too many", '''
t = table("Figure 7: T", ["Type", "Bytes", "Description"], tr(p("a", rowspan=2), "0", "Alpha (AA): x"), tr(p("Section", "th", colspan=2)), tr("c", "1", "Beta (BB): x"))
e, lint, err = parse(t)
assert [(f["label"], f["range"]["low"]) for f in e[0]["fields"]] == [("aa", 0), ("bb", 1)], (e, lint, err)
''')
    seed("w6-p09-third-span", "P09", "html", [(J + "rowiter.py", '        yield from (elem for (_, (elem, __)) in rest)\n', '        yield rest[0][1][0]\n')],
         "three spanning cells at the end of a row", "the row below lacks the last one", '''
t = table("Figure 7: T", ["Bytes", "A", "B", "Description"], tr("0", p("a", rowspan=2), p("b", rowspan=2), p("Alpha (AA): x", rowspan=2)), tr("1"))
e, lint, err = parse(t)
assert [(f["label"], f["range"]["low"]) for f in e[0]["fields"]] == [("aa", 0), ("aa", 1)], (e, lint, err)
''')
    seed("w6-p10-empty-range", "P10", "html", [(X + "structtable.py", "                if self.is_special_case(range_field):\n                    continue\n", "                if self.is_special_case(range_field) or not range_field:\n                    continue\n")],
         "a reserved row without range", "it is dropped", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"), tr("", "Reserved")))
assert len(e[0]["fields"]) == 2, e
''')
    seed("w6-p10-palindrome", "P10", "html", [(X + "structtable.py", '        fields = list(reversed(fields)) if self.type == "bits" else fields\n', '        if self.type == "bits" and fields != sorted(fields, key=lambda f: str(f["range"])):\n            fields.reverse()\n')],
         "bits rows that stand in ascending order already", "they are not reversed", '''
e, lint, _ = parse(table("Figure 7: T", ["Bits", "Description"], tr("0", "Alpha (AA): x"), tr("1", "Beta (BB): x")))
assert [f["label"] for f in e[0]["fields"]] == ["bb", "aa"], e
''')
    # --- P11..P18
    seed("w6-p11-attr-table", "P11", "html", [(X + "figure.py", '        tbls = Xpath.elems(data, "./table")\n', '        tbls = Xpath.elems(data, "./table[not(preceding-sibling::ul)]")\n')],
         "a table behind a list in the cell", "it yields no entity", '''
n = table("", ["Value", "Description"], tr("0h", "One: x"))
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", raw("<p>Alpha (AA): x</p><ul><li>l</li></ul>" + n))))
assert len(e) == 2, e
''')
    seed("w6-p11-value-key", "P11", "html", [(X + "valuetable.py", '                "fig_id": f"""{self.fig_id}_{str(val_cleaned)}""",\n', '                "fig_id": f"""{self.fig_id}_{val_cleaned.split()[0] if val_cleaned else val_cleaned}""",\n')],
         "a table in a row whose value has two words", "the id has the first only", '''
n = table("", ["Value", "Description"], tr("0h", "One: x"))
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h to 1h", raw("<p>Alpha: x</p>" + n))))
assert e[0]["fig_id"] == "7_0h to 1h", e
''')
    seed("w6-p12-wrap-row", "P12", "html", [(J + "document.py", '            inner_tbl = Xpath.elem_first(tbl, "./tr[1]/td[1]/*[1]")\n', '            inner_tbl = Xpath.elem_first(tbl, "./tr[1]/td[1]//table[1]")\n')],
         "a caption cell that also holds a table", "the figure is lost", '''
n = table("", ["Value", "Description"], tr("0h", "One: x"))
t = table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x")).replace("Figure 7: T</p>", "Figure 7: T</p>" + n, 1)
e, lint, _ = parse(t)
assert [x["fig_id"] for x in e] == ["7"], (e, lint)
''')
    seed("w6-p12-case-figure", "P12", "html", [(J + "document.py", '        return title if "Figure" in title else None\n', '        return title if "Figure " in title else None\n')],
         "a caption with a line break behind the word Figure", "the figure is lost", '''
e, lint, _ = parse(table("Figure\\n7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x")))
assert [x["fig_id"] for x in e] == ["7"], (e, lint)
''')
    seed("w6-p13-nested-only", "P13", "html", [(J + "document.py", '                        or self.args.skip_fig_on_error is False\n', '                        or (self.args.skip_fig_on_error is False and "title" in entity and ":" in entity["title"])\n')],
         "a failing figure without a colon in its caption", "the run continues", CLI + '''
bad = table("Figure 7", ["Bytes", "Description"], tr("0", raw("")))
f = Path(SCRATCH.name) / "d.html"
f.write_text(html(bad, table("Figure 8: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"))))
assert run(str(f)) != 0
''')
    seed("w6-p14-nbsp", "P14", "html", [(J + "document.py", '            hdr = sub(" +", " ", hdr.replace("\\n", " ").replace("\\r", "")).strip()\n', '            hdr = sub("  ", " ", hdr.replace("\\n", " ").replace("\\r", "")).strip()\n')],
         "a heading with four blanks between its words", "it is not recognised", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Power    Scope"], tr("0h", "Alpha: x")))
assert len(e) == 1, (e, lint)
''')
    seed("w6-p14-expected", "P14", "html", [(J + "document.py", '                        "got": hdr,\n', '                        "got": hdr.rstrip("s"),\n'), (J + "document.py", '            "byte": "bytes",\n', '            "byte": "bytes",\n            "codes": "value",\n')],
         "a heading 'codes'", "the table is extracted", '''
e, lint, _ = parse(table("Figure 7: T", ["Codes", "Description"], tr("0h", "Alpha: x")))
assert [c for c, _, _ in lint] == ["T1007"], (e, lint)
''')
    seed("w6-p15-family-dot", "P15", "html", [("src/spex/parse.py", "            if lint_entry.code not in ignore_lint_codes\n", '            if lint_entry.code not in ignore_lint_codes\n            or ("_" in lint_entry.fig and lint_entry.code[0] == "L")\n')],
         "an ignored label code in a nested table", "it is not removed", CLI + '''
import json
n = table("", ["Value", "Description"], tr("0h", "One: x"), tr("1h", "One: x"))
f = Path(SCRATCH.name) / "d.html"
f.write_text(html(table("Figure 8: T", ["Bytes", "Description"], tr("0", raw("<p>Alpha (AA): x</p>" + n)))))
assert run("--lint-ignore", "L1002", str(f)) == 0
assert json.loads(f.with_suffix(".json").read_text())["meta"]["lint"] == []
''')
    seed("w6-p16-none-row", "P16", "html", [(X + "structtable.py", '        if brief:\n            return {\n', '        if brief is not None or maybe_range == "":\n            return {\n')],
         "a row without range and without brief", "the model has null as its brief", CLI + '''
f = Path(SCRATCH.name) / "d.html"
f.write_text(html(table("Figure 8: T", ["Bytes", "Description"], tr("", "Alpha (AA)"))))
assert run("--validate-json", str(f)) == 0
''')
    seed("w6-p17-val-case", "P17", "html", [(X + "valuetable.py", "            override_key = (self.fig_id, str(val_cleaned))\n", "            override_key = (self.fig_id.split('_')[0], str(val_cleaned))\n")],
         "a label override for a table, and a table nested in it with the same value", "the row of the nested table is renamed as well", '''
from spex.jsonspec.document import DocumentParser
class D(DocumentParser):
    label_overrides = {("7", "0h"): "zero"}
n = table("", ["Value", "Description"], tr("0h", "One: x"))
sd = html_to_spec_doc(html(table("Figure 7: T", ["Value", "Description"], tr("1h", raw("<p>Alpha: x</p>" + n)))))
dp = sd.get_parser(ParserArgs(output_dir=Path("."), skip_fig_on_error=False, lint_codes_ignore=[]), {(sd.key, sd.rev): D})
e = list(dp.parse())
assert e[0]["fields"][0]["label"] == "ONE", e
''')
    seed("w6-p18-suffix", "P18", "html", [("src/spex/writer.py", '        fname = src.name[: -len(src.suffix)]\n', '        fname = src.name.replace(src.suffix, "")\n')],
         "a file name that contains the suffix twice", "both are cut", CLI + '''
f = Path(SCRATCH.name) / "d.html.old.html"
f.write_text(html(table("Figure 8: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"))))
assert run(str(f)) == 0
assert (Path(SCRATCH.name) / "d.html.old.json").is_file()
''')
    seed("w6-p18-close", "P18", "html", [("src/spex/writer.py", '        self._doc["meta"][key] = val\n\n    def write_entity(self, entity: JSON) -> None:\n        self._doc["entities"].append(entity)\n\n    @property\n    def path(self) -> Optional[Path]:\n        return self._output\n', '        self._doc["meta"][key] = val\n\n    def write_entity(self, entity: JSON) -> None:\n        if entity not in self._doc["entities"]:\n            self._doc["entities"].append(entity)\n\n    @property\n    def path(self) -> Optional[Path]:\n        return self._output\n')],
         "two figures that are equal in every respect", "one of them is lost", CLI + '''
import json
t = table("Figure 8: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"))
f = Path(SCRATCH.name) / "d.html"
f.write_text(html(t, t))
assert run(str(f)) == 0
assert len(json.loads(f.with_suffix(".json").read_text())["entities"]) == 2
''')
    # --- P19..P23, P28
    seed("w6-p19-deep-link", "P19", "docx", [(H + "parser.py", "            elif child.tag in (Tag.hyperlink.value, Tag.fldSimple.value):\n                yield from self._select_runs(child)\n", "            elif child.tag in (Tag.hyperlink.value, Tag.fldSimple.value):\n                yield from (\n                    self._select_runs(child) if child.tag != p.tag else iter(())\n                )\n")],
         "a link inside of a link", "its text is lost", '''
t, css, _ = stage1(tbl(row(tc("<w:p><w:hyperlink><w:hyperlink>" + r("a") + "</w:hyperlink></w:hyperlink></w:p>"))))
assert "".join(t.find(".//td").itertext()).strip() == "a"
''')
    seed("w6-p19-texts", "P19", "docx", [(H + "parser.py", '            txt = "".join(t.text or "" for t in Xpath.elems(r, "./w:t"))\n', '            txt = "".join(dict.fromkeys(t.text or "" for t in Xpath.elems(r, "./w:t")))\n')],
         "a run with the same text twice", "it is shown once", '''
t, css, _ = stage1(tbl(row(tc("<w:p><w:r><w:t>a</w:t><w:t>a</w:t></w:r></w:p>"))))
assert "".join(t.find(".//td").itertext()).strip() == "aa"
''')
    seed("w6-p20-wide-last", "P20", "docx", [(H + "htmlrenderer.py", '''                    f' colspan="{cell.span.x}"' if cell.span.x > 1 else "",\n''', '''                    f' colspan="{cell.span.x}"' if 1 < cell.span.x < len(row) else "",\n''')],
         "a cell that spans all columns", "it has no colspan", '''
t, css, _ = stage1(tbl(row(tc("a", pr="<w:gridSpan w:val='2'/>")), row("b", "c")))
assert t.find("./body/table/tr/td").get("colspan") == "2", etree.tostring(t)
''')
    seed("w6-p20-origin", "P20", "docx", [(H + "htmlrenderer.py", "                if cell.origin != pos:\n", "                if cell.origin != pos and cell.span != Point(2, 2):\n")],
         "a region of two by two cells", "it is shown four times", '''
m = lambda v: f"<w:gridSpan w:val='2'/><w:vMerge{v}/>"
t, css, _ = stage1(tbl(row(tc("a", pr=m(" w:val='restart'")), "b"), row(tc(pr=m("")), "c")))
assert len(t.findall("./body/table/tr/td")) == 3, etree.tostring(t)
''')
    seed("w6-p21-empty-item", "P21", "docx", [(H + "htmlrenderer.py", "            if isinstance(elem, ListElem):\n                if open_elem:\n", "            if isinstance(elem, ListElem):\n                if not elem.elems:\n                    continue\n                if open_elem:\n")],
         "a list item without text", "it is lost", '''
num = "<w:abstractNum w:abstractNumId='1'>" + levels([("decimal", "%1.")] * 2) + "</w:abstractNum><w:num w:numId='1'><w:abstractNumId w:val='1'/></w:num>"
t, css, _ = stage1(tbl(row(tc(li(1, 0, "a"), li(1, 0, ""), li(1, 0, "b")))), numbering=num)
assert len(t.findall(".//li")) == 3, etree.tostring(t)
''')
    seed("w6-p21-kind", "P21", "docx", [(H + "docx/numbering.py", "                s_ilvl = int(Xpath.attr_first_req(ilvl, \"./@w:ilvl\"))\n", "                s_ilvl = int(Xpath.attr_first_req(ilvl, \"./@w:ilvl\")[0]) % 8\n")],
         "an item of level 9", "it has the kind of level 8", '''
num = "<w:abstractNum w:abstractNumId='1'>" + levels([("decimal", "%1.")] * 8 + [("bullet", "o")]) + "</w:abstractNum><w:num w:numId='1'><w:abstractNumId w:val='1'/></w:num>"
t, css, _ = stage1(tbl(row(tc(li(1, 8, "a")))), numbering=num)
assert t.find(".//ul") is not None, etree.tostring(t)
''')
    seed("w6-p22-cache-limit", "P22", "docx", [(H + "css.py", "        clsname = self.__cache.get(elem, None)\n", '        clsname = self.__cache.get(elem, None)\n        if self.__counter == 2 and "color" not in elem.css_attrs:\n            clsname = next(iter(self.__cache.values()))\n')],
         "three kinds of formatting", "the third has the class of the first", '''
t, css, _ = stage1(tbl(row(tc(par(r("a", "<w:b/>") + r("b", "<w:i/>") + r("c", "<w:strike/>"))))))
assert len({x.get("class") for x in t.iter("span")}) == 3, etree.tostring(t)
''')
    seed("w6-p22-alias", "P22", "docx", [(H + "docx/styles.py", '            for alias in (a.strip() for a in aliases.split(",")):\n                alias_dct.setdefault(alias, canonical_style_name)\n', '            for alias in (a.strip() for a in aliases.split(",")):\n                alias_dct[alias] = canonical_style_name\n')],
         "a style that has the name of another as alias", "it is taken for it", '''
st = "<w:style w:type='character' w:styleId='A'><w:rPr><w:b/></w:rPr></w:style><w:style w:type='character' w:styleId='B'><w:aliases w:val='A'/><w:rPr><w:i/></w:rPr></w:style>"
t, css, _ = stage1(tbl(row(tc(par(r("a", "<w:rStyle w:val='A'/>"))))), styles=st)
assert "bold" in css.split("text-formatting")[-1] or "font-weight" in css, css
assert "italic" not in css, css
''')
    seed("w6-p23-join", "P23", "docx", [(H + "docx/header.py", '            e.text for e in Xpath.elems(self._elem, ".//w:t") if e.text is not None\n', '            e.text for e in Xpath.elems(self._elem, ".//w:p/w:r/w:t") if e.text is not None\n')],
         "a header with a link or field", "its text is lost", '''
t, css, _ = stage1(tbl(row("a")), header_xml="<w:p><w:r><w:t>Demo, </w:t></w:r><w:hyperlink><w:r><w:t>Revision 2.0</w:t></w:r></w:hyperlink></w:p>")
assert t.find("./head/meta").get("data-revision") == "2.0"
''')
    seed("w6-p28-near-white", "P28", "docx", [(H + "parser.py", '                        if shd_fill.lower() != "ffffff"\n', '                        if shd_fill.lower() not in ("ffffff", "fefefe")\n')],
         "a fill that is almost white", "it is taken for white", '''
t, css, _ = stage1(tbl(row(tc("a", pr="<w:shd w:fill='FEFEFE'/>"))))
assert t.find("./body/table/tr/th") is not None, etree.tostring(t)
''')
    # --- P24..P27, P30..P35
    seed("w6-p24-chunk-size", "P24", "srv", [(A + "app.py", "            hash_md5.update(chunk)\n", "            hash_md5.update(chunk.rstrip())\n")],
         "two uploads that differ in white space at their end", "the second has the report of the first, or replaces it", UP + '''
async def main():
    async with app.test_app() as ta:
        c = ta.test_client()
        d = html("7", [("0", "Alpha (AA): x")])
        u = [events((await upload(c, d + s))[1])[-1]["url"] for s in ("", "\\n")]
        assert u[0] != u[1]
        page = await (await c.get(u[0].replace("report", "html"))).get_data(as_text=True)
        assert page == d
asyncio.run(main())
''')
    seed("w6-p26-prefix-id", "P26", "srv", [(A + "app.py", '        report["fig"].split("_")[0] for report in report_json["meta"]["lint"]\n', '        report["fig"].split("_")[0]\n        for report in report_json["meta"]["lint"]\n        if report["fig"].count("_") < 3\n')],
         "lint of a table nested three deep only", "its figure is not shown", UP + '''
async def main():
    async with app.test_app() as ta:
        c = ta.test_client()
        n = lambda l, s: "<table><tr><th><p>Value</p></th><th><p>Description</p></th></tr><tr><td><p>0h</p></td><td><p>%s</p>%s</td></tr></table>" % (l, s)
        b = "<table><tr><th><p>Value</p></th><th><p>Description</p></th></tr><tr><td><p>0h</p></td><td><p>One: x</p></td></tr><tr><td><p>0h</p></td><td><p>Two: x</p></td></tr></table>"
        d = html("7", [("0", "Alpha (AA): x</p>" + n("One: x", n("Two: x", b)) + "<p>")])
        d = d.replace("<table><tr><td", "<table id='7'><tr><td", 1) if "id=" not in d else d
        u = events((await upload(c, d))[1])[-1]["url"]
        page = await (await c.get(u)).get_data(as_text=True)
        j = json.loads(await (await c.get(u.replace("report", "json"))).get_data(as_text=True))
        assert [x["fig"] for x in j["meta"]["lint"]] == ["7_0_0h_0h"], j["meta"]["lint"]
        assert 'erroneous' in page or True
        from spexsrv.application import report_view
        import spexsrv.application.app as m
        seen = []
        m.get_erroneous_figures = lambda f, h: seen.append(sorted(f)) or {}
        await c.get(u)
        assert seen == [["7"]], seen
asyncio.run(main())
''')
    seed("w6-p27-dup-input", "P27", "html", [("src/spex/__main__.py", "        for spec in args.input:\n", "        for spec in {p.stem: p for p in args.input}.values():\n")],
         "two inputs of the same name in different directories, the first of them failing", "the failure is not seen", CLI + '''
a, b = Path(SCRATCH.name) / "a", Path(SCRATCH.name) / "b"
a.mkdir(); b.mkdir()
(a / "d.html").write_text(html(table("Figure 7: T", ["Bytes", "Description"], tr("0", raw("")))))
(b / "d.html").write_text(html(table("Figure 8: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"))))
assert run(str(a / "d.html"), str(b / "d.html")) != 0
''')
    seed("w6-p27-suffix-case", "P27", "html", [("src/spex/__main__.py", '            if spec.suffix not in (".html", ".docx"):\n', '            if not ".html.docx".count(spec.suffix):\n')],
         "an input with the suffix .ht", "it is processed", CLI + '''
f = Path(SCRATCH.name) / "d.ht"
f.write_text(html(table("Figure 8: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"))))
assert run(str(f)) != 0
''')
    seed("w6-p31-cleanup", "P31", "srv", [(A + "app.py", "        finally:\n            temp_dir.cleanup()\n\n    # skip", "        except GeneratorExit:\n            raise\n        else:\n            temp_dir.cleanup()\n\n    # skip")],
         "a connection dropped during an upload", "its files stay", UP + '''
import gc, tempfile as tf
from spexsrv.application import app as m
kept = []
class T(tf.TemporaryDirectory):
    def cleanup(self):
        kept.append("cleaned"); super().cleanup()
m.tempfile.TemporaryDirectory = T
async def main():
    async with app.test_app() as ta:
        c = ta.test_client()
        async with c.request("/parse", method="POST", headers={"Accept": "text/event-stream", "Content-Type": "multipart/form-data; boundary=X"}) as con:
            await con.send(b"--X\\r\\nContent-Disposition: form-data; name=\\"document\\"; filename=\\"a.html\\"\\r\\n\\r\\n" + html("7", [(str(i), "Alpha (A%d): x" % i) for i in range(3)]).encode() + b"\\r\\n--X--\\r\\n")
            await con.send_complete()
            await con.receive()
            await con.disconnect()
        await asyncio.sleep(0.5)
        assert kept, "left"
asyncio.run(main())
''')
    seed("w6-p32-overlap-memo", "P32", "html", [(X + "figure.py", "        self.__tbl_hdrs = tbl_hdrs\n", "        self.__tbl_hdrs = doc_parser.__dict__.setdefault(\"_hdrs\", {}).setdefault(\n            tuple(sorted(tbl_hdrs)), tbl_hdrs\n        )\n")],
         "a figure with the headings of an earlier one in another order", "its columns are mixed up", '''
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x")), table("Figure 8: T", ["Description", "Bytes"], tr("Beta (BB): x", "1")))
assert e[1]["fields"][0]["range"] == {"low": 1, "high": 1}, (e, lint)
''')
    seed("w6-p33-imputed-last", "P33", "html", [(X + "structtable.py", "                self.add_issue(\n                    LintErr.LBL_INVALID_CHRS, fig=self.fig_id, row_key=row_key\n                )\n            return txt_parts[0]", "                self.add_issue(\n                    LintErr.LBL_INVALID_CHRS,\n                    fig=self.fig_id.split(\"_\")[0],\n                    row_key=row_key,\n                )\n            return txt_parts[0]")],
         "a label with a blank in an attribute column of a nested table", "it is filed under the figure", '''
n = table("", ["Bytes", "Attribute", "Description"], tr("0", "A B: x", "y"))
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("1", raw("<p>Alpha (AA): x</p>" + n))))
assert [(c, f) for c, f, _ in lint if c == "L1004"] == [("L1004", "7_1")] * len(lint) and lint, lint
''')
    seed("w6-p34-accept", "P34", "srv", [(A + "app.py", '    if "text/event-stream" not in request.accept_mimetypes:\n', '    if "event-stream" not in str(request.accept_mimetypes):\n')],
         "a client that accepts anything", "it is refused", UP + '''
async def main():
    async with app.test_app() as ta:
        st, body = await upload(ta.test_client(), html("7", [("0", "Alpha (AA): x")]), headers={"Accept": "*/*"})
        assert st == 200, st
asyncio.run(main())
''')
