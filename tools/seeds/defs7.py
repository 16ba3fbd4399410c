"""Seventh wave of planted bugs."""
from defs4 import A, CLI, H, J, X
from defs5 import UP

LD = "src/spex/log/_log_config.py"
NUM = ('f"<w:abstractNum w:abstractNumId=\\"1\\">{levels([(\'decimal\', \'%1.\'), (\'bullet\', \'o\')])}</w:abstractNum>'
       '<w:abstractNum w:abstractNumId=\\"2\\">{levels([(\'decimal\', \'%1.\'), (\'bullet\', \'o\')])}</w:abstractNum>'
       '<w:num w:numId=\\"1\\"><w:abstractNumId w:val=\\"1\\"/></w:num><w:num w:numId=\\"2\\"><w:abstractNumId w:val=\\"2\\"/></w:num>"')


def define(seed):
    # --- P01, P02
    seed("w7-p01-nested-reversed", "P01", "html", [(X + "structtable.py", "            if low > high:\n", "            if low > high and self.parent_fig_id is None:\n")],
         "a reversed range in a nested table", "it is not reported", '''
t = raw("<p>Alpha (AA): x</p>" + table("", ["Bits", "Description"], tr("3:5", "Beta (BB): x")))
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", t)))
assert [c for c, _, _ in lint] == ["R1002"], lint
''')
    seed("w7-p01-first-line", "P01", "html", [(X + "structtable.py", "        m = RANGE_REGEX.match(value)\n        if not m:", "        m = RANGE_REGEX.match(value.split(\"\\n\")[0])\n        if not m:")],
         "a range cell whose text has a second line", "only the first line is extracted", '''
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("07\\nnote", "Alpha (AA): x")))
assert e[0]["fields"][0]["range"] == "07\\nnote", e
''')
    seed("w7-p02-numeric", "P02", "html", [(X + "structtable.py", '        high, low = range_match.group("low"), range_match.group("high")\n', '        high, low = range_match.group("low"), range_match.group("high")\n        if low.isdigit() and high.isdigit():\n            low, high = str(int(low)), str(int(high))\n')],
         "a plain range with leading zeros in a list", "its zeros are dropped", '''
h = tr(p("One List", "th", colspan=2))
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], h, tr("15:08", "Alpha (AA): x")))
assert e[0]["fields"][0]["range"] == {"low": "08", "high": "15"}, e
''')
    seed("w7-p02-reserved", "P02", "html", [(X + "structtable.py", "                        if is_dynamic_table_mode\n                        else self._parse_range(range_field, range_field)\n", "                        if is_dynamic_table_mode and content_field != RESERVED.title()\n                        else self._parse_range(range_field, range_field)\n")],
         "a row named Reserved in a list", "its formula is kept as text", '''
h = tr(p("One List", "th", colspan=2))
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], h, tr("N+3:N", "Reserved")))
assert e[0]["fields"][0]["range"] == {"low": "N", "high": "N+3"}, e
''')
    # --- P03, P04
    seed("w7-p03-same-start", "P03", "html", [(X + "structtable.py", "                        if prev >= current:\n", '                        if prev_range["high"] >= current != prev_range["low"]:\n')],
         "two fields that start at the same offset", "a gap is reported in place of the overlap", '''
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("7:4", "Alpha (AA): x"), tr("5:4", "Beta (BB): x")))
assert [c for c, _, _ in lint] == ["T1001"], lint
''')
    seed("w7-p03-nested-off", "P03", "html", [(X + "structtable.py", "            prev_range = field_range\n\n        labels = ", "            prev_range = field_range if field_range[\"low\"] != field_range[\"high\"] else prev_range\n\n        labels = ")],
         "a single-offset field between two out of order", "the wrong order goes unseen, or is reported where it is right", '''
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("3:0", "Alpha (AA): x"), tr("9", "Beta (BB): x"), tr("5:4", "Gamma (GG): x")))
assert [c for c, _, _ in lint] == ["T1004"], lint
''')
    seed("w7-p04-ell-clear", "P04", "html", [(X + "valuetable.py", "            if field_label in {RESERVED, ELLIPSIS}:\n                continue\n", "            if field_label in {RESERVED, ELLIPSIS}:\n                if field_label == ELLIPSIS:\n                    labels.clear()\n                continue\n")],
         "a label on both sides of an ellipsis row", "the repetition is not reported", '''
_, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", "Alpha: x"), tr("\\u2026", "\\u2026"), tr("9h", "Alpha: x")))
assert [c for c, _, _ in lint] == ["L1002"], lint
''')
    seed("w7-p04-val-brief", "P04", "html", [(X + "valuetable.py", "            values.add(field_value)\n", "            values.add(field_value)\n            if len(values) > 2:\n                values.discard(fields[0][\"val\"])\n")],
         "the value of the first row again in the fourth or a later one", "the repetition is not reported", '''
_, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], *[tr(v, n + ": x") for v, n in [("0h", "Alpha"), ("1h", "Beta"), ("2h", "Gamma"), ("0h", "Delta")]]))
assert [c for c, _, _ in lint] == ["V1002"], lint
''')
    # --- P05, P06
    seed("w7-p05-digits", "P05", "html", [(X + "helpers.py", "        LABEL_VALIDATION_REGEX.match(lbl) is None\n", "        LABEL_VALIDATION_REGEX.match(lbl) is None\n        and not lbl.isdigit()\n")],
         "a label of digits only", "it is not reported", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", "16: x")))
assert e[0]["fields"][0]["label"] == "16" and [c for c, _, _ in lint] == ["L1004"], (e, lint)
''')
    seed("w7-p05-dots", "P05", "html", [(X + "regular_expressions.py", 'LABEL_VALIDATION_REGEX = compile(r"^[a-zA-Z][\\w]*$")', 'LABEL_VALIDATION_REGEX = compile(r"^[a-zA-Z][\\w.]*$")')],
         "a label with a dot", "it is not reported", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Attribute", "Description"], tr("0", "Al.pha: x", "y")))
assert [c for c, _, _ in lint] == ["L1004"], (e, lint)
''')
    seed("w7-p06-hyphen", "P06", "html", [(X + "helpers.py", '    return "".join(w[0] for w in text.split()).lower()\n', '    return "".join(w[0] for w in sub(r"(?<=\\w)-(?=\\w)", " ", text).split()).lower()\n')],
         "a name with a hyphenated word", "the second part of the word gives an initial of its own", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Multi-path Support: x")))
assert e[0]["fields"][0]["label"] == "ms", e
''')
    seed("w7-p06-acronym-digit", "P06", "html", [(X + "structtable.py", '        elif match.group("acronym") is not None and match.group("acronym") != "":\n', '        elif (match.group("acronym") or "")[:1].isalpha():\n')],
         "an acronym that begins with a digit", "the initials of the name are used", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha Beta (3GP): x")))
assert e[0]["fields"][0]["label"] == "3gp", e
''')
    # --- P07, P08
    seed("w7-p07-key-clean", "P07", "html", [(X + "valuetable.py", "        return XmlUtils.to_text(val_cell).lower()\n", '        return " ".join(XmlUtils.to_text(val_cell).lower().split())\n')],
         "a value with two blanks in a row", "one of them is lost", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h  to 3h", "Alpha: x")))
assert e[0]["fields"][0]["val"] == "0h  to 3h", e
''')
    seed("w7-p07-reserved-case", "P07", "html", [(X + "valuetable.py", "            if text.upper() == RESERVED:\n", "            if text.upper() == RESERVED and text[0].isupper():\n")],
         "a row named reserved in a nested table", "its label is not the placeholder... where the value is not in upper case", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", "reserved"), tr("1h", "reserved")))
assert [f["label"] for f in e[0]["fields"]] == ["RESERVED"] * 2 and lint == [], (e, lint)
''')
    seed("w7-p07-dash-trim", "P07", "html", [(X + "helpers.py", '        rest_of_string = match.group(2).strip("_")\n', '        rest_of_string = match.group(2).strip("_").lstrip("bBhH")\n')],
         "a name with a number followed by a b or h", "the letter is lost", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", "16bit Guard: x")))
assert e[0]["fields"][0]["label"] == "BIT_GUARD_16", e
''')
    seed("w7-p08-stop-blank", "P08", "html", [(X + "helpers.py", '    _brief = brief.split(".", 1)[0]\n', '    _brief = brief.split(". ", 1)[0]\n')],
         "a long description whose first full stop is not followed by a blank", "it is cut at a later one", '''
d = "as of revision 1.0 of the text. " + "x " * 40
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): " + d)))
assert e[0]["fields"][0].get("brief") == "as of revision 1", e
''')
    seed("w7-p08-maxlen-nested", "P08", "html", [(X + "valuetable.py", "        return content_extract_brief(XmlUtils.to_text(content), self.BRIEF_MAXLEN)\n", "        return content_extract_brief(\n            XmlUtils.to_text(content),\n            self.BRIEF_MAXLEN + len(row_key) // 8,\n        )\n")],
         "a row with a long value", "its brief may be longer than 60", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h to 0fh", "Alpha: " + "x" * 61)))
assert "brief" not in e[0]["fields"][0], e
''')
    # --- P09, P10
    seed("w7-p09-empty-row", "P09", "html", [(J + "rowiter.py", "        if not alst and len(row) == 0:\n            continue\n", "        if len(row) == 0:\n            continue\n")],
         "a row all of whose cells span from above", "the cells are seen by a row below too", '''
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr(p("0", rowspan=2), p("Alpha (AA): x", rowspan=2)), "<tr></tr>", tr("1", "Beta (BB): x")))
assert [(f["range"]["low"], f["label"]) for f in e[0]["fields"]][-1] == (1, "bb"), (e, lint)
''')
    seed("w7-p09-span-equal", "P09", "html", [(J + "rowiter.py", "        if ndx < e_ndx:\n", "        if ndx <= e_ndx + 1:\n")],
         "cells in adjacent columns that span rows", "they are re-inserted in the wrong order", '''
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description", "Other"], tr(p("0", rowspan=2), p("Alpha (AA): x", rowspan=2), "c"), tr("d")))
assert [(f["range"]["low"], f["label"]) for f in e[0]["fields"]] == [(0, "aa")] * 2, (e, lint)
''')
    seed("w7-p10-dotted", "P10", "html", [(X + "structtable.py", "        return content.upper() in SPECIAL_CASE_SET or content.lower().startswith(\"note\")\n", "        return content.upper().rstrip(\".\") in SPECIAL_CASE_SET or content.lower().startswith(\"note\")\n")],
         "a row named 'Reserved.'", "it is dropped", '''
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"), tr("1", "Reserved.")))
assert len(e[0]["fields"]) == 2, e
''')
    seed("w7-p10-single-n", "P10", "html", [(X + "structtable.py", '                elif row_txt.startswith("note"):\n', '                elif row_txt.startswith(("note", "not")):\n')],
         "a remark that begins with Not", "the rows below it are lost", '''
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr(p("Not used by hosts", colspan=2)), tr("1", "Beta (BB): x")))
assert len(e[0]["fields"]) == 1, e
''')
    seed("w7-p10-equal-rows", "P10", "html", [(X + "structtable.py", "            fields.append(\n                self._struct_field(maybe_range=range, label=label, brief=brief)\n            )\n", "            field = self._struct_field(maybe_range=range, label=label, brief=brief)\n            if field not in fields[-1:]:\n                fields.append(field)\n")],
         "two equal rows in a row", "one of them is lost", '''
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"), tr("0", "Alpha (AA): x")))
assert len(e[0]["fields"]) == 2, e
''')
    # --- P11..P15
    seed("w7-p11-any-depth", "P11", "html", [(X + "figure.py", '        tbls = Xpath.elems(data, "./table")\n', '        tbls = Xpath.elems(data, ".//table")\n')],
         "a table nested in a nested table", "it is extracted twice", '''
inner = raw("<p>Beta (BB): x</p>" + table("", ["Bits", "Description"], tr("1", "Gamma (GG): x")))
mid = raw("<p>Alpha (AA): x</p>" + table("", ["Bits", "Description"], tr("0", inner)))
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", mid)))
assert [x["fig_id"] for x in e] == ["7_0_0", "7_0", "7"], [x["fig_id"] for x in e]
''')
    seed("w7-p11-reserved-skip", "P11", "html", [(X + "valuetable.py", "            yield from self.extract_data_sub_table(subtbl_ent, row_data)\n", "            if label != RESERVED:\n                yield from self.extract_data_sub_table(subtbl_ent, row_data)\n")],
         "a table nested in a row named Reserved", "it yields no entity", '''
t = raw("<p>Reserved</p>" + table("", ["Bits", "Description"], tr("1", "Gamma (GG): x")))
e, lint, err = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", t)))
assert [x["fig_id"] for x in e] == ["7_0h", "7"], [x["fig_id"] for x in e]
''')
    seed("w7-p12-noid-stop", "P12", "html", [(J + "document.py", "                # see caller - skip figure\n                continue\n", "                # see caller - skip figure\n                if self.num_figures > 2:\n                    return\n")],
         "a figure without number among several", "those behind it are lost", '''
t = lambda c: table(c, ["Bytes", "Description"], tr("0", "Alpha (AA): x"))
e, lint, err = parse(t("Figure 1: T"), t("Figure"), t("Figure 3: T"), t("Figure 4: T"))
assert [x["fig_id"] for x in e] == ["1", "3", "4"], [x["fig_id"] for x in e]
''')
    seed("w7-p13-quirk-quiet", "P13", "html", [(J + "document.py", "                        or self.args.skip_fig_on_error is False\n", "                        or (\n                            self.args.skip_fig_on_error is False\n                            and fig_id not in self.fig_extractor_overrides\n                        )\n")],
         "a failing figure that has an extractor of its own", "the run continues", '''
bad = table("Figure 41: T", ["Bytes", "Description"], tr("0", raw("")))
ok = table("Figure 42: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"))
e, lint, err = parse(bad, ok, skip=False, spec="NVM Express\\u00ae Key Value Command Set Specification", rev="1.0c")
assert err is not None, (e, lint)
''')
    seed("w7-p14-values", "P14", "html", [(X + "valuetable.py", '        if len(tbl_col_hdrs) == 2 and m.value_column == "value":\n', '        if len(tbl_col_hdrs) == 2 and m.value_column is not None:\n')],
         "a table of two columns, one of them called Values", "it is extracted", '''
e, lint, err = parse(table("Figure 7: T", ["Foo", "Values"], tr("0h", "Alpha")))
assert e == [] and [c for c, _, _ in lint] == ["T1007"], (e, lint)
''')
    seed("w7-p14-nested-code", "P14", "html", [(J + "document.py", '            hdr = sub(" +", " ", hdr.replace("\\n", " ").replace("\\r", "")).strip()\n', '            hdr = sub(" +", " ", hdr.replace("\\n", " ").replace("\\r", "")).strip()\n            hdr = hdr.rstrip(":")\n')],
         "a heading with a colon", "it is recognised", '''
e, lint, err = parse(table("Figure 7: T", ["Bytes:", "Description"], tr("0", "Alpha (AA): x")))
assert e == [] and [c for c, _, _ in lint] == ["T1007"], (e, lint)
''')
    seed("w7-p15-nested", "P15", "html", [("src/spex/parse.py", "            if lint_entry.code not in ignore_lint_codes\n", '            if lint_entry.code not in ignore_lint_codes or "_" in lint_entry.fig\n')],
         "a suppressed code in a nested table", "it is listed", CLI + '''
import json
t = raw("<p>Alpha (AA): x</p>" + table("", ["Bits", "Description"], tr("3:5", "Beta (BB): x")))
f = Path("a.html"); f.write_text(html(table("Figure 7: T", ["Bytes", "Description"], tr("0", t))))
assert run("--lint-ignore", "R1002", "a.html") == 0
assert json.loads(Path("a.json").read_text())["meta"]["lint"] == []
''')
    # --- P16..P18
    seed("w7-p16-obsolete-none", "P16", "html", [(X + "structtable.py", '        elif content.upper() == OBSOLETE:\n            return self._struct_field(\n                maybe_range=range,\n                label=OBSOLETE,\n            )\n', '        elif content.upper() == OBSOLETE:\n            return {"range": range, "label": OBSOLETE, "brief": None}  # type: ignore\n')],
         "an obsolete row", "its brief is null", '''
import json
from importlib import resources
from jsonschema import validate
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Obsolete")))
s = json.loads(resources.files("spex.resources").joinpath("stage2.schema.json").read_text())
validate({"meta": {"specification": "a", "revision": "b", "format version": 1, "spex version": "1", "lint": []}, "entities": e}, s)
''')
    seed("w7-p17-mark", "P17", "html", [(J + "parse.py", '        quirks_key = (self.key, self.rev)\n', '        quirks_key = (self.key.replace("express nvm", "express\\u00ae nvm"), self.rev)\n')],
         "a title that lacks the mark", "the quirks of another title apply", '''
t = table("Figure 41: T", ["Bytes", "Field"], tr("0", "Alpha (AA): x"))
e, lint, err = parse(t, spec="NVM Express NVM Command Set Specification", rev="1.0c")
assert e == [] and [c for c, _, _ in lint] == ["T1007"], (e, lint)
''')
    seed("w7-p17-parent", "P17", "html", [(X + "valuetable.py", "            override_key = (self.fig_id, str(val_cleaned))\n", '            override_key = (self.fig_id, str(val_cleaned).strip("()"))\n')],
         "a value in parentheses", "the override for the value applies to it", '''
inner = raw("<p>Alpha (AA): x</p>" + table("", ["Value", "Description"], tr("(00b)", "Foo: x")))
e, lint, err = parse(table("Figure 42: T", ["Bytes", "Description"], tr("4", inner)), spec="NVM Express\\u00ae NVM Command Set Specification", rev="1.0c")
assert e[0]["fig_id"] == "42_4" and e[0]["fields"][0]["label"] == "FOO", (e, lint)
''')
    seed("w7-p18-equal-once", "P18", "html", [("src/spex/writer.py", '        self._doc["entities"].append(entity)\n\n    @property\n    def path(self) -> Optional[Path]:\n        return self._output\n', '        if entity not in self._doc["entities"]:\n            self._doc["entities"].append(entity)\n\n    @property\n    def path(self) -> Optional[Path]:\n        return self._output\n')],
         "two equal figures", "the second is not written", CLI + '''
import json
t = table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"))
Path("a.html").write_text(html(t, t))
assert run("a.html") == 0
assert len(json.loads(Path("a.json").read_text())["entities"]) == 2
''')
    # --- stage 1
    seed("w7-p19-sdt-stop", "P19", "docx", [(H + "parser.py", "            txt = \"\".join(t.text or \"\" for t in Xpath.elems(r, \"./w:t\"))\n", "            txt = \"\".join(dict.fromkeys(t.text or \"\" for t in Xpath.elems(r, \"./w:t\")))\n")],
         "a run with two equal text elements", "one of them is lost", '''
x, _, _ = stage1(tbl(row(tc(par("<w:r><w:t>ab</w:t><w:br/><w:t>ab</w:t></w:r>")))))
assert "".join(x.find(".//td").itertext()).split() == ["abab"], etree.tostring(x)
''')
    seed("w7-p20-span-restart", "P20", "docx", [(H + "docx/tablewrap.py", "                    left_cell.bottom = row_index\n", "                    left_cell.bottom = max(row_index, left_cell.bottom) if row_index < len(matrix) + left_cell.colspan and left_cell.colspan < 3 else left_cell.bottom\n")],
         "a vertically merged cell three columns wide", "it has no rowspan", '''
m = lambda v: f'<w:gridSpan w:val="3"/><w:vMerge{v}/>'
x, _, _ = stage1(tbl(row(tc("a", pr=m(' w:val="restart"')), "b"), row(tc(pr=m("")), "c")))
assert x.find(".//td").get("rowspan") == "2", etree.tostring(x)
''')
    seed("w7-p21-empty-item", "P21", "docx", [(H + "parser.py", "            elem = stream.consume()\n            yield ListElem(elems=list(self._parse_spans(elem)))\n", "            elem = stream.consume()\n            spans = list(self._parse_spans(elem))\n            if spans or ilvl > 0:\n                yield ListElem(elems=spans)\n")],
         "a list item without text that has a nested list", "the nested list is put in the item before", '''
x, _, _ = stage1(tbl(row(tc(li(1, 0, "a"), par(ppr='<w:numPr><w:ilvl w:val="0"/><w:numId w:val="1"/></w:numPr>'), li(1, 1, "c")))), numbering=''' + NUM + ''')
assert len(x.findall(".//td/ol/li")) == 2, etree.tostring(x)
''')
    seed("w7-p21-deeper-other", "P21", "docx", [(H + "parser.py", "            if num_doc.get_style(num_id).abstract_num_id != abstract_num_id:\n                # different list\n                break\n\n            child_ilvl = self.__p_ilvl(child)\n", "            child_ilvl = self.__p_ilvl(child)\n            if (\n                num_doc.get_style(num_id).abstract_num_id != abstract_num_id\n                and child_ilvl <= ilvl\n            ):\n                # different list\n                break\n\n")],
         "a list directly behind another one that begins on a deeper level", "it is nested in the other", '''
x, _, _ = stage1(tbl(row(tc(li(1, 0, "a"), li(2, 1, "b")))), numbering=''' + NUM + ''')
assert [c.tag for c in x.find(".//td")] == ["ol", "ul"], etree.tostring(x)
''')
    seed("w7-p22-baseline", "P22", "docx", [(H + "docx/runproperties.py", "        if other.__vert_align is not None:\n            c.__vert_align = other.__vert_align\n", "        if other.vert_align != VertAlign.baseline:\n            c.__vert_align = other.__vert_align\n")],
         "a run on the baseline with a raised style", "it stays raised", '''
x, css, _ = stage1(tbl(row(tc(par(r("a", '<w:rStyle w:val="S"/><w:vertAlign w:val="baseline"/>'))))), styles='<w:style w:type="character" w:styleId="S"><w:rPr><w:vertAlign w:val="superscript"/></w:rPr></w:style>')
assert "super" not in css, css
''')
    seed("w7-p22-single", "P22", "docx", [(H + "docx/runproperties.py", '            return r2 != "none"\n', '            return r2 in ("single", "double", "words", "thick", "dash", "wave")\n')],
         "a dotted underline", "it is lost", '''
x, css, _ = stage1(tbl(row(tc(par(r("a", '<w:u w:val="dotted"/>'))))))
assert "underline" in css, css
''')
    seed("w7-p23-casefold", "P23", "html", [(J + "parse.py", '    doc_spec = Xpath.attr_first_req(doc, "./head/meta/@data-spec").lower()\n', '    doc_spec = Xpath.attr_first_req(doc, "./head/meta/@data-spec").casefold()\n')],
         "a title with a character that has a folding other than its lower case", "it is another one in the model", '''
from spex.jsonspec.parse import html_to_spec_doc
assert html_to_spec_doc(html(spec="Gro\\u00df")).key == "gro\\u00df"
''')
    seed("w7-p23-second-comma", "P23", "docx", [(H + "docx/header.py", '        self._title = self._header.split(",")[0].strip()\n', '        self._title = self._header.split(", ")[0].strip()\n')],
         "a header without a blank behind the comma", "the title is all of it", '''
x, _, _ = stage1(header="Demo,Revision 1.0")
assert x.find(".//meta").get("data-spec") == "Demo", etree.tostring(x)
''')
    # --- server
    seed("w7-p24-head", "P24", "srv", [(A + "app.py", "            hash_md5.update(chunk)\n", "            hash_md5.update(chunk)\n            if fh.tell() >= 65536:\n                break\n")],
         "two uploads that are equal up to 64 KiB", "they share a report", UP + '''
async def main():
    async with app.test_app():
        c = app.test_client()
        pad = "<!-- " + "x" * 70000 + " -->"
        a, b = (html("7", [("0", n + " (AA): x")]).replace("<body>", "<body>" + pad) for n in ("Alpha", "Beta"))
        ua = url_of(events((await upload(c, a))[1]))
        ub = url_of(events((await upload(c, b))[1]))
        assert ua != ub
asyncio.run(main())
''')
    seed("w7-p26-nested-table", "P26", "srv", [(A + "report_view.py", '        for table in Xpath.elems(doc, "./body/table"):\n', '        for table in Xpath.elems(doc, ".//table"):\n')],
         "lint of a figure whose number is the id of a nested table of an earlier figure", "the nested table is shown", '''
from spexsrv.application.report_view import get_erroneous_figures
f = Path("x.html")
f.write_text("<html><body><table id='7'><tr><td><table id='8'><tr><td>inner</td></tr></table></td></tr></table><table id='8'><tr><td>outer</td></tr></table></body></html>")
assert "outer" in get_erroneous_figures(["8"], f)["8"]
''')
    seed("w7-p27-skip-zero", "P27", "html", [("src/spex/__main__.py", "            traceback.print_exc()\n        sys.exit(1)\n", "            traceback.print_exc()\n        sys.exit(0 if pargs.skip_fig_on_error and pargs.validate_json else 1)\n")],
         "an input that cannot be read, with -s and --validate-json", "the status is 0", CLI + '''
Path("a.html").write_text("<html")
assert run("-s", "--validate-json", "a.html") != 0
''')
    seed("w7-p28-four-digits", "P28", "docx", [(X + "regular_expressions.py", 'TABLE_ID_REGEX = compile(r"^Figure (?P<id>\\d+):.*")', 'TABLE_ID_REGEX = compile(r"^Figure (?P<id>\\d{1,3}):.*")')],
         "a figure number of four digits", "the table has no id", '''
x, _, _ = stage1(tbl(row(tc("Figure 1234: T"))))
assert x.find(".//table").get("id") == "1234", etree.tostring(x)
''')
    seed("w7-p28-mixed-case", "P28", "docx", [(H + "parser.py", "                    and len({shd_fill[i : i + 2].lower() for i in (0, 2, 4)}) == 1\n", "                    and len({shd_fill[i : i + 2] for i in (0, 2, 4)}) == 1\n")],
         "a grey tone in mixed case", "the cell is a data cell", '''
x, _, _ = stage1(tbl(row(tc("a", pr='<w:shd w:fill="aAAAAa"/>'))))
assert x.find(".//th") is not None, etree.tostring(x)
''')
    seed("w7-p29-trail", "P29", "docx", [(H + "parser.py", "            r_rpr = self._document.extract_r_rpr(r)\n            yield Span(style=r_rpr, text=txt)\n", "            r_rpr = self._document.extract_r_rpr(r)\n            if txt.endswith(\"  \"):\n                txt = txt.rstrip() + \" \"\n            yield Span(style=r_rpr, text=txt)\n")],
         "a run that ends in two blanks", "one is lost, depending on where the text is split", '''
x, _, _ = stage1(tbl(row(tc(par("a  ", "b")))))
assert "a  b" in "".join(x.find(".//td").itertext()), etree.tostring(x)
''')
    # --- P30..P35
    seed("w7-p30-first-line", "P30", "html", [(LD, '            "msg": record["message"],\n', '            "msg": record["message"].partition("\\n")[0],\n')],
         "a message of several lines", "only the first is logged", '''
import json, gc
from spex.log import logger
import spex.log._log_config as lc
with contextlib.redirect_stderr(io.StringIO()):
    logger.error("a\\nb")
logger.remove()
gc.collect()
ls = [json.loads(l) for l in lc.SPEX_LOG_PATH.read_text().splitlines()]
assert ls[-1]["msg"] == "a\\nb", ls
''')
    seed("w7-p31-args", "P31", "srv", [(A + "app.py", "    pargs = ParserArgs(\n", "    pargs = app.config[\"PARGS\"] = ParserArgs(\n"), (A + "app.py", "            gen = parse_spec(destination, pargs, yield_progress=True)\n", "            gen = parse_spec(destination, app.config[\"PARGS\"], yield_progress=True)\n")],
         "two uploads at the same time", "the model of one is written to the folder of the other", UP + '''
async def main():
    async with app.test_app():
        c = app.test_client()
        docs = [html("7", [("0", n + " (AA): x")]) for n in ("Alpha", "Beta", "Gamma")]
        gens = []
        async with app.test_request_context("/"):
            pass
        for k in range(6):
            rs = await asyncio.gather(*(upload(c, d) for d in docs))
            for d, (s, body) in zip(docs, rs):
                evs = events(body)
                assert evs and evs[-1]["type"] == "report-completed", evs
asyncio.run(main())
''')
    seed("w7-p32-lint-shared", "P32", "html", [(J + "document.py", "    def __init__(self) -> None:\n        self._lint_issues: List[LintEntry] = []\n", "    _lint_issues: List[LintEntry] = []\n\n    def __init__(self) -> None:\n        pass\n")],
         "two documents in the same run", "the second has the lint of the first", '''
t = table("Figure 7: T", ["Bytes", "Description"], tr("3:5", "Alpha (AA): x"))
assert len(parse(t)[1]) == 1 and len(parse(t)[1]) == 1
''')
    seed("w7-p32-remember-cls", "P32", "html", [(J + "document.py", "                if mapping is not None:\n                    extractor_cls = ecls\n                    break\n", "                if mapping is not None:\n                    extractor_cls = ecls\n                    if \"parent_fig_id\" not in entity:\n                        self.fig_extractor_overrides[fig_id] = ecls\n                    break\n")],
         "figures of the same number but other columns in two documents of the same run", "the second fails", '''
a = table("Figure 7: T", ["Bytes", "Description"], tr("3", "Alpha (AA): x"))
b = table("Figure 7: T", ["Value", "Description"], tr("3h", "Alpha: x"))
parse(a)
e, lint, err = parse(b)
assert len(e) == 1 and lint == [], (e, lint)
''')
    seed("w7-p33-hdr-parent", "P33", "html", [(J + "document.py", '                self.linter.add_issue(\n                    LintErr.TBL_HDR_ERR,\n                    fig_id,\n', '                self.linter.add_issue(\n                    LintErr.TBL_HDR_ERR,\n                    fig_id.rsplit("_", 1)[0] if fig_id.count("_") > 1 else fig_id,\n')],
         "a non-standard heading of a table nested two deep", "it is filed under the table around it", '''
inner = raw("<p>Beta (BB): x</p>" + table("", ["Bit", "Description"], tr("1", "Gamma (GG): x")))
mid = raw("<p>Alpha (AA): x</p>" + table("", ["Bits", "Description"], tr("0", inner)))
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", mid)))
assert lint == [("T1006", "7_0_0", None)], lint
''')
    seed("w7-p34-shortcut", "P34", "srv", [(A + "app.py", "            gen = parse_spec(destination, pargs, yield_progress=True)\n            try:\n                while True:\n", "            gen = parse_spec(destination, pargs, yield_progress=True)\n            if hash in app.config[SPEX_CACHE_LOOKUP]:\n                yield json_to_sse({\"type\": \"report-completed\", \"url\": report_url})\n                return\n            try:\n                while True:\n")],
         "a document uploaded again", "there are no progress updates", UP + '''
async def main():
    async with app.test_app():
        c = app.test_client()
        d = html("7", [("0", "Alpha (AA): x")])
        a = events((await upload(c, d))[1])
        assert events((await upload(c, d))[1]) == a and len(a) == 2, a
asyncio.run(main())
''')
    seed("w7-p34-count-failed", "P34", "srv", [("src/spex/parse.py", '                yield ("json", fig_ndx, num_figures)\n', '                yield ("json", fig_ndx, len(dparser._figures()) + fig_ndx // 2)\n')],
         "a document with three figures", "the number of figures changes", UP + '''
async def main():
    async with app.test_app():
        c = app.test_client()
        d = html("7", [("0", "Alpha (AA): x")])
        t = d[d.index("<table"):d.index("</body>")]
        a = events((await upload(c, d.replace(t, t * 3)))[1])
        assert len({e["num_figs"] for e in a[:-1]}) == 1, a
asyncio.run(main())
''')
