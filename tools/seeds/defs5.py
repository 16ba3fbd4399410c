"""Fifth wave of planted bugs."""
from defs4 import A, CLI, H, J, X

UP = '''
async def upload(c, data, name="a.html", headers=None):
    rv = await c.post("/parse", files={"document": FileStorage(io.BytesIO(data.encode()), filename=name)},
                      headers=headers or {"Accept": "text/event-stream"})
    return rv.status_code, (await rv.get_data()).decode()
def events(body):
    parts = body.split("\\n\\n")
    assert parts[-1] == "", body
    assert all(x.startswith("data: ") for x in parts[:-1]), body
    return [json.loads(x[6:]) for x in parts[:-1]]
'''


def define(seed):
    # --- P01..P10
    seed("w5-p01-octal", "P01", "html", [(X + "structtable.py", "            low = int(_low) if _low is not None else high\n", "            low = int(_low, 0) if _low is not None else high\n")],
         "a lower bound with leading zeros", "the row fails", '''
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("15:08", "Alpha (AA): x")))
assert e and e[0]["fields"][0]["range"] == {"low": 8, "high": 15}, (e, lint)
''')
    seed("w5-p01-textual", "P01", "html", [(X + "structtable.py", "            if low > high:\n", '            if _low is not None and (len(_low), _low) > (len(m.group("high")), m.group("high")):\n')],
         "a lower bound that is longer only because of leading zeros", "R1002 is reported", '''
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("9:008", "Alpha (AA): x")))
assert "R1002" not in [c for c, _, _ in lint], lint
''')
    seed("w5-p01-newline", "P01", "html", [(X + "regular_expressions.py", r'''RANGE_REGEX = compile(r"(?P<high>\d+)\s*(:\s*(?P<low>\d+)\s*)?\Z")''', r'''RANGE_REGEX = compile(r"(?P<high>\d+) *(: *(?P<low>\d+) *)?\Z")''')],
         "a range pair broken over two lines", "it is reported as text", '''
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("15:\\n08", "Alpha (AA): x")))
assert e[0]["fields"][0]["range"] == {"low": 8, "high": 15}, (e, lint)
''')
    seed("w5-p02-section-off", "P02", "html", [(X + "structtable.py", '''                    if "List" in colspan and not is_dynamic_table_mode:
                        is_dynamic_table_mode = True
''', '''                    is_dynamic_table_mode = "List" in colspan
''')],
         "a second section header behind the one of the list", "the ranges behind it are read as plain ones", '''
t = table("Figure 7: T", ["Bytes", "Description"], tr(p("Descriptor List", "th", colspan=2)), tr("N+1:N", "Alpha (AA): x"), tr(p("More", "th", colspan=2)), tr("M+1:M", "Beta (BB): x"))
e, lint, _ = parse(t)
assert e[0]["fields"][1]["range"] == {"low": "M", "high": "M+1"}, e
''')
    seed("w5-p02-case", "P02", "html", [(X + "structtable.py", '        return {"low": low, "high": high}\n\n    @staticmethod', '        return {"low": high if low.lower() == high.lower() else low, "high": high}\n\n    @staticmethod')],
         "bounds that differ in case only", "the lower one is replaced", '''
t = table("Figure 7: T", ["Bytes", "Description"], tr(p("Descriptor List", "th", colspan=2)), tr("n:N", "Alpha (AA): x"))
e, lint, _ = parse(t)
assert e[0]["fields"][0]["range"] == {"low": "N", "high": "n"}, e
''')
    seed("w5-p02-key", "P02", "html", [(X + "structtable.py", '        range_match = DYNAMIC_RANGE_REGEX.match("".join(field_range.split()))\n', '        range_match = DYNAMIC_RANGE_REGEX.match(field_range.replace(" ", ""))\n'), (X + "structtable.py", '        high, low = range_match.group("low"), range_match.group("high")\n', '        high, low = (s.strip() for s in range_match.group("low", "high"))\n')],
         "a formula with a line break in it", "the bound keeps the line break", '''
t = table("Figure 7: T", ["Bytes", "Description"], tr(p("Descriptor List", "th", colspan=2)), tr("N*\\n16+1:N", "Alpha (AA): x"))
e, lint, _ = parse(t)
assert e[0]["fields"][0]["range"] == {"low": "N", "high": "N*16+1"}, e
''')
    seed("w5-p03-contained", "P03", "html",
         [(X + "structtable.py", """                            self.add_issue(
                                LintErr.TBL_FIELD_OVERLAP,
                                row_key=self._range_to_row_key(field_range),
                            )
""", """                            self.add_issue(
                                LintErr.TBL_FIELD_OVERLAP,
                                row_key=self._range_to_row_key(field_range),
                            )
                            if prev_range["high"] > field_range["high"]:
                                continue
""")],
         "a field inside the one before it, and one behind", "the third is compared with the first", '''
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("9:0", "Alpha (AA): x"), tr("3:2", "Beta (BB): x"), tr("10", "Gamma (GG): x")))
assert ("T1002", "7", "10") in lint, lint
''')
    seed("w5-p03-text-label", "P03", "html", [(X + "structtable.py", '            if field_label == "…":\n                prev_range = None\n                continue\n', '            if field_label in ("…", RESERVED) and "brief" not in field:\n                prev_range = None\n                continue\n')],
         "a gap behind a reserved field", "it is not reported", '''
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"), tr("1", "Reserved"), tr("4", "Gamma (GG): x")))
assert ("T1002", "7", "4") in lint, lint
''')
    seed("w5-p04-third", "P04", "html", [(X + "valuetable.py", """                self.add_issue(
                    LintErr.VAL_DUPLICATE, row_key=self._val_to_rowkey(field_value)
                )
            values.add(field_value)""", """                self.add_issue(
                    LintErr.VAL_DUPLICATE, row_key=self._val_to_rowkey(field_value)
                )
                values.discard(field_value)
                continue
            values.add(field_value)""")],
         "a value that occurs three times", "the third is not reported", '''
_, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", "Alpha: x"), tr("0h", "Beta: x"), tr("0h", "Gamma: x")))
assert [c for c, _, _ in lint].count("V1002") == 2, lint
''')
    seed("w5-p04-obsolete", "P04", "html", [(X + "valuetable.py", "            if field_label in {RESERVED, ELLIPSIS}:\n                continue\n\n            if field_label in labels:", '            if field_label in {RESERVED, ELLIPSIS} or field_value.startswith("…"):\n                continue\n\n            if field_label in labels:')],
         "a repeated value that starts with an ellipsis", "nothing is reported", '''
_, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("…fh", "Alpha: x"), tr("…fh", "Beta: x")))
assert "V1002" in [c for c, _, _ in lint], lint
''')
    seed("w5-p05-reserved-prefix", "P05", "html", [(X + "helpers.py", "    if (\n        LABEL_VALIDATION_REGEX.match(lbl) is None\n", "    if (\n        LABEL_VALIDATION_REGEX.match(lbl.lstrip(\"_\")) is None\n")],
         "a label that starts with an underscore", "it is not reported", '''
_, lint, _ = parse(table("Figure 7: T", ["Bytes", "Attribute", "Description"], tr("0", "_a: x", "y")))
assert ("L1004", "7", "0") in lint, lint
''')
    seed("w5-p06-nbsp", "P06", "html", [(X + "helpers.py", '    return "".join(w[0] for w in text.split()).lower()', '    return "".join(w[0] for w in text.strip().replace("\\n", " ").split(" ") if w).lower()')],
         "words separated by a no-break blank", "the second word has no initial", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha\\u00a0Beta: x")))
assert e[0]["fields"][0]["label"] == "ab", e
''')
    seed("w5-p06-colon-last", "P06", "html", [(X + "structtable.py", '        txt_parts = label.split(":", 1)\n        if len(txt_parts) == 1:\n            # no explicit', '        txt_parts = label.rsplit(":", 1)\n        if len(txt_parts) == 1:\n            # no explicit')],
         "an attribute with two colons", "the label reaches to the second", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Attribute", "Description"], tr("0", "AA:BB: x", "y")))
assert e[0]["fields"][0]["label"] == "aa", e
''')
    seed("w5-p07-casefold", "P07", "html", [(X + "valuetable.py", "        return XmlUtils.to_text(val_cell).lower()\n", "        return XmlUtils.to_text(val_cell).casefold()\n")],
         "a value with a sharp s", "it is spelled differently", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("\\u00df", "Alpha: x")))
assert e[0]["fields"][0]["val"] == "\\u00df", e
''')
    seed("w5-p07-upper-order", "P07", "html", [(X + "helpers.py", "        num = match.group(1)\n", "        num = str(int(match.group(1)))\n")],
         "a name whose leading number has leading zeros", "they are lost", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", "00 Alpha: x")))
assert e[0]["fields"][0]["label"] == "ALPHA_00", e
''')
    seed("w5-p07-notes-any", "P07", "html", [(X + "valuetable.py", '                elif row_txt.startswith("notes:"):\n', '                elif row_txt.startswith("note"):\n')],
         "a full-width row that starts with the word Noted, and rows behind it", "the rows behind it are lost", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr(p("0h", rowspan=1), "Alpha: x"), tr(p("Noteworthy: the following", colspan=2)), tr("1h", "Beta: x")))
assert [f["label"] for f in e[0]["fields"]][-1] == "BETA", e
''')
    seed("w5-p08-bytes", "P08", "html", [(X + "helpers.py", "    if len(brief) <= brief_maxlen:\n", '    if len(brief.encode("utf-8")) <= brief_maxlen:\n')],
         "a brief of at most 60 characters with more than 60 bytes", "it is cut", '''
b = "\\u00e9" * 40 + ". more"
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): " + b)))
assert e[0]["fields"][0]["brief"] == b, e
''')
    seed("w5-p08-one-stop", "P08", "html", [(X + "helpers.py", '    brief = match.group("brief").rstrip(".").lstrip(" ")', '    brief = match.group("brief").removesuffix(".").lstrip(" ")')],
         "a brief that ends in several full stops", "all but one remain", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): see...")))
assert e[0]["fields"][0]["brief"] == "see", e
''')
    seed("w5-p08-first-line", "P08", "html", [(X + "helpers.py", '    _brief = brief.split(".", 1)[0]\n', '    _brief = brief.splitlines()[0].split(".", 1)[0]\n')],
         "a long description whose first sentence has a line break", "the brief ends at the line break", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): one\\ntwo. " + "y" * 60)))
assert e[0]["fields"][0].get("brief") == "one\\ntwo", e
''')
    seed("w5-p09-one-insert", "P09", "html", [(J + "rowiter.py", "        while elem_off is not None and elem_off == col_off:\n", "        if elem_off is not None and elem_off == col_off:\n")],
         "two neighbouring cells that span rows, before the cell of the row", "the second lands behind it", '''
t = table("Figure 7: T", ["Bytes", "Kind", "Description"],
          "<tr><td rowspan='2'><p>0</p></td><td rowspan='2'><p>k</p></td><td><p>Alpha (AA): x</p></td></tr>",
          "<tr><td><p>Beta (BB): x</p></td></tr>")
e, lint, _ = parse(t)
assert [f["label"] for f in e[0]["fields"]] == ["aa", "bb"], e
''')
    seed("w5-p09-insert-order", "P09", "html", [(J + "rowiter.py", "    for iter_ndx, (e_ndx, _) in enumerate(alst):\n        if ndx < e_ndx:\n            alst.insert(iter_ndx, entry)\n            return\n    alst.append(entry)", "    if alst and ndx < alst[0][0]:\n        alst.insert(0, entry)\n        return\n    alst.append(entry)")],
         "spans that start in different rows, the later one between two others", "the cells are re-inserted in the wrong order", '''
t = table("Figure 7: T", ["Bytes", "Kind", "Description"],
          "<tr><td rowspan='3'><p>0</p></td><td><p>k</p></td><td rowspan='3'><p>Alpha (AA): x</p></td></tr>",
          "<tr><td rowspan='2'><p>l</p></td></tr>", "<tr></tr>")
e, lint, err = parse(t)
assert [f["label"] for f in e[0]["fields"]] == ["aa", "aa", "aa"], (e, lint)
''')
    seed("w5-p10-obsolete-range", "P10", "html", [(X + "structtable.py", """            if (
                self.is_special_case(range_field)
                or self.is_special_case(label_field)""", """            if label_field.upper() == OBSOLETE and fields:
                fields[-1] = {**fields[-1]}
                if fields[-1]["label"] == OBSOLETE:
                    continue
            if (
                self.is_special_case(range_field)
                or self.is_special_case(label_field)""")],
         "two obsolete rows in a row", "the second is dropped", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Obsolete"), tr("1", "Obsolete")))
assert len(e[0]["fields"]) == 2, e
''')
    seed("w5-p10-note-mid", "P10", "html", [(X + "structtable.py", '''                elif row_txt.startswith("note"):
                    break
''', '''                elif row_txt.startswith("note"):
                    if len(fields) == 0:
                        continue
                    break
''')],
         "a note row before the first data row", "the rows behind it are emitted", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr(p("Note: x", colspan=2)), tr("1", "Alpha (AA): x")))
assert e[0]["fields"] == [], e
''')
    # --- P11..P20
    seed("w5-p11-root-parent", "P11", "html", [(X + "structtable.py", '                "parent_fig_id": self.fig_id,\n', '                "parent_fig_id": self.parent_fig_id or self.fig_id,\n')],
         "tables nested two deep", "the inner one names the figure as parent", '''
inner = table("", ["Value", "Description"], tr("0h", "Zero"))
mid = table("", ["Bits", "Description"], tr("3:0", raw("<p>Beta (BB): x</p>" + inner)))
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", raw("<p>Alpha (AA): x</p>" + mid))))
assert e[0]["parent_fig_id"] == "7_0", e
''')
    seed("w5-p11-key-text", "P11", "html", [(X + "valuetable.py", '                "fig_id": f"""{self.fig_id}_{str(val_cleaned)}""",\n', '                "fig_id": f"""{self.fig_id}_{str(val_cleaned).split()[0]}""",\n')],
         "a nested table in a row whose value has two words", "its id names the first only", '''
inner = table("", ["Bits", "Description"], tr("0", "Beta (BB): x"))
e, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h to 3h", raw("<p>Alpha: x</p>" + inner))))
assert [x["fig_id"] for x in e] == ["7_0h to 3h", "7"], e
''')
    seed("w5-p12-same-id", "P12", "html", [(J + "document.py", '''        for entity, tbl in self.iter_figures():
''', '''        for entity, tbl in {str(e): (e, t) for e, t in self.iter_figures()}.values():
''')],
         "two figures in a row with the same caption", "the second is lost", '''
t = lambda n: table("Figure 7: T", ["Bytes", "Description"], tr(str(n), "Alpha (AA): x"))
e, lint, _ = parse(t(0), t(1))
assert len(e) == 2, e
''')
    seed("w5-p12-unwind-twice", "P12", "html", [(J + "document.py", '''        self._unwind_parse_error = False
        fig_id = entity["fig_id"]
''', '''        if "parent_fig_id" not in entity and "title" not in entity:
            self._unwind_parse_error = False
        fig_id = entity["fig_id"]
''')],
         "two failing figures", "the second is not reported", '''
bad = lambda n: table(f"Figure {n}: T", ["Bytes", "Description"], tr("0", raw("")))
e, lint, _ = parse(bad(7), bad(8))
assert [f for c, f, _ in lint if c == "T1000"] == ["7", "8"], lint
''')
    seed("w5-p13-ignored", "P13", "html", [(J + "document.py", "                        or self.args.skip_fig_on_error is False\n", "                        or not (self.args.skip_fig_on_error or LintErr.TBL_PARSE_ERR.value in self.args.lint_codes_ignore)\n")],
         "a failing figure and --lint-ignore T1000 without --skip-figure-on-error", "the run continues", CLI + '''
bad = table("Figure 7: T", ["Bytes", "Description"], tr("0", raw("")), )
f = Path(SCRATCH.name) / "d.html"
f.write_text(html(bad, table("Figure 8: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"))))
assert run("--lint-ignore", "T1000", str(f)) != 0
''')
    seed("w5-p13-nested", "P13", "html", [(J + "document.py", '''                    if (
                        "parent_fig_id" in entity
                        or self.args.skip_fig_on_error is False
                    ):
                        raise err
''', '''                    if (
                        "parent_fig_id" in entity
                        or self.args.skip_fig_on_error is False
                    ):
                        if "parent_fig_id" in entity and "parent_fig_id" in self._last:
                            break
                        self._last = entity
                        raise err
'''), (J + "document.py", "        self._unwind_parse_error = False\n        self.__fig_id_missing_counter = 0\n", "        self._unwind_parse_error = False\n        self._last: EntityMeta = {\"fig_id\": \"\"}\n        self.__fig_id_missing_counter = 0\n")],
         "a table nested two deep that fails", "the run continues without its parent failing", '''
inner = table("", ["Bits", "Description"], tr("0", raw("")))
mid = table("", ["Bits", "Description"], tr("3:0", raw("<p>Beta (BB): x</p>" + inner)))
e, lint, err = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", raw("<p>Alpha (AA): x</p>" + mid))), skip=False)
assert err is not None and e == [], (e, lint)
''')
    seed("w5-p14-tab", "P14", "html", [(J + "document.py", '''            hdr = sub(" +", " ", hdr.replace("\\n", " ").replace("\\r", "")).strip()
''', '''            hdr = sub(" +", " ", hdr.replace("\\n", "").replace("\\r", "")).strip()
''')],
         "a heading of two words broken over two lines", "the words are joined", '''
e, lint, _ = parse(table("Figure 7: T", ["Value", "Power\\nScope", "Other"], tr("0h", "Alpha: x", "y")))
assert len(e) == 1, lint
''')
    seed("w5-p14-last-column", "P14", "html", [(X + "figure.py", "            ndxs.setdefault(hdr, col_off)\n", "            if hdr:\n                ndxs[hdr] = col_off\n")],
         "two columns with the same heading", "cells are read from the second", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description", "Description"], tr("0", "Alpha (AA): x", "Beta (BB): x")))
assert e[0]["fields"][0]["label"] == "aa", e
''')
    seed("w5-p15-family", "P15", "html", [("src/spex/parse.py", "    ignore_lint_codes: Set[str] = set(c.name for c in args.lint_codes_ignore)\n", "    ignore_lint_codes: Set[str] = set(c.name[1:] for c in args.lint_codes_ignore)\n"), ("src/spex/parse.py", "            if lint_entry.code not in ignore_lint_codes\n", "            if lint_entry.code[1:] not in ignore_lint_codes\n")],
         "an ignored code whose number another family uses too", "the other code is suppressed as well", CLI + '''
import json
f = Path(SCRATCH.name) / "d.html"
f.write_text(html(table("Figure 8: T", ["Bytes", "Description"], tr("0:8", "Alpha (AA): x"))))
o = Path(SCRATCH.name) / "o"
run("--lint-ignore", "V1002", "-o", str(o), str(f))
assert [x["code"] for x in json.loads((o / "d.json").read_text())["meta"]["lint"]] == ["R1002"]
''')
    seed("w5-p16-row-int", "P16", "html", [(J + "lint.py", '            ret["row"] = self.row\n', '            ret["row"] = int(self.row) if self.row == "0" else self.row\n')],
         "a finding for row 0", "the row is a number", CLI + '''
f = Path(SCRATCH.name) / "d.html"
f.write_text(html(table("Figure 8: T", ["Bytes", "Attribute", "Description"], tr("0", "Alpha", "x"))))
assert run("--validate-json", str(f)) == 0
''')
    seed("w5-p16-empty-ctx", "P16", "html", [(J + "lint.py", '            "context": self.ctx,\n        }\n', '        }\n        if self.ctx or self.row is None:\n            ret["context"] = self.ctx\n')],
         "a row finding without context", "the entry has no context", '''
args = ParserArgs(output_dir=Path(SCRATCH.name), skip_fig_on_error=True)
d = html_to_spec_doc(html(table("Figure 8: T", ["Bytes", "Attribute", "Description"], tr("0", "Alpha", "x"))))
dp = d.get_parser(args)
list(dp.parse())
assert all("context" in x.to_json() for x in dp.linter.lint_entries())
''')
    seed("w5-p17-rev-prefix", "P17", "html", [(J + "parse.py", "        dp = quirks_map.get(quirks_key, DocumentParser)(\n", "        dp = quirks_map.get(\n            quirks_key,\n            quirks_map.get((self.key, self.rev.rstrip(\"abc\")), DocumentParser),\n        )(\n")],
         "a later letter revision of a document with quirks", "the quirks of the base revision are applied", '''
from spex.jsonspec.document import DocumentParser
d = html_to_spec_doc(html(spec="NVM Express® Key Value Command Set Specification", rev="1.0b"))
assert type(d.get_parser(ParserArgs(output_dir=Path(SCRATCH.name)))) is DocumentParser
''')
    seed("w5-p18-latin", "P18", "html", [("src/spex/writer.py", "                json.dump(self._doc, self._dst, indent=2, ensure_ascii=False)\n", "                txt = json.dumps(self._doc, indent=2, ensure_ascii=False)\n                self._dst.write(\"\\n\".join(s.rstrip() for s in txt.splitlines()))\n")],
         "a text with a line separator character", "the file breaks or loses the character", CLI + '''
import json
f = Path(SCRATCH.name) / "d.html"
f.write_text(html(table("Figure 8: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x\\u2028y"))))
o = Path(SCRATCH.name) / "o"
run("-o", str(o), str(f))
assert json.loads((o / "d.json").read_text())["entities"][0]["fields"][0]["brief"] == "x\\u2028y"
''')
    seed("w5-p19-blank-run", "P19", "docx", [(H + "parser.py", '            if txt == "":\n                continue\n', '            if txt.strip() == "":\n                txt = " "\n            if len(r) == 0:\n                continue\n')],
         "a run of several blanks", "one blank remains", '''
t, css, _ = stage1(tbl(row(tc(par(r("a"), r("   "), r("b"))))))
assert "".join(x.text for x in t.iter("span")) == "a   b"
''')
    seed("w5-p19-quote-amp", "P19", "docx", [(H + "htmlrenderer.py", 's.emit(f"<span>{txt}</span>")', 's.emit("<span>" + txt.replace("&amp;#", "&#") + "</span>")')],
         "a text that looks like a character reference", "it becomes the character", '''
t, css, _ = stage1(tbl(row(tc(par("a&amp;#65;b")))))
assert "".join(x.text for x in t.iter("span")) == "a&#65;b"
''')
    seed("w5-p20-restart-again", "P20", "docx", [(H + "docx/tablewrap.py", '''                assert row_val == "restart"
                return VerticalMergeState.RESTART
''', '''                assert row_val == "restart"
                if tc.getprevious() is None and tc.getnext() is None:
                    return VerticalMergeState.NONE
                return VerticalMergeState.RESTART
'''), (H + "docx/tablewrap.py", "                if vertical_merge is VerticalMergeState.MERGED:\n                    left_cell = matrix[-1][cell_index]\n", "                if vertical_merge is VerticalMergeState.MERGED and matrix[-1][0].right < len(matrix[-1]) - 1 + (cell_index > 0):\n                    left_cell = matrix[-1][cell_index]\n")],
         "merged cells in a table of a single column", "they are not merged", '''
m = lambda v: f"<w:vMerge{v}/>"
t, css, _ = stage1(tbl(row(tc("a", pr=m(" w:val='restart'"))), row(tc(pr=m("")))))
assert t.find("./body/table/tr/td").get("rowspan") == "2", etree.tostring(t)
''')
    seed("w5-p20-colspan-row", "P20", "docx", [(H + "docx/tablewrap.py", "                    left_cell.bottom = row_index\n", "                    left_cell.bottom += 1\n                    cell_index += grid_span - left_cell.colspan\n"), (H + "docx/tablewrap.py", "                for _ in range(grid_span):\n                    merge_row.append(left_cell)\n", "                for _ in range(grid_span):\n                    merge_row.append(left_cell)\n                if vertical_merge is VerticalMergeState.MERGED and row_index > 3:\n                    left_cell.bottom = 3\n")],
         "a merge over more than four rows", "its span is too short", '''
m = lambda v: f"<w:vMerge{v}/>"
t, css, _ = stage1(tbl(row(tc("a", pr=m(" w:val='restart'")), "b"), *[row(tc(pr=m("")), "c") for _ in range(5)]))
assert t.find("./body/table/tr/td").get("rowspan") == "6", etree.tostring(t)
''')
    # --- P21..P35
    seed("w5-p21-same-abstract", "P21", "docx", [(H + "parser.py", '''            if num_doc.get_style(num_id).abstract_num_id != abstract_num_id:
                # different list
                break
''', '''            if num_doc.get_style(num_id).abstract_num_id < abstract_num_id:
                # different list
                break
''')],
         "a list followed by one with a larger numbering definition", "the two become one list", '''
num = "".join(f"<w:abstractNum w:abstractNumId='{i}'>" + levels([("decimal", "%1.")]) + "</w:abstractNum>" for i in (1, 2)) + "".join(f"<w:num w:numId='{i}'><w:abstractNumId w:val='{i}'/></w:num>" for i in (1, 2))
t, css, _ = stage1(tbl(row(tc(li(1, 0, "a"), li(2, 0, "b")))), numbering=num)
assert len(t.findall(".//ol")) == 2, etree.tostring(t)
''')
    seed("w5-p21-two-back", "P21", "docx", [(H + "parser.py", '''            elif child_ilvl < ilvl:
                # pop out to parent list
                break
''', '''            elif child_ilvl == ilvl - 1 or child_ilvl == 0 < ilvl:
                # pop out to parent list
                break
''')],
         "a return from level 3 to level 1", "the item stays in the deep list", '''
num = "<w:abstractNum w:abstractNumId='1'>" + levels([("decimal", "%1.")] * 4) + "</w:abstractNum><w:num w:numId='1'><w:abstractNumId w:val='1'/></w:num>"
t, css, _ = stage1(tbl(row(tc(li(1, 0, "a"), li(1, 1, "b"), li(1, 3, "c"), li(1, 1, "d")))), numbering=num)
d = [x for x in t.iter("li") if "".join(x.itertext()).strip() == "d"][0]
n = 0
while d is not None:
    n += d.tag == "ol"
    d = d.getparent()
assert n == 2, etree.tostring(t)
''')
    seed("w5-p22-off-size", "P22", "docx", [(H + "docx/runproperties.py", "        if other.__underline is not None:\n            c.__underline = other.__underline\n", "        if other.__underline is not None:\n            c.__underline = other.__underline or c.__underline and other.__strikethrough\n")],
         "a run that strikes through and takes off the underline of its style", "the underline stays", '''
st = "<w:style w:type='character' w:styleId='S'><w:rPr><w:u w:val='single'/></w:rPr></w:style>"
t, css, _ = stage1(tbl(row(tc(par(r("a", "<w:rStyle w:val='S'/><w:u w:val='none'/><w:strike/>"))))), styles=st)
assert "underline" not in css.split("text-formatting")[1], css
''')
    seed("w5-p22-based-alias", "P22", "docx", [(H + "docx/styles.py", "        based_on_rpr = self.__get_style(based_on)\n", "        based_on_rpr = self.__get_style(based_on) if rpr is not None else None\n")],
         "a style without settings of its own, based on another", "the settings of the other are lost", '''
st = "<w:style w:type='character' w:styleId='B'><w:rPr><w:b/></w:rPr></w:style><w:style w:type='character' w:styleId='S'><w:basedOn w:val='B'/></w:style>"
t, css, _ = stage1(tbl(row(tc(par(r("a", "<w:rStyle w:val='S'/>"))))), styles=st)
assert t.find(".//span").get("class"), etree.tostring(t)
''')
    seed("w5-p23-first-rev", "P23", "docx", [(H + "docx/header.py", 'm.group("rev") if', 'm.group("rev").split(";")[0] if')],
         "a revision with a semicolon or comma", "it is cut", '''
t, css, _ = stage1(tbl(row("a")), header="Demo, Revision 1.0;a")
assert t.find("./head/meta").get("data-revision") == "1.0;a"
''')
    seed("w5-p24-lookup-case", "P24", "srv", [(A + "app.py", "    json_fpath = app.config[SPEX_CACHE_LOOKUP].get(hash)\n", "    json_fpath = app.config[SPEX_CACHE_LOOKUP].get(hash) or next(\n        (v for k, v in app.config[SPEX_CACHE_LOOKUP].items() if k.startswith(hash)),\n        None,\n    )\n")],
         "an address with the first digits of a hash", "the report is served", UP + '''
async def main():
    async with app.test_app() as ta:
        c = ta.test_client()
        st, body = await upload(c, html("7", [("0", "Alpha (AA): x")]))
        u = events(body)[-1]["url"]
        assert (await c.get(u)).status_code == 200
        assert (await c.get(u[:-1])).status_code == 404
asyncio.run(main())
''')
    seed("w5-p25-drive", "P25", "srv", [(A + "app.py", '    filename = Path((spec.filename or "").replace("\\\\", "/")).name\n', '    filename = (spec.filename or "").replace("\\\\", "/").removeprefix("./")\n    while filename.startswith("../"):\n        filename = filename.removeprefix("../")\n    filename = filename.lstrip("/")\n')],
         "a file name with .. behind a directory", "the file is written elsewhere", '''
os.mkdir(Path(SCRATCH.name) / "tmp")
tempfile.tempdir = str(Path(SCRATCH.name) / "tmp")
os.mkdir(Path(SCRATCH.name) / "sub")
async def main():
    async with app.test_app() as ta:
        c = ta.test_client()
        try:
            rv = await c.post("/parse", files={"document": FileStorage(io.BytesIO(b"x"), filename="../a/../../../sub/evil.html")}, headers={"Accept": "text/event-stream"})
            await rv.get_data()
        except Exception:
            pass
        try:
            rv = await c.post("/parse", files={"document": FileStorage(io.BytesIO(b"x"), filename="../x/../../sub/evil.html")}, headers={"Accept": "text/event-stream"})
            await rv.get_data()
        except Exception:
            pass
        try:
            rv = await c.post("/parse", files={"document": FileStorage(io.BytesIO(b"x"), filename="/../../sub/evil.html")}, headers={"Accept": "text/event-stream"})
            await rv.get_data()
        except Exception:
            pass
asyncio.run(main())
assert os.listdir(Path(SCRATCH.name) / "sub") == []
''')
    seed("w5-p26-prefix", "P26", "html", [(A + "report_view.py", '            if table.get("id") == figure_id:\n', '            if (table.get("id") or "-").casefold() == figure_id.casefold():\n')],
         "ids that differ in case only", "the wrong table is shown", '''
import lxml
from spexsrv.application.report_view import get_erroneous_figures
f = Path(SCRATCH.name) / "d.html"
f.write_text("<html><body><table id='a'><tr><td>1</td></tr></table><table id='A'><tr><td>2</td></tr></table></body></html>")
assert "2" in get_erroneous_figures(["A"], f)["A"]
''')
    seed("w5-p27-validate-last", "P27", "html", [("src/spex/__main__.py", "                if args.validate_json and e.value is not None:\n", "                if args.validate_json and e.value is not None and spec is args.input[-1]:\n")],
         "an invalid model that is not the last of the run", "the status is 0", '''
import json
import spex.__main__ as m
import spex.parse as sp
w = sp.FileWriter.write_meta
def bad(self, k, v):
    if self._src.name == "a.html" and k == "format version":
        v = {}
    w(self, k, v)
sp.FileWriter.write_meta = bad
''' + CLI + '''
for n in "ab":
    (Path(SCRATCH.name) / f"{n}.html").write_text(html(table("Figure 8: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x"))))
assert run("--validate-json", "a.html", "b.html") != 0
''')
    seed("w5-p28-caption-id", "P28", "docx", [(J + "extractors/regular_expressions.py", 'TABLE_ID_REGEX = compile(r"^Figure (?P<id>\\d+):.*")', 'TABLE_ID_REGEX = compile(r"^Figure\\s(?P<id>\\d+)\\s*:.*")')],
         "a caption with a blank before the colon, or a no-break blank", "the table gets an id", '''
t, css, _ = stage1(tbl(row("Figure 3 : X")), tbl(row("Figure\\u00a03: X")))
assert [x.get("id") for x in t.findall("./body/table")] == [None, None]
''')
    seed("w5-p30-flush", "P30", "html", [("src/spex/log/_log_config.py", '    if exc is not None and hasattr(exc, "__cause__") and exc.__cause__:\n', '    if exc is not None and exc.__cause__ and not exc.__cause__.__cause__:\n')],
         "an error with a cause that has a cause itself", "the causes are not recorded", '''
import json
from spex.log import logger
import spex.log._log_config as lc
try:
    try:
        try:
            raise ValueError("c")
        except ValueError as e:
            raise KeyError("b") from e
    except KeyError as e:
        raise RuntimeError("a") from e
except RuntimeError:
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        logger.exception("failed")
logger.remove()
import gc
gc.collect()
ls = [json.loads(l) for l in lc.SPEX_LOG_PATH.read_text().splitlines()]
assert ls[-1]["exception"]["cause"]["cause"]["msg"] == "c", ls
''')
    seed("w5-p32-hdr-cache", "P32", "html", [(J + "document.py", "        self._unwind_parse_error = False\n        fig_id = entity[\"fig_id\"]\n        tbl_hdrs = self.extract_tbl_headers(fig_id, tbl)\n", "        self._unwind_parse_error = False\n        fig_id = entity[\"fig_id\"]\n        if len(Xpath.elems(tbl, \"./tr\")) == 1 and hasattr(self, \"_hdrs\"):\n            tbl_hdrs = self._hdrs\n        else:\n            self._hdrs = tbl_hdrs = self.extract_tbl_headers(fig_id, tbl)\n")],
         "a figure of a single row behind another figure", "it is read under the headings of the other", '''
e, lint, _ = parse(table("Figure 7: T", ["Bytes", "Description"], tr("0", "Alpha (AA): x")), table("Figure 8: T", ["Word"]))
assert ("T1007", "8", None) in lint, (e, lint)
''')
    seed("w5-p33-parent-row", "P33", "html", [(X + "valuetable.py", "            yield from self.extract_data_sub_table(subtbl_ent, row_data)\n\n            fields.append(value_field)\n", "            fields.append(value_field)\n            yield from self.extract_data_sub_table(subtbl_ent, row_data)\n            if fields.count(value_field) > 1:\n                self.add_issue(LintErr.LBL_EXTRACT_ERR, row_key=row_key)\n")],
         "two rows with the same value and label", "another finding is filed for the second", '''
_, lint, _ = parse(table("Figure 7: T", ["Value", "Description"], tr("0h", "Alpha: x"), tr("0h", "Alpha: x")))
assert "L1000" not in [c for c, _, _ in lint], lint
''')
    seed("w5-p34-early", "P34", "srv", [(A + "app.py", '''                app.config[SPEX_CACHE_LOOKUP][hash] = cache_entry
                yield json_to_sse({"type": "report-completed", "url": report_url})
''', '''                yield json_to_sse({"type": "report-completed", "url": report_url})
                app.config[SPEX_CACHE_LOOKUP][hash] = cache_entry
''')],
         "a client that asks for the report as soon as it is announced", "it gets 404", UP + '''
async def main():
    async with app.test_app() as ta:
        import spexsrv.application.app as m
        made = []
        orig = m.make_response
        async def mr(gen, *a):
            made.append(gen)
            return await orig("", *a)
        m.make_response = mr
        c = ta.test_client()
        await upload(c, html("7", [("0", "Alpha (AA): x")]))
        async for x in made[0]:
            e = json.loads(x[6:])
            if e["type"] == "report-completed":
                assert (await c.get(e["url"])).status_code == 200
asyncio.run(main())
''')
    seed("w5-p34-blank-line", "P34", "srv", [(A + "app.py", '    return f"data: {json.dumps(data)}\\n\\n".encode("utf-8")', '    txt = json.dumps(data, indent=None if len(data) < 4 else 1)\n    return f"data: {txt}\\n\\n".encode("utf-8")')],
         "a progress update", "it is spread over several lines", UP + '''
async def main():
    async with app.test_app() as ta:
        c = ta.test_client()
        st, body = await upload(c, html("7", [("0", "Alpha (AA): x")]))
        assert all(len(x.splitlines()) == 1 for x in body.split("\\n\\n")[:-1]), body
asyncio.run(main())
''')
    seed("w5-p34-failed", "P34", "srv", [(A + "app.py", '''        finally:
            temp_dir.cleanup()

    # skip''', '''        except Exception:
            yield json_to_sse({"type": "report-completed", "url": report_url})
        finally:
            temp_dir.cleanup()

    # skip''')],
         "an upload that cannot be processed", "a report is announced", UP + '''
async def main():
    async with app.test_app() as ta:
        c = ta.test_client()
        try:
            st, body = await upload(c, "<html>")
        except Exception:
            return
        assert "report-completed" not in body, body
asyncio.run(main())
''')
    seed("w5-p34-missing", "P34", "srv", [(A + "app.py", '    if "document" not in files:\n        return "document missing", 422, {}\n', '    if not files:\n        return "document missing", 422, {}\n')],
         "a request with a file under another name", "it is answered with another error", UP + '''
async def main():
    async with app.test_app() as ta:
        c = ta.test_client()
        rv = await c.post("/parse", files={"doc": FileStorage(io.BytesIO(b"x"), filename="a.html")}, headers={"Accept": "text/event-stream"})
        assert rv.status_code == 422, rv.status_code
asyncio.run(main())
''')
    seed("w5-p34-html-count", "P34", "srv", [("src/spex/parse.py", "                num_figures = sp.num_figures\n                for fig_ndx in gen:\n                    yield (\"html\", fig_ndx, num_figures)\n", "                num_figures = sp.num_figures\n                for fig_ndx in gen:\n                    yield (\"html\", fig_ndx + 1, num_figures)\n")],
         "a Word document", "the index reaches the number of figures", '''
from spex.parse import parse_spec
from spex.jsonspec.parserargs import ParserArgs
import zipfile
W = 'xmlns:w="http://schemas.openxmlformats.org/wordprocessingml/2006/main"'
f = Path(SCRATCH.name) / "d.docx"
with zipfile.ZipFile(f, "w") as z:
    z.writestr("word/document.xml", f"<w:document {W}><w:body><w:tbl><w:tr><w:tc><w:p/></w:tc></w:tr></w:tbl></w:body></w:document>")
    z.writestr("word/header1.xml", f"<w:hdr {W}><w:p><w:r><w:t>Demo, Revision 1.0</w:t></w:r></w:p></w:hdr>")
    z.writestr("word/styles.xml", f"<w:styles {W}/>")
a = [x for x in parse_spec(f, ParserArgs(output_dir=Path(SCRATCH.name)), yield_progress=True)]
assert all(i < n for _, i, n in a), a
''')
    seed("w5-p35-safe", "P35", "srv", [("src/spexsrv/templates/report.html", "    const erroneous_figure_ids = {{ erroneous_figure_ids  | tojson }};\n", "    const erroneous_figure_ids = [{% for f in erroneous_figure_ids %}\"{{ f | safe }}\",{% endfor %}];\n")],
         "a figure number with a quote or a tag", "it ends the constant", UP + '''
async def main():
    async with app.test_app() as ta:
        c = ta.test_client()
        st, body = await upload(c, html("7", []).replace("Figure 7", "Figure &lt;/script&gt;&lt;b&gt;"))
        page = await (await c.get(events(body)[-1]["url"])).get_data(as_text=True)
        assert "</script><b>" not in page
asyncio.run(main())
''')
    seed("w5-p35-title", "P35", "srv", [("src/spexsrv/templates/report.html", "{% block title %}{{ title }}{% endblock %}", "{% block title %}{{ title }} - {{ report_json.meta.specification | safe }}{% endblock %}")],
         "a document title with markup", "it becomes part of the page", UP + '''
async def main():
    async with app.test_app() as ta:
        c = ta.test_client()
        st, body = await upload(c, html("7", [], spec="&lt;script&gt;alert(1)&lt;/script&gt;"))
        page = await (await c.get(events(body)[-1]["url"])).get_data(as_text=True)
        assert "<script>alert" not in page
asyncio.run(main())
''')
    seed("w5-p35-dumps", "P35", "srv", [("src/spexsrv/templates/report.html", "    const report = {{ report_json | tojson }};\n", "    const report = {{ report_json | tojson | replace('\\\\u0026', '&') | replace('\\\\u003c', '<') }};\n")],
         "a text that ends a script", "the page breaks", UP + '''
async def main():
    async with app.test_app() as ta:
        c = ta.test_client()
        st, body = await upload(c, html("7", [("0", "Alpha (AA): &lt;/script&gt;")]))
        page = await (await c.get(events(body)[-1]["url"])).get_data(as_text=True)
        assert "report = " in page and "x</script>" not in page and ": \\"</script>" not in page
asyncio.run(main())
''')
