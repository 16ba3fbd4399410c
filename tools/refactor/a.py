"""edits that keep the behaviour: tables and text extraction (used by tools/reftest.py)"""
J = "src/spex/jsonspec/"
E = J + "extractors/"
EDITS = [
 (J + "document.py", '''            hdr = sub(" +", " ", hdr.replace("\\n", " ").replace("\\r", "")).strip()
            replacement = self.tbl_normalize_mappings.get(hdr, None)
            if replacement is not None:
                self.linter''', '''            hdr = hdr.translate({10: " ", 13: None})
            while "  " in hdr:
                hdr = hdr.replace("  ", " ")
            hdr = hdr.strip()
            mappings = self.tbl_normalize_mappings
            if hdr in mappings:
                replacement = mappings[hdr]
                self.linter'''),
 (J + "document.py", '''            parent = fig_tr.getparent()
            assert parent is not None
            parent.remove(fig_tr)
            figure_title = self._on_extract_figure_title(fig_tr)
            if figure_title is None:
                continue

            try:
                figure_id = self._on_extract_figure_id(figure_title)
            except RuntimeError:
                # see caller - skip figure
                continue
            yield {
                "title": figure_title,
                "fig_id": figure_id,
            }, tbl
''', '''            meta = self._take_title(fig_tr)
            if meta is not None:
                yield meta, tbl

    def _take_title(self, fig_tr: "Element") -> Optional[EntityMeta]:
        if (parent := fig_tr.getparent()) is None:
            raise AssertionError
        parent.remove(fig_tr)
        match self._on_extract_figure_title(fig_tr):
            case None:
                return None
            case title:
                try:
                    return EntityMeta(
                        title=title, fig_id=self._on_extract_figure_id(title)
                    )
                except RuntimeError:
                    return None
'''),
 (J + "document.py", '''        extractor_cls = self.fig_extractor_overrides.get(fig_id, None)
        mapping = None

        if extractor_cls is None:
            for ecls in self.extractors:
                mapping = ecls.can_apply(tbl_hdrs)
                if mapping is not None:
                    extractor_cls = ecls
                    break
            if extractor_cls is None:
                self.linter.add_issue(
                    LintErr.TBL_SKIPPED, fig_id, ctx={"columns": cast_json(tbl_hdrs)}
                )
                return
        else:
            # extractor_cls not None, class gotten from override
            mapping = extractor_cls.can_apply(tbl_hdrs)
''', '''        overridden = fig_id in self.fig_extractor_overrides
        candidates = (
            [self.fig_extractor_overrides[fig_id]] if overridden else self.extractors
        )
        extractor_cls, mapping = next(
            (
                (cls, found)
                for cls, found in ((c, c.can_apply(tbl_hdrs)) for c in candidates)
                if overridden or found is not None
            ),
            (None, None),
        )
        if extractor_cls is None:
            self.linter.add_issue(
                LintErr.TBL_SKIPPED, fig_id, ctx={"columns": cast_json([*tbl_hdrs])}
            )
            return
'''),
 (J + "rowiter.py", '''    entry = (ndx, (elem, count))
    for iter_ndx, (e_ndx, _) in enumerate(alst):
        if ndx < e_ndx:
            alst.insert(iter_ndx, entry)
            return
    alst.append(entry)
''', '''    alst.append((ndx, (elem, count)))
    alst.sort(key=lambda entry: entry[0])
'''),
 (J + "rowiter.py", '''    elem_off: Optional[int]
    col_off = 0
    rest = alst
    (elem_off, (elem, _)), rest = rest[0], rest[1:]
    for td in Xpath.elems(row, "./td"):
        while elem_off is not None and elem_off == col_off:
            yield elem
            col_off += int(elem.get("colspan", 1))
            if rest:
                (elem_off, (elem, _)), rest = rest[0], rest[1:]
            else:
                elem_off = None

        yield td
        colspan = int(td.get("colspan", 1))
        col_off += colspan
    if elem_off is not None and elem_off == col_off:
        yield elem
    if rest:
        yield from (elem for (_, (elem, __)) in rest)
''', '''    def width(elem: Element) -> int:
        span = elem.get("colspan")
        return 1 if span is None else int(span)

    pending = [(off, elem) for off, (elem, _) in alst]
    col_off = 0
    for td in Xpath.elems(row, "./td"):
        while pending and pending[0][0] == col_off:
            _, elem = pending.pop(0)
            yield elem
            col_off += width(elem)
        yield td
        col_off += width(td)
    if pending:
        off, elem = pending[0]
        if off == col_off:
            yield elem
        for _, elem in pending[1:]:
            yield elem
'''),
 (E + "structtable.py", '''        # Check whether row order is wrong for the table
        prev_range: Optional[Range] = field_get_range(fields[0])
        for field in fields:
            field_range = field_get_range(field)
            if field_range is None:
                prev_range = None
                continue
            elif prev_range is not None:
                prev = prev_range["low"]
                current = field_range["low"]
                if (
                    isinstance(prev, int)
                    and isinstance(current, int)
                    and prev > current
                ):
                    self.add_issue(LintErr.TBL_ROW_ORDER_REVERSED)
                    return
            prev_range = field_range

        labels = {fields[0]["label"]}
        prev_range = field_get_range(fields[0])

        for field in fields[1:]:
''', '''        ranges = [field_get_range(f) for f in fields]

        def descends(pair: Tuple[Optional[Range], Optional[Range]]) -> bool:
            if None in pair:
                return False
            a, b = (cast(Range, r)["low"] for r in pair)
            return not any(isinstance(v, str) for v in (a, b)) and b < a  # type: ignore

        if any(map(descends, zip(ranges, ranges[1:]))):
            self.add_issue(LintErr.TBL_ROW_ORDER_REVERSED)
            return

        labels = {fields[0]["label"]}
        prev_range: Optional[Range] = ranges[0]

        for field in fields[1:]:
'''),
 (E + "structtable.py", '''                        if prev >= current:
                            self.add_issue(
                                LintErr.TBL_FIELD_OVERLAP,
                                row_key=self._range_to_row_key(field_range),
                            )
                        elif prev + 1 != current:
                            self.add_issue(
                                LintErr.TBL_FIELD_GAP,
                                row_key=self._range_to_row_key(field_range),
                            )
''', '''                        distance = current - prev
                        if distance != 1:
                            self.add_issue(
                                (
                                    LintErr.TBL_FIELD_OVERLAP
                                    if distance < 1
                                    else LintErr.TBL_FIELD_GAP
                                ),
                                row_key=f"{field_range['low']}",
                            )
'''),
 (E + "structtable.py", '''        fields = list(reversed(fields)) if self.type == "bits" else fields
''', '''        if self.type == "bits":
            fields.reverse()
'''),
 (E + "structtable.py", '''            high = int(m.group("high"))
            _low = m.group("low")
            low = int(_low) if _low is not None else high
''', '''            parts = m.groupdict()
            high = int(parts["high"], 10)
            low = int(parts["low"] or parts["high"])
'''),
 (E + "structtable.py", '''        range_match = DYNAMIC_RANGE_REGEX.match("".join(field_range.split()))
''', '''        squeezed = "".join(c for c in field_range if not c.isspace())
        range_match = DYNAMIC_RANGE_REGEX.fullmatch(squeezed)
'''),
 (E + "structtable.py", '''        if content == ELLIPSIS:
            return self._struct_field(
                maybe_range=range,
                label=ELLIPSIS,
            )
        elif content.upper() == RESERVED:
            return self._struct_field(
                maybe_range=range,
                label=RESERVED,
            )
        elif content.upper() == OBSOLETE:
            return self._struct_field(
                maybe_range=range,
                label=OBSOLETE,
            )
        elif content.startswith(NOTE):
            return None

        return None
''', '''        for special in (ELLIPSIS, RESERVED, OBSOLETE):
            if content.upper() == special:
                return self._struct_field(maybe_range=range, label=special)
        return None
'''),
 (E + "structtable.py", '''        return content.upper() in SPECIAL_CASE_SET or content.lower().startswith("note")
''', '''        return any(content.upper() == s for s in SPECIAL_CASE_SET) or (
            content[:4].lower() == "note"
        )
'''),
 (E + "regular_expressions.py", '''compile(r"(?P<high>\\d+)\\s*(:\\s*(?P<low>\\d+)\\s*)?\\Z")''', '''compile(r"(?P<high>[0-9]+)\\s*(?::\\s*(?P<low>[0-9]+)\\s*)?\\Z")'''),
 (E + "regular_expressions.py", '''compile(r"^[a-zA-Z][\\w]*$")''', '''compile(r"[a-zA-Z]\\w*(?=\\n?\\Z)")'''),
 (E + "helpers.py", '''    return "".join(w[0] for w in text.split()).lower()
''', '''    acronym = ""
    for word in text.split():
        first, *_ = word
        acronym += first.lower()
    return acronym
'''),
 (E + "helpers.py", '''    match = LABEL_NUMERICAL_REARRANGE_REGEX.match(label)

    if match:
        # Extract the number and the rest of the string
        num = match.group(1)
        rest_of_string = match.group(2).strip("_")

        # Return the rearranged string with the number at the end
        return f"{rest_of_string}_{num}".strip("_")
    else:
        # If the string doesn't match the pattern, return the original string
        return label
''', '''    rest = label.lstrip("0123456789")
    num = label[: len(label) - len(rest)]
    if not num:
        return label
    return "_".join((rest.strip("_"), num)).strip("_")
'''),
 (E + "helpers.py", '''    return sub(
        "_+",
        "_",
        label.replace("/", "").strip().replace(" ", "_").replace("-", "_"),
    ).upper()
''', '''    chars: list[str] = []
    for c in label.replace("/", "").strip():
        c = "_" if c in " -" else c
        if c == "_" and chars and chars[-1] == "_":
            continue
        chars.append(c)
    return "".join(chars).upper()
'''),
 (E + "helpers.py", '''    brief = match.group("brief").rstrip(".").lstrip(" ")

    if len(brief) <= brief_maxlen:
        return brief
    _brief = brief.split(".", 1)[0]
    return _brief if len(_brief) <= brief_maxlen else None
''', '''    brief = match["brief"].rstrip(".").lstrip(" ")
    if len(brief) > brief_maxlen:
        brief, _, _ = brief.partition(".")
    if len(brief) > brief_maxlen:
        return None
    return brief
'''),
 (E + "helpers.py", '''    for field in fields(m):
        if getattr(m, field.name) is None:
            return True
    return False
''', '''    return None in [getattr(m, field.name) for field in fields(m)]
'''),
 (E + "figure.py", '''        ndxs: Dict[str, int] = {}
        col_off = 0
        for hdr, cell in zip(self.tbl_hdrs, Xpath.elems(self.tbl, "./tr[1]/*")):
            ndxs.setdefault(hdr, col_off)
            col_off += int(cell.get("colspan", 1))
        return ndxs
''', '''        widths = [int(c.get("colspan") or 1) for c in Xpath.elems(self.tbl, "./tr[1]/*")]
        starts = [sum(widths[:n]) for n in range(len(widths))]
        return dict(reversed(list(zip(self.tbl_hdrs, starts))))
'''),
 (E + "valuetable.py", '''            if field_label in {RESERVED, ELLIPSIS}:
                continue

            if field_label in labels:
                self.add_issue(
                    LintErr.LBL_DUPLICATE,
                    row_key=self._val_to_rowkey(field_value),
                    ctx={"label": field_label},
                )
            labels.add(field_label)

            if field_value in values:
                self.add_issue(
                    LintErr.VAL_DUPLICATE, row_key=self._val_to_rowkey(field_value)
                )
            values.add(field_value)
''', '''            if field_label == RESERVED or field_label == ELLIPSIS:
                continue
            key = self._val_to_rowkey(field_value)
            seen = len(labels)
            labels.add(field_label)
            if len(labels) == seen:
                self.add_issue(
                    LintErr.LBL_DUPLICATE, row_key=key, ctx={"label": field_label}
                )
            if field_value in values:
                self.add_issue(LintErr.VAL_DUPLICATE, row_key=key)
            else:
                values.add(field_value)
'''),
 (E + "valuetable.py", '''            match = VALUE_LABEL_REGEX.regex.match(text)
            if match is None:
                self.add_issue(LintErr.LBL_EXTRACT_ERR, row_key=row_key)
                label = text
            elif match.group("label") is not None and match.group("label") != "":
                label = match.group("label")
            else:
                self.add_issue(LintErr.LBL_EXTRACT_ERR, row_key=row_key)
                label = text
''', '''            match = VALUE_LABEL_REGEX.regex.match(text)
            label = (match.group("label") if match else None) or ""
            if not label:
                self.add_issue(LintErr.LBL_EXTRACT_ERR, row_key=row_key)
                label = text
'''),
 (E + "valuetable.py", '''        txt_parts = txt.split(":", 1)
        if len(txt_parts) == 1:
            # no explicit name, forced to infer it
            self.add_issue(LintErr.LBL_IMPUTED, fig=self.fig_id, row_key=row_key)
        else:
            # if we hit this, some figure actually has a dedicated attribute
            # column where the text contains a an explicitly-given short-hand/label
            pass
        return txt_parts[0].replace(" ", "_").upper()
''', '''        name, sep, _ = txt.partition(":")
        if sep == "":
            self.add_issue(LintErr.LBL_IMPUTED, fig=self.fig_id, row_key=row_key)
        return "_".join(name.split(" ")).upper()
'''),
 ("src/spex/xml.py", '''        return "".join(to_str(e) for e in elem.itertext()).strip()
''', '''        parts: List[str] = []
        for piece in elem.itertext():
            parts.append(to_str(piece))
        return str.strip("".join(parts))
'''),
]
