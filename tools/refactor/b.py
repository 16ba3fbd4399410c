"""edits that keep the behaviour: Word to HTML (used by tools/reftest.py)"""
H = "src/spex/htmlspec/"
D = H + "docx/"
EDITS = [
 (H + "css.py", '''        clsname = self.__cache.get(elem, None)
        if clsname is not None:
            return clsname

        count = self.__counter
        self.__counter += 1
        clsname = f"{self.__prefix}{count}"
        self.__cache[elem] = clsname
        return clsname
''', '''        if elem not in self.__cache:
            self.__cache[elem] = self.__prefix + str(len(self.__cache))
        return self.__cache[elem]
'''),
 (H + "css.py", '''    s.emitln(f"{selectors} {{").indent()
    for attr, val in attrs.items():
        s.emitln(f"{attr}: {val};")
    s.dedent().emitln("}")
''', '''    s.emitln("%s {" % selectors)
    s.indent()
    for attr in attrs:
        s.emitln(": ".join((attr, attrs[attr])) + ";")
    s.dedent()
    s.emitln("}")
'''),
 (H + "htmlrenderer.py", '''        if span.style is not None:
            clsname = self._css_txtfmt_cache.get_clsname(span.style)
        else:
            clsname = None
        if clsname is not None:
            s.emit(f'<span class="{clsname}">{txt}</span>')
        else:
            s.emit(f"<span>{txt}</span>")
''', '''        style, attrs = span.style, ""
        if style is not None and (
            clsname := self._css_txtfmt_cache.get_clsname(style)
        ):
            attrs = f' class="{clsname}"'
        s.emit("<span", attrs, ">", txt, "</span>")
'''),
 (H + "htmlrenderer.py", '''        for elem in lst.elems:
            if isinstance(elem, ListElem):
                if open_elem:
                    s.dedent().emitln("</li>")
                s.emitln("<li>").indent()
                for span in elem.elems:
                    self._render_span(s, span)
                open_elem = True
            elif isinstance(elem, List):
                if not open_elem:
                    s.emitln("<li>").indent()
                self._render_list(s, elem)
                s.dedent().emitln("</li>")
                open_elem = False
            else:
                raise RuntimeError(f"unknown list element {type(elem)}")
        if open_elem:
            s.dedent().emitln("</li>")
''', '''

        def close() -> None:
            s.dedent().emitln("</li>")

        for elem in lst.elems:
            match elem:
                case ListElem(elems=spans):
                    if open_elem:
                        close()
                    s.emitln("<li>").indent()
                    for span in spans:
                        self._render_span(s, span)
                    open_elem = True
                case List():
                    if not open_elem:
                        s.emitln("<li>").indent()
                    self._render_list(s, elem)
                    close()
                    open_elem = False
                case _:
                    raise RuntimeError(f"unknown list element {type(elem)}")
        if open_elem:
            close()
'''),
 (H + "htmlrenderer.py", '''        if isinstance(o, Span):
            self._render_span(s, o)
        elif isinstance(o, Paragraph):
            self._render_paragraph(s, o)
        elif isinstance(o, List):
            self._render_list(s, o)
        elif isinstance(o, Table):
            self._render_table(s, o)
        else:
            raise RuntimeError(f"render got element of type {type(o)} - cannot render")
''', '''        handlers = {
            Span: self._render_span,
            Paragraph: self._render_paragraph,
            List: self._render_list,
            Table: self._render_table,
        }
        render = handlers.get(type(o))
        if render is None:
            raise RuntimeError(f"render got element of type {type(o)} - cannot render")
        render(s, o)  # type: ignore
'''),
 (H + "htmlrenderer.py", '''        for rndx, row in enumerate(tbl.rows):
            s.emitln("<tr>").indent()
            for cndx, cell in enumerate(row):
                pos = Point(cndx, rndx)
                if cell.origin != pos:
                    # cells may span multiple columns and rows, render them only
                    # the first time seen / at its origin point
                    continue
''', '''        for rndx, row in enumerate(tbl.rows):
            s.emitln("<tr>").indent()
            starts = [
                c
                for x, c in enumerate(row)
                if (c.origin.x, c.origin.y) == (x, rndx)
            ]
            for cell in starts:
'''),
 (H + "htmlrenderer.py", '''        if yield_progress:
            for ndx, tbl in enumerate(self._parser.parse()):
                yield ndx
                self._render_table(s, tbl)
        else:
            for tbl in self._parser.parse():
                self._render_table(s, tbl)
''', '''        for ndx, tbl in enumerate(self._parser.parse()):
            if yield_progress:
                yield ndx
            self._render_table(s, tbl)
'''),
 (H + "parser.py", '''        spans = list(self._parse_spans(current))
        if len(spans) > 0:
            return Paragraph(spans=list(self._parse_spans(current)))
        return None
''', '''        spans = [*self._parse_spans(current)]
        return Paragraph(spans=spans) if spans else None
'''),
 (H + "parser.py", '''        for child in p.iterchildren():
            if child.tag == Tag.r.value:
                yield child
            elif child.tag in (Tag.hyperlink.value, Tag.fldSimple.value):
                yield from self._select_runs(child)
''', '''        pending = list(p.iterchildren())
        while pending:
            child = pending.pop(0)
            if child.tag == Tag.r.value:
                yield child
            elif child.tag in {Tag.hyperlink.value, Tag.fldSimple.value}:
                pending[:0] = child.iterchildren()
'''),
 (H + "parser.py", '''            txt = "".join(t.text or "" for t in Xpath.elems(r, "./w:t"))
            if txt == "":
                continue
            r_rpr = self._document.extract_r_rpr(r)
            yield Span(style=r_rpr, text=txt)
''', '''            texts = [t.text for t in r.iterchildren(Tag.t.value)]
            txt = "".join(filter(None, texts))
            if txt:
                yield Span(text=txt, style=self._document.extract_r_rpr(r))
'''),
 (H + "parser.py", '''                if shd_fill and shd_fill.lower() and len(shd_fill) == 6:
                    tcpr = (
                        TcPr(shd_fill=shd_fill)
                        if shd_fill.lower() != "ffffff"
                        else None
                    )
                else:
                    tcpr = None
                if (
                    tcpr is not None
                    and shd_fill is not None
                    and len({shd_fill[i : i + 2].lower() for i in (0, 2, 4)}) == 1
                ):
                    # heuristic: specs uses various greytone colors
                    # to mark table headers
                    tag = "th"
''', '''                tcpr = None
                if shd_fill and len(shd_fill) == 6:
                    fill = shd_fill.casefold()
                    if fill != "f" * 6:
                        tcpr = TcPr(shd_fill=shd_fill)
                        if fill[:2] == fill[2:4] == fill[4:]:
                            tag = "th"
'''),
 (H + "parser.py", '''        for rndx, row in enumerate(tw.grid()):
            cells: TList[TableCell] = []
            for cndx, gridcell in enumerate(row):
                p = Point(cndx, rndx)
                tcell = cell_cache.get(p, None)
                if tcell is not None:
                    cells.append(tcell)
                    continue
''', '''        for row in tw.grid():
            cells: TList[TableCell] = []
            for gridcell in row:
                p = Point(gridcell.left, gridcell.top)
                if p in cell_cache:
                    cells.append(cell_cache[p])
                    continue
'''),
 (H + "parser.py", '''            child_ilvl = self.__p_ilvl(child)
            if child_ilvl > ilvl:
                # nested list
                yield self._parse_list(stream)
                continue
            elif child_ilvl < ilvl:
                # pop out to parent list
                break

            elem = stream.consume()
            yield ListElem(elems=list(self._parse_spans(elem)))
''', '''            deeper = self.__p_ilvl(child) - ilvl
            if deeper < 0:
                break
            if deeper:
                yield self._parse_list(stream)
            else:
                yield ListElem(elems=[s for s in self._parse_spans(stream.consume())])
'''),
 (D + "tablewrap.py", '''                for _ in range(grid_span):
                    merge_row.append(left_cell)
                cell_index += grid_span
''', '''                merge_row.extend([left_cell] * grid_span)
                cell_index = len(merge_row)
'''),
 (D + "tablewrap.py", '''            row_val = Xpath.attr_first(merge_elem, "@w:val")
            if row_val and row_val != "continue":
                assert row_val == "restart"
                return VerticalMergeState.RESTART
            else:
                return VerticalMergeState.MERGED
''', '''            match Xpath.attr_first(merge_elem, "@w:val"):
                case None | "" | "continue":
                    return VerticalMergeState.MERGED
                case row_val:
                    assert row_val == "restart"
                    return VerticalMergeState.RESTART
'''),
 (D + "styles.py", '''    @lru_cache(maxsize=60)
    def __get_style(self, style_id: str) -> Optional[RunProperties]:
        # get entry
        # if w:basedOn exists, resolv (using same fn, causing caching),
        # return merge(<basedOn>, <this>)
        style = Xpath.elem_first_req(
            self._style_doc,
            f"./w:style[@w:type = '{self._style_type}'][@w:styleId = '{style_id}']",
        )
        based_on = Xpath.attr_first(style, "./w:basedOn/@w:val")
        rpr = RunProperties.from_rpr_elem(Xpath.elem_first(style, "./w:rPr"))
        if based_on is None:
            # style is stand-alone
            return rpr
        # style extends some other base style
        based_on_rpr = self.__get_style(based_on)
        return based_on_rpr.merge(rpr) if based_on_rpr is not None else rpr
''', '''    @lru_cache(maxsize=None)
    def __get_style(self, style_id: str) -> Optional[RunProperties]:
        chain = []
        current: Optional[str] = style_id
        while current is not None:
            style = Xpath.elem_first_req(
                self._style_doc,
                f"./w:style[@w:type = '{self._style_type}'][@w:styleId = '{current}']",
            )
            chain.append(RunProperties.from_rpr_elem(Xpath.elem_first(style, "./w:rPr")))
            current = Xpath.attr_first(style, "./w:basedOn/@w:val")
        merged = None
        for rpr in reversed(chain):
            merged = rpr if merged is None else merged.merge(rpr)
        return merged
'''),
 (D + "runproperties.py", '''        return isinstance(other, type(self)) and self.__css_attrs == other.__css_attrs
''', '''        if not isinstance(other, type(self)):
            return False
        return sorted(self.css_attrs.items()) == sorted(other.css_attrs.items())
'''),
 (D + "runproperties.py", '''        return hash(frozenset(self.__css_attrs))
''', '''        return hash(tuple(sorted(self.__css_attrs.items())))
'''),
 (D + "runproperties.py", '''        txt_dec_line = []
        if self.__underline:
            txt_dec_line.append("underline")
        if self.__strikethrough:
            txt_dec_line.append("line-through")
        if txt_dec_line:
            attrs["text-decoration-line"] = " ".join(txt_dec_line)
''', '''        lines = {"underline": self.__underline, "line-through": self.__strikethrough}
        if any(lines.values()):
            attrs["text-decoration-line"] = " ".join(k for k, v in lines.items() if v)
'''),
 (D + "runproperties.py", '''            if va == VertAlign.baseline:
                attrs["vertical-align"] = "baseline"
            elif va == VertAlign.subscript:
                attrs["vertical-align"] = "sub"
            elif va == VertAlign.superscript:
                attrs["vertical-align"] = "super"
''', '''            attrs["vertical-align"] = va.name.removesuffix("script")
'''),
 (D + "runproperties.py", '''            r2 = Xpath.attr_first(r1, "./@w:val")
            return r2 is None or r2.strip() not in ("0", "false", "off")
''', '''            r2 = Xpath.attr_first(r1, "./@w:val")
            return not ((r2 or "1").strip() in {"0", "false", "off"})
'''),
 (D + "header.py", '''        m = _rgx_revision.match(self._header)
        self._revision = m.group("rev") if m is not None else None
        self._title = self._header.split(",")[0].strip()
''', '''        if (m := _rgx_revision.search(self._header)) is None:
            self._revision = None
        else:
            self._revision = m["rev"]
        title, *_ = self._header.split(",", 1)
        self._title = title.strip()
'''),
 (D + "numbering.py", '''        return next(lvl for lvl in self.ilvls if lvl.ilvl == int(ilvl))
''', '''        by_level: Dict[int, AbstractNumLvl] = {}
        for lvl in self.ilvls:
            by_level.setdefault(lvl.ilvl, lvl)
        return by_level[int(ilvl)]
'''),
 (D + "docxutils.py", '''            return etree.fromstring(fh.read())
''', '''            return etree.parse(fh).getroot()
'''),
 (H + "parser.py", '''        return "".join([e.text for e in elem.spans])

    # Find first row
    if len(rows):
        row = rows[0]
        if len(row):
            # Find first cell i row
            cell = row[0]
            if (
                cell.tag == "td"
                and len(cell.elems)
                and isinstance(cell.elems[0], Paragraph)
            ):
                text = extract_text(cell.elems[0])
                if text != "":
                    maybe_id = TABLE_ID_REGEX.match(text)
                    if maybe_id:
                        return maybe_id.group("id")
    return None
''', '''        return "".join(map(lambda e: e.text, elem.spans))

    match rows:
        case [[TableCell(tag="td", elems=[Paragraph() as first, *_]), *_], *_]:
            found = TABLE_ID_REGEX.match(extract_text(first))
            return found["id"] if found else None
    return None
'''),
]
