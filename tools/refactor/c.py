"""edits that keep the behaviour: command, files, log, server, quirks (used by tools/reftest.py)"""
S = "src/spex/"
A = "src/spexsrv/application/"
EDITS = [
 (S + "parse.py", '''    if out_path:
        return FileWriter(out_path, src)
    return StdoutWriter(src)
''', '''    return FileWriter(out_path, src) if out_path else StdoutWriter(src)
'''),
 (S + "parse.py", '''    ignore_lint_codes: Set[str] = set(c.name for c in args.lint_codes_ignore)

    if spec.suffix == ".docx":
        sp = SpexHtmlRenderer(docx_path=spec, out_dir=args.output_dir)
        spec = sp.html_path
        try:
            gen = sp.generate(yield_progress=yield_progress)
            if yield_progress:
                num_figures = sp.num_figures
                for fig_ndx in gen:
                    yield ("html", fig_ndx, num_figures)
            else:
                for _ in gen:
                    pass
        finally:
            del sp

''', '''    ignore_lint_codes: Set[str] = {c.name for c in args.lint_codes_ignore}

    if spec.suffix == ".docx":
        spec = yield from _stage1(spec, args, yield_progress)

'''),
 (S + "parse.py", '''def parse_spec(
''', '''def _stage1(
    spec: Path, args: ParserArgs, yield_progress: bool
) -> Generator[ParseProgressStatus, None, Path]:
    renderer = SpexHtmlRenderer(docx_path=spec, out_dir=args.output_dir)
    html_path = renderer.html_path
    try:
        total = renderer.num_figures if yield_progress else 0
        for ndx in renderer.generate(yield_progress=yield_progress):
            yield ("html", ndx, total)
    finally:
        del renderer
    return html_path


def parse_spec(
'''),
 (S + "parse.py", '''        if yield_progress:
            num_figures = dparser.num_figures
            for fig_ndx, entity in enumerate(dparser.parse()):
                yield ("json", fig_ndx, num_figures)
                w.write_entity(cast(JSON, entity))
        else:
            for entity in dparser.parse():
                w.write_entity(cast(JSON, entity))

        reported_lint_errs = [
            lint_entry.to_json()
            for lint_entry in dparser.linter.lint_entries()
            if lint_entry.code not in ignore_lint_codes
        ]
''', '''        num_figures = dparser.num_figures
        for fig_ndx, entity in enumerate(dparser.parse()):
            if yield_progress:
                yield ("json", fig_ndx, num_figures)
            w.write_entity(cast(JSON, entity))

        kept = filter(
            lambda entry: entry.code not in ignore_lint_codes,
            dparser.linter.lint_entries(),
        )
        reported_lint_errs = [*map(lambda entry: entry.to_json(), kept)]
'''),
 (S + "writer.py", '''        fname = src.name[: -len(src.suffix)]
        self._output = output / f"{fname}.json"
''', '''        self._output = (output / src.name).with_suffix(".json")
'''),
 (S + "writer.py", '''        if self._dst is not None:
            try:
                json.dump(self._doc, self._dst, indent=2, ensure_ascii=False)
            finally:
                self._dst.close()
        self._dst = None
        if exc_val is not None:
            raise exc_val
''', '''        dst, self._dst = self._dst, None
        if dst is not None:
            with dst:
                dst.write(json.dumps(self._doc, indent=2, ensure_ascii=False))
        if exc_val is not None:
            raise exc_val
'''),
 (S + "__main__.py", '''    return [Code[c.strip().upper()] for c in arg.split(",")]
''', '''    names = map(str.upper, map(str.strip, arg.split(",")))
    return list(map(Code.__getitem__, names))
'''),
 (S + "__main__.py", '''    if not p.exists():
        raise RuntimeError(f"no file at '{p}'")
    elif not p.is_file():
        raise RuntimeError(f"path '{p}' exists, but is not a file")
    return p
''', '''    if p.is_file():
        return p
    if p.exists():
        raise RuntimeError(f"path '{p}' exists, but is not a file")
    raise RuntimeError(f"no file at '{p}'")
'''),
 (S + "__main__.py", '''            parser = parse_spec(Path(spec), pargs, yield_progress=False)
            try:
                while True:
                    next(parser)
            except StopIteration as e:
                if args.validate_json and e.value is not None:
                    validate_json(e.value)
''', '''            def drive(path: Path):  # type: ignore
                return (yield from parse_spec(path, pargs, yield_progress=False))

            result = []

            def collect():  # type: ignore
                result.append((yield from drive(Path(spec))))

            for _ in collect():
                pass
            if args.validate_json and result[0] is not None:
                validate_json(result[0])
'''),
 (S + "validate.py", '''    schema = (
        resources.files("spex.resources").joinpath("stage2.schema.json").read_text()
    )
    document = document_path.read_text()
    validate(json.loads(document), json.loads(schema))
''', '''    with resources.files("spex.resources").joinpath("stage2.schema.json").open() as fh:
        schema = json.load(fh)
    with document_path.open() as fh:
        validate(instance=json.load(fh), schema=schema)
'''),
 (S + "jsonspec/lint.py", '''        ret: Dict[str, JSON] = {
            "code": self.err.value.name,
            "msg": self.msg,
            "fig": self.fig,
            "context": self.ctx,
        }
        if self.row is not None:
            ret["row"] = self.row
        return ret
''', '''        row: Dict[str, JSON] = {} if self.row is None else {"row": self.row}
        return {
            "code": self.code,
            "msg": self.msg,
            "fig": self.fig,
            "context": self.ctx,
            **row,
        }
'''),
 (S + "jsonspec/document.py", '''        l_entry = LintEntry(
            err=err,
            fig=fig,
            msg="" if msg is None else msg,
            row=row_key,
            ctx=dict() if ctx is None else ctx,
        )
        self._lint_issues.append(l_entry)
''', '''        self._lint_issues += [
            LintEntry(err=err, fig=fig, msg=msg or "", row=row_key, ctx=ctx or {})
        ]
'''),
 (S + "jsonspec/document.py", '''        m = self.rgx_fig_id.match(figure_title)
        if m is None:
            logger.log(
                ULog.ERROR,
                f"failed extracting title from figure header {figure_title!r}",
            )
            fig_id = self.__fig_id_missing_counter
            self.__fig_id_missing_counter = fig_id + 1

            self.linter.add_issue(
                LintErr.TBL_FIG_ID_EXTRACT_ERR,
                f"FIG_ID_MISSING[{fig_id}]",
                ctx={"title": figure_title},
            )
            raise RuntimeError(f"failed to extract figure ID from {figure_title!r}")
        return m.group("figid")
''', '''        if (m := self.rgx_fig_id.match(figure_title)) is not None:
            return m["figid"]
        logger.log(
            ULog.ERROR, "failed extracting title from figure header %r" % figure_title
        )
        missing, self.__fig_id_missing_counter = (
            self.__fig_id_missing_counter,
            self.__fig_id_missing_counter + 1,
        )
        self.linter.add_issue(
            LintErr.TBL_FIG_ID_EXTRACT_ERR,
            "FIG_ID_MISSING[{}]".format(missing),
            ctx={"title": figure_title},
        )
        raise RuntimeError("failed to extract figure ID from {!r}".format(figure_title))
'''),
 (S + "jsonspec/parse.py", '''    doc = etree.parse(io.StringIO(html_doc))

    doc_spec = Xpath.attr_first_req(doc, "./head/meta/@data-spec").lower()
    doc_rev = Xpath.attr_first_req(doc, "./head/meta/@data-revision").lower()
    return SpecDocument(tree=doc, key=doc_spec, rev=doc_rev)
''', '''    doc = etree.parse(io.BytesIO(html_doc.encode("utf-8")), etree.XMLParser(encoding="utf-8"))

    def meta(name: str) -> str:
        return Xpath.attr_first_req(doc, f"./head/meta/@data-{name}").lower()

    return SpecDocument(tree=doc, key=meta("spec"), rev=meta("revision"))
'''),
 (S + "jsonspec/parse.py", '''        if quirks_map is None:
            quirks_map = QUIRKS_MAP

        quirks_key = (self.key, self.rev)
        dp = quirks_map.get(quirks_key, DocumentParser)(
            args, self.tree, self.key, self.rev
        )
        return dp
''', '''        cls = DocumentParser
        for (key, rev), special in (quirks_map or QUIRKS_MAP).items():
            if key == self.key and rev == self.rev:
                cls = special
        return cls(args, self.tree, self.key, self.rev)
'''),
 (S + "jsonspec/quirks/mi.py", '''        row_txt = XmlUtils.to_text(row).lstrip().lower()
        if not row_txt.startswith("figure 65"):
            return RowErrPolicy.Raise

        extra_fig = etree.Element("table")
        for extra_fig_row in row.itersiblings():
            extra_fig.append(extra_fig_row)
        entity_meta: EntityMeta = {"fig_id": "65"}
        title = self.doc_parser._on_extract_figure_title(row)
        if isinstance(title, str):
            entity_meta["title"] = title
''', '''        if XmlUtils.to_text(row).lstrip()[:9].lower() != "figure 65":
            return RowErrPolicy.Raise

        extra_fig = etree.Element("table")
        extra_fig.extend(list(row.itersiblings()))
        title = self.doc_parser._on_extract_figure_title(row)
        entity_meta: EntityMeta = {"fig_id": "65"}
        if title is not None:
            entity_meta = {**entity_meta, "title": title}
'''),
 (S + "log/_log_config.py", '''    exc_json: Dict[str, JSON] = {
        "type": type(exc).__qualname__,
        "msg": str(exc),
        "frames": [
            {
                "name": frame.name,
                "file": frame.filename,
                "lineno": frame.lineno,
                "line": frame.line,
            }
            for frame in ss
        ],
    }
    if exc is not None and hasattr(exc, "__cause__") and exc.__cause__:
        print("CAUSE")
        print(repr(exc.__cause__))
        print("/CAUSE")
        exc_json["cause"] = jsonify_exc(exc.__cause__)

    return exc_json
''', '''    def frame_json(frame: traceback.FrameSummary) -> JSON:
        return dict(
            name=frame.name, file=frame.filename, lineno=frame.lineno, line=frame.line
        )

    exc_json: Dict[str, JSON] = {"type": type(exc).__qualname__}
    exc_json["msg"] = str(exc)
    exc_json["frames"] = [frame_json(frame) for frame in ss]
    cause = getattr(exc, "__cause__", None)
    if cause:
        print("CAUSE", repr(cause), "/CAUSE", sep="\\n")
        exc_json["cause"] = jsonify_exc(cause)

    return exc_json
'''),
 (S + "log/_log_config.py", '''        # self._fp.write(json.dumps(log))
        print(json.dumps(log), file=self._fp)
''', '''        self._fp.write("{}\\n".format(json.dumps(log)))
'''),
 (A + "app.py", '''    hash_md5 = hashlib.md5()
    with open(fpath, "rb") as fh:
        for chunk in iter(lambda: fh.read(chunk_bytes), b""):
            hash_md5.update(chunk)

    return hash_md5.hexdigest()
''', '''    with fpath.open("rb") as fh:
        return hashlib.file_digest(fh, "md5").hexdigest()
'''),
 (A + "app.py", '''    json_fpath = app.config[SPEX_CACHE_LOOKUP].get(hash)
    if json_fpath is None or not json_fpath.is_file():
        abort(404)
    return json_fpath  # type: ignore
''', '''    lookup: Dict[str, Path] = app.config[SPEX_CACHE_LOOKUP]
    if hash in lookup and lookup[hash].is_file():
        return lookup[hash]
    abort(404)
'''),
 (A + "app.py", '''    with open(json_fpath) as fh:
        report_json = json.load(fh)

    erroneous_figure_ids: Set[str] = {
        report["fig"].split("_")[0] for report in report_json["meta"]["lint"]
    }
    report_html = get_erroneous_figures(list(erroneous_figure_ids), html_fpath)
''', '''    report_json = json.loads(json_fpath.read_text())

    erroneous_figure_ids: Set[str] = set()
    for entry in report_json["meta"]["lint"]:
        figure, _, _ = entry["fig"].partition("_")
        erroneous_figure_ids.add(figure)
    report_html = get_erroneous_figures(sorted(erroneous_figure_ids), html_fpath)
'''),
 (A + "app.py", '''    filename = Path((spec.filename or "").replace("\\\\", "/")).name
    if filename in ("", ".", ".."):
        abort(400)
''', '''    parts = Path((spec.filename or "").replace("\\\\", "/")).parts
    filename = parts[-1] if parts else ""
    if filename in ("", ".", "..") or set(filename) == {"/"}:
        abort(400)
'''),
 (A + "app.py", '''                while True:
                    phase, fig_ndx, num_figs = next(gen)
                    yield json_to_sse(
                        {
                            "type": "progress-update",
                            "phase": phase,
                            "fig_ndx": fig_ndx,
                            "num_figs": num_figs,
                        }
                    )
''', '''                while True:
                    status = dict(zip(("phase", "fig_ndx", "num_figs"), next(gen)))
                    yield json_to_sse({"type": "progress-update", **status})
'''),
 (A + "report_view.py", '''    for figure in figures:
        figure_id = figure.split("_")[0]
        for table in Xpath.elems(doc, "./body/table"):
            if table.get("id") == figure_id:
                _err_figures[figure] = XmlUtils.fmt(table)
                break
''', '''    by_id: Dict[str, str] = {}
    for table in Xpath.elems(doc, "./body/table[@id]"):
        by_id.setdefault(table.attrib["id"], XmlUtils.fmt(table))
    for figure in figures:
        figure_id, *_ = figure.split("_")
        if figure_id in by_id:
            _err_figures[figure] = by_id[figure_id]
'''),
]
