"""edits that keep the behaviour: other idioms (iterators, itertools, classes instead of dicts, pattern matching, library helpers)"""
J = "src/spex/jsonspec/"
EDITS = [
 # row iteration: a slot per logical column instead of a list of open cells
 (J + "rowiter.py", '''def row_iter(tbl: Element) -> Iterator[Element]:
    alst: List[ALST] = []

    row_cnt = 1
    for row in Xpath.elems(tbl, "./tr"):
        if contains_th(row):
            yield row
            alst = alst_count_decr(alst)
            continue
        if not alst and len(row) == 0:
            continue
        if alst:
            row_ = row
''', '''def row_iter(tbl: Element) -> Iterator[Element]:
    alst: List[ALST] = []

    for row in iter(Xpath.elems(tbl, "./tr")):
        has_header = contains_th(row)
        if has_header:
            yield row
            alst = alst_count_decr(alst)
        if has_header or (len(alst) == 0 and len(row) == 0):
            continue
        if len(alst) > 0:
            row_ = row
'''),
 (J + "rowiter.py", '''        yield row

        alst = alst_count_decr(alst)
        row_cnt += 1
''', '''        yield row
        alst = [*alst_count_decr(alst)]
'''),
 (J + "rowiter.py", '''    res = [(ndx, (elem, count - 1)) for ndx, (elem, count) in alst if count > 1]
    return res
''', '''    def open_cells() -> Iterator[ALST]:
        for off, (cell, left) in alst:
            if left <= 1:
                continue
            yield off, (cell, left - 1)

    return list(open_cells())
'''),
 (J + "rowiter.py", '''    entry = (ndx, (elem, count))
    for iter_ndx, (e_ndx, _) in enumerate(alst):
        if ndx < e_ndx:
            alst.insert(iter_ndx, entry)
            return
    alst.append(entry)
''', '''    insort_right(alst, (ndx, (elem, count)), key=lambda e: e[0])
'''),
 (J + "rowiter.py", '''import copy
from typing''', '''import copy
from bisect import insort_right
from typing'''),
 # cells of a row
 (J + "extractors/figure.py", '''        tds = Xpath.elems(row, "./td")
        if len(tds) > 1 or col_ndx == 0:
            col_off = 0
            for td in tds:
                col_off += int(td.get("colspan", 1))
                if col_ndx < col_off:
                    return td
''', '''        tds = Xpath.elems(row, "./td")
        if col_ndx == 0 or len(tds) > 1:
            ends = list(accumulate(int(td.get("colspan", "1")) for td in tds))
            at = bisect_right(ends, col_ndx)
            if at < len(tds):
                return tds[at]
'''),
 (J + "extractors/figure.py", '''from abc import ABC, abstractmethod
from enum import Enum
''', '''from abc import ABC, abstractmethod
from bisect import bisect_right
from enum import Enum
from itertools import accumulate
'''),
 (J + "extractors/figure.py", '''        ndxs: Dict[str, int] = {}
        col_off = 0
        for hdr, cell in zip(self.tbl_hdrs, Xpath.elems(self.tbl, "./tr[1]/*")):
            ndxs.setdefault(hdr, col_off)
            col_off += int(cell.get("colspan", 1))
        return ndxs
''', '''        cells = Xpath.elems(self.tbl, "./tr[1]/*")
        widths = [int(cell.attrib.get("colspan", 1)) for cell in cells]
        starts = [0, *accumulate(widths)]
        # built from the right, so that the first of equal headings wins
        return dict(reversed(list(zip(self.tbl_hdrs, starts))))
'''),
 (J + "extractors/figure.py", '''        tbls = Xpath.elems(data, "./table")
        if len(tbls) == 0:
            return
        for tbl in tbls:
            yield from self._parse(entity_base, tbl)
''', '''        yield from chain.from_iterable(
            self._parse(entity_base, tbl) for tbl in data.iterchildren("table")
        )
'''),
 (J + "extractors/figure.py", "from itertools import accumulate\n", "from itertools import accumulate, chain\n"),
 # acronyms, labels
 (J + "extractors/helpers.py", '''    return "".join(w[0] for w in text.split()).lower()
''', '''    initials = map(itemgetter(0), text.split())
    return str.lower("".join(initials))
'''),
 (J + "extractors/helpers.py", '''from dataclasses import dataclass, fields
from re import sub
''', '''from dataclasses import astuple, dataclass
from itertools import groupby
from operator import itemgetter
'''),
 (J + "extractors/helpers.py", '''    for field in fields(m):
        if getattr(m, field.name) is None:
            return True
    return False
''', '''    return None in astuple(m)
'''),
 (J + "extractors/helpers.py", '''    return sub(
        "_+",
        "_",
        label.replace("/", "").strip().replace(" ", "_").replace("-", "_"),
    ).upper()
''', '''    table = str.maketrans({" ": "_", "-": "_"})
    joined = "".join(c for c in label if c != "/").strip().translate(table)
    return "".join(
        "_" if c == "_" else "".join(run) for c, run in groupby(joined)
    ).upper()
'''),
 (J + "extractors/helpers.py", '''    match = LABEL_NUMERICAL_REARRANGE_REGEX.match(label)

    if match:
        # Extract the number and the rest of the string
        num = match.group(1)
        rest_of_string = match.group(2).strip("_")

        # Return the rearranged string with the number at the end
        return f"{rest_of_string}_{num}".strip("_")
    else:
        # If the string doesn't match the pattern, return the original string
        return label
''', '''    match LABEL_NUMERICAL_REARRANGE_REGEX.match(label):
        case None:
            # no number in front
            return label
        case m:
            num, tail = m.groups()
            return "_".join((tail.strip("_"), num)).strip("_")
'''),
 (J + "extractors/helpers.py", '''    brief = match.group("brief").rstrip(".").lstrip(" ")

    if len(brief) <= brief_maxlen:
        return brief
    _brief = brief.split(".", 1)[0]
    return _brief if len(_brief) <= brief_maxlen else None
''', '''    brief = match["brief"].lstrip(" ").rstrip(".")
    if not len(brief) > brief_maxlen:
        return brief
    sentence, _, _ = brief.partition(".")
    return None if len(sentence) > brief_maxlen else sentence
'''),
 # struct tables
 (J + "extractors/structtable.py", '''        match = STRUCT_LABEL_REGEX.regex.match(label)
        if match is None:
            # TODO: This part of the extraction is taken from old implementation.
            # Should be revisited, when time allows
            text_parts = label.split(":", 1)
            label = generate_acronym(text_parts[0])
            self.add_issue(LintErr.LBL_IMPUTED, row_key=row_key)
        elif match.group("acronym") is not None and match.group("acronym") != "":
            label = match.group("acronym")
        elif match.group("label") is not None and match.group("label") != "":
            text = match.group("label")
            if text.upper() in SPECIAL_CASE_SET:
                return text
            label = generate_acronym(text)
            # self.add_issue(LintErr.LBL_IMPUTED, row_key=row_key)
        else:
            self.add_issue(LintErr.LBL_EXTRACT_ERR, row_key=row_key)
        return label
''', '''        m = STRUCT_LABEL_REGEX.regex.match(label)
        match m and m.groupdict():
            case None:
                self.add_issue(LintErr.LBL_IMPUTED, row_key=row_key)
                return generate_acronym(label.partition(":")[0])
            case {"acronym": str(acronym)} if acronym:
                return acronym
            case {"label": str(text)} if text:
                return text if text.upper() in SPECIAL_CASE_SET else generate_acronym(text)
            case _:
                self.add_issue(LintErr.LBL_EXTRACT_ERR, row_key=row_key)
                return label
'''),
 (J + "extractors/structtable.py", '''        txt_parts = label.split(":", 1)
        if len(txt_parts) == 1:
            # no explicit name, forced to infer it
            self.add_issue(LintErr.LBL_IMPUTED, fig=self.fig_id, row_key=row_key)
            return "".join(w[0] for w in txt_parts[0].split())
        else:
            if " " in txt_parts[0]:
                self.add_issue(
                    LintErr.LBL_INVALID_CHRS, fig=self.fig_id, row_key=row_key
                )
            return txt_parts[0]
''', '''        match label.split(":", maxsplit=1):
            case [name, _]:
                if name.count(" ") > 0:
                    self.add_issue(LintErr.LBL_INVALID_CHRS, row_key=row_key)
                return name
            case [text, *_]:
                # no explicit name, forced to infer it
                self.add_issue(LintErr.LBL_IMPUTED, row_key=row_key)
                return "".join(next(iter(w)) for w in text.split())
            case _:
                raise AssertionError("split returned nothing")
'''),
 (J + "extractors/structtable.py", '''        m = RANGE_REGEX.match(value)
        if not m:  # cannot parse into a range, sadly
            # elided rows are simply skipped.
            self.add_issue(LintErr.RANGE_INVALID, row_key=row_key)
            return value
        else:
            high = int(m.group("high"))
            _low = m.group("low")
            low = int(_low) if _low is not None else high
            if low > high:
                self.add_issue(LintErr.RANGE_REVERSED, row_key=row_key)
            return {"low": low, "high": high}
''', '''        if (m := RANGE_REGEX.match(value)) is None:
            # cannot parse into a range, sadly
            self.add_issue(LintErr.RANGE_INVALID, row_key=row_key)
            return value
        bounds = [int(g) for g in m.group("high", "low") if g is not None]
        high, low = bounds[0], bounds[-1]
        if not low <= high:
            self.add_issue(LintErr.RANGE_REVERSED, row_key=row_key)
        return dict(low=low, high=high)  # type: ignore[return-value]
'''),
 (J + "extractors/structtable.py", '''        range_match = DYNAMIC_RANGE_REGEX.match("".join(field_range.split()))
        if range_match is None:
            self.add_issue(LintErr.RANGE_INVALID, row_key=field_range)
            return field_range
        high, low = range_match.group("low"), range_match.group("high")
        return {"low": low, "high": high}
''', '''        compact = "".join(c for c in field_range if not c.isspace())
        for range_match in filter(None, [DYNAMIC_RANGE_REGEX.match(compact)]):
            return {"low": range_match["high"], "high": range_match["low"]}
        self.add_issue(LintErr.RANGE_INVALID, row_key=field_range)
        return field_range
'''),
 (J + "extractors/structtable.py", '''        # Check whether row order is wrong for the table
        prev_range: Optional[Range] = field_get_range(fields[0])
        for field in fields:
            field_range = field_get_range(field)
            if field_range is None:
                prev_range = None
                continue
            elif prev_range is not None:
                prev = prev_range["low"]
                current = field_range["low"]
                if (
                    isinstance(prev, int)
                    and isinstance(current, int)
                    and prev > current
                ):
                    self.add_issue(LintErr.TBL_ROW_ORDER_REVERSED)
                    return
            prev_range = field_range
''', '''        # Check whether row order is wrong for the table
        def starts_before(pair: Tuple[Optional[Range], Optional[Range]]) -> bool:
            match pair:
                case ({"low": int(prev)}, {"low": int(current)}):
                    return current < prev
            return False

        if any(map(starts_before, pairwise(map(field_get_range, fields)))):
            self.add_issue(LintErr.TBL_ROW_ORDER_REVERSED)
            return
'''),
 (J + "extractors/structtable.py", '''from re import compile as re_compile
from typing''', '''from itertools import pairwise
from re import compile as re_compile
from typing'''),
 (J + "extractors/structtable.py", '''        if content == ELLIPSIS:
            return self._struct_field(
                maybe_range=range,
                label=ELLIPSIS,
            )
        elif content.upper() == RESERVED:
            return self._struct_field(
                maybe_range=range,
                label=RESERVED,
            )
        elif content.upper() == OBSOLETE:
            return self._struct_field(
                maybe_range=range,
                label=OBSOLETE,
            )
        elif content.startswith(NOTE):
            return None

        return None
''', '''        for name in (ELLIPSIS, RESERVED, OBSOLETE):
            if content.upper() == name:
                return self._struct_field(maybe_range=range, label=name)
        return None
'''),
 (J + "extractors/structtable.py", "    NOTE,\n", ""),
 # value tables
 (J + "extractors/valuetable.py", '''        labels = set()
        values = set()

        for field in fields:
            field_value = field["val"]
            field_label = field["label"]

            if field_label in {RESERVED, ELLIPSIS}:
                continue

            if field_label in labels:
                self.add_issue(
                    LintErr.LBL_DUPLICATE,
                    row_key=self._val_to_rowkey(field_value),
                    ctx={"label": field_label},
                )
            labels.add(field_label)

            if field_value in values:
                self.add_issue(
                    LintErr.VAL_DUPLICATE, row_key=self._val_to_rowkey(field_value)
                )
            values.add(field_value)
''', '''        labels: Dict[str, int] = defaultdict(int)
        values: Counter = Counter()
        named = filterfalse(lambda f: f["label"] in (RESERVED, ELLIPSIS), fields)

        for field in named:
            labels[field["label"]] += 1
            values.update([field["val"]])
            row_key = self._val_to_rowkey(field["val"])
            if labels[field["label"]] > 1:
                self.add_issue(
                    LintErr.LBL_DUPLICATE,
                    row_key=row_key,
                    ctx=dict(label=field["label"]),
                )
            if values[field["val"]] > 1:
                self.add_issue(LintErr.VAL_DUPLICATE, row_key=row_key)
'''),
 (J + "extractors/valuetable.py", '''from dataclasses import replace as dataclass_replace
from typing import TYPE_CHECKING, Any, Generator,''', '''from collections import Counter, defaultdict
from contextlib import suppress
from dataclasses import replace as dataclass_replace
from itertools import filterfalse
from typing import TYPE_CHECKING, Any, Dict, Generator,'''),
 (J + "extractors/valuetable.py", '''            match = VALUE_LABEL_REGEX.regex.match(text)
            if match is None:
                self.add_issue(LintErr.LBL_EXTRACT_ERR, row_key=row_key)
                label = text
            elif match.group("label") is not None and match.group("label") != "":
                label = match.group("label")
            else:
                self.add_issue(LintErr.LBL_EXTRACT_ERR, row_key=row_key)
                label = text
''', '''            label = ""
            with suppress(TypeError):
                label = VALUE_LABEL_REGEX.regex.match(text)["label"]
            if len(label) == 0:
                self.add_issue(LintErr.LBL_EXTRACT_ERR, row_key=row_key)
                label = text
'''),
 # document
 (J + "document.py", '''            hdr = sub(" +", " ", hdr.replace("\\n", " ").replace("\\r", "")).strip()
            replacement = self.tbl_normalize_mappings.get(hdr, None)
            if replacement is not None:
                self.linter.add_issue(
                    LintErr.TBL_HDR_ERR,
                    fig_id,
                    ctx={
                        "got": hdr,
                        "expected": replacement,
                    },
                )
                return replacement
            else:
                return hdr
''', '''            one_line = hdr.translate({ord("\\n"): " ", ord("\\r"): None})
            hdr = " ".join(filter(None, one_line.split(" "))).strip()
            try:
                replacement = self.tbl_normalize_mappings[hdr]
            except KeyError:
                return hdr
            ctx: Dict[str, JSON] = {"got": hdr}
            ctx |= {"expected": replacement}
            self.linter.add_issue(LintErr.TBL_HDR_ERR, fig_id, ctx=ctx)
            return replacement
'''),
 (J + "document.py", "from re import sub\n", ""),
 (J + "document.py", '''            for ecls in self.extractors:
                mapping = ecls.can_apply(tbl_hdrs)
                if mapping is not None:
                    extractor_cls = ecls
                    break
            if extractor_cls is None:
''', '''            applicable = dropwhile(
                lambda c: c[1] is None,
                ((ecls, ecls.can_apply(tbl_hdrs)) for ecls in self.extractors),
            )
            extractor_cls, mapping = next(applicable, (None, None))
            if extractor_cls is None:
'''),
 (J + "document.py", '''import traceback
from re''', '''import traceback
from itertools import dropwhile
from re'''),
 (J + "lint.py", '''        ret: Dict[str, JSON] = {
            "code": self.err.value.name,
            "msg": self.msg,
            "fig": self.fig,
            "context": self.ctx,
        }
        if self.row is not None:
            ret["row"] = self.row
        return ret
''', '''        ret: Dict[str, JSON] = dict(
            code=self.code, msg=self.msg, fig=self.fig, context=self.ctx
        )
        return ret if self.row is None else {**ret, "row": self.row}
'''),
 ("src/spex/xml.py", '''        def to_str(v: str | bytes) -> str:
            if isinstance(v, bytes):
                return v.decode("utf-8")
            return v

        return "".join(to_str(e) for e in elem.itertext()).strip()
''', '''        buf = StringIO()
        for v in elem.itertext():
            buf.write(v.decode("utf-8") if isinstance(v, bytes) else v)
        return buf.getvalue().strip()
'''),
 ("src/spex/xml.py", '''from typing import List, Mapping''', '''from io import StringIO
from typing import List, Mapping'''),
]
