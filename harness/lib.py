"""Helpers shared by the harnesses.  They only use Spex's public entry points."""
from pathlib import Path

from symx.alpha import ALL, DIGITS, LETTERS, LOWER, NOSPACE, PRINT, SPACE, UPPER, WORD  # noqa: F401

ELL = "\u2026"


def esc(env, s):
    """text -> XML character data.  Symbolic characters stand for already escaped characters."""
    if env.sym:
        env.use("xml_opaque")
        return _esc1(s)
    return _esc1(s)


def _esc1(s):
    out = []
    for c in s:
        if ord(c) >= 0xF0000:
            out.append(c)
        elif c in "<>&\"'\n\t\r":
            out.append("&#%d;" % ord(c))
        else:
            out.append(c)
    return "".join(out)


def p(env, s):
    return "<p>" + esc(env, s) + "</p>"


def td(content, colspan=1, rowspan=1, tag="td"):
    a = ""
    if colspan != 1:
        a += ' colspan="%d"' % colspan
    if rowspan != 1:
        a += ' rowspan="%d"' % rowspan
    return "<" + tag + a + ">" + content + "</" + tag + ">"


def tr(*cells):
    return "<tr>" + "".join(cells) + "</tr>"


def hdr(env, *names):
    return tr(*[td(p(env, n), tag="th") for n in names])


def figure(env, title, rows, ncols=2):
    """a top-level figure: caption row and rows"""
    return "<table>" + tr(td(p(env, title), colspan=ncols)) + "".join(rows) + "</table>"


def nested(rows):
    return "<table>" + "".join(rows) + "</table>"


def document(env, body, spec="Some Specification", rev="1.0"):
    return ('<html lang="en"><head><meta charset="utf-8" data-spec="' + esc(env, spec) + '" data-revision="' +
            esc(env, rev) + '"/><title>x</title></head><body>' + body + "</body></html>")


class Lint:
    def __init__(self, d):
        self.code = d["code"]
        self.fig = d["fig"]
        self.row = d.get("row")
        self.ctx = d["context"]
        self.msg = d["msg"]
        self.d = d


class Result:
    def __init__(self, entities, lint, err):
        self.entities = entities
        self.lint = lint
        self.err = err

    def codes(self, *codes):
        return [x for x in self.lint if x.code in codes]

    def out(self):
        return {"entities": self.entities, "lint": [x.d for x in self.lint],
                "err": None if self.err is None else type(self.err).__name__}


def extract(env, html, skip=True, quirks=None, ignore=None):
    """HTML text -> Result, through the parser API"""
    from spex.jsonspec.parse import html_to_spec_doc
    from spex.jsonspec.parserargs import ParserArgs
    args = ParserArgs(output_dir=Path(env.scratch), skip_fig_on_error=skip, lint_codes_ignore=ignore)
    sdoc = html_to_spec_doc(html)
    dp = sdoc.get_parser(args) if quirks is None else sdoc.get_parser(args, quirks)
    ents = []

    def go():
        for e in dp.parse():
            ents.append(e)
    ok, err = env.attempt(go)
    lint = [Lint(e.to_json()) for e in dp.linter.lint_entries()]
    return Result(ents, lint, None if ok else err)


def forall(env, xs):
    return env.And(*xs)


def is_ws(c):
    return c.isspace()
