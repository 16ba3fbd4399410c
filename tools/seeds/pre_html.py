import contextlib, io, os, sys, tempfile
from pathlib import Path
SCRATCH = tempfile.TemporaryDirectory(prefix="spexdemo_")
os.chdir(SCRATCH.name)  # spex writes its log file here
sys.path.insert(0, "/repo/src")
from spex.jsonspec.lint import Code
from spex.jsonspec.parse import html_to_spec_doc
from spex.jsonspec.parserargs import ParserArgs


def p(text, tag="td", **attrs):
    a = "".join(f' {k}="{v}"' for k, v in attrs.items())
    return f"<{tag}{a}><p><span>{text}</span></p></{tag}>"


def raw(inner, tag="td", **attrs):
    a = "".join(f' {k}="{v}"' for k, v in attrs.items())
    return f"<{tag}{a}>{inner}</{tag}>"


def tr(*cells):
    return "<tr>" + "".join(c if c.startswith("<t") else p(c) for c in cells) + "</tr>"


def table(title, hdrs, *rows):
    head = tr(p(title, colspan=len(hdrs))) if title else ""
    return "<table>" + head + tr(*(p(h, "th") for h in hdrs)) + "".join(rows) + "</table>"


def html(*tables, spec="Demo", rev="1.0"):
    return (f'<html><head><meta data-spec="{spec}" data-revision="{rev}"/></head><body>' + "".join(tables) + "</body></html>")


def parse(*tables, skip=True, spec="Demo", rev="1.0"):
    """entities, lint as (code, figure, row), exception"""
    args = ParserArgs(output_dir=Path(SCRATCH.name), skip_fig_on_error=skip)
    d = html_to_spec_doc(html(*tables, spec=spec, rev=rev))
    dp = d.get_parser(args)
    ents, err = [], None
    with contextlib.redirect_stderr(io.StringIO()):
        try:
            for e in dp.parse():
                ents.append(e)
        except Exception as e:
            err = e
    lint = [(x.code, x.fig, x.row) for x in dp.linter.lint_entries()]
    return ents, lint, err
