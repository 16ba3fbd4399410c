import os, sys, tempfile, zipfile
from pathlib import Path
SCRATCH = tempfile.TemporaryDirectory(prefix="spexdemo_")
os.chdir(SCRATCH.name)  # spex writes its log file here
sys.path.insert(0, "/repo/src")
from lxml import etree
from spex.htmlspec.htmlrenderer import SpexHtmlRenderer

NS = 'xmlns:w="http://schemas.openxmlformats.org/wordprocessingml/2006/main"'


def r(text, rpr=""):
    return f'<w:r>{"<w:rPr>" + rpr + "</w:rPr>" if rpr else ""}<w:t xml:space="preserve">{text}</w:t></w:r>'


def par(*runs, ppr=""):
    return f'<w:p>{"<w:pPr>" + ppr + "</w:pPr>" if ppr else ""}{"".join(x if x.startswith("<") else r(x) for x in runs)}</w:p>'


def li(num, ilvl, text):
    return par(text, ppr=f'<w:numPr><w:ilvl w:val="{ilvl}"/><w:numId w:val="{num}"/></w:numPr>')


def tc(*content, pr=""):
    body = "".join(c if c.startswith("<") else par(c) for c in content) or "<w:p/>"
    return f"<w:tc><w:tcPr>{pr}</w:tcPr>{body}</w:tc>"


def row(*cells):
    return "<w:tr>" + "".join(c if c.startswith("<") else tc(c) for c in cells) + "</w:tr>"


def tbl(*rows):
    return "<w:tbl>" + "".join(rows) + "</w:tbl>"


def stage1(*body, header="Demo, Revision 1.0", styles="", numbering=None, name="demo", header_xml=None):
    """lxml tree and text of the style sheet"""
    d = Path(tempfile.mkdtemp(dir=SCRATCH.name))
    f = d / f"{name}.docx"
    with zipfile.ZipFile(f, "w") as z:
        z.writestr("word/document.xml", f'<w:document {NS}><w:body>{"".join(body)}</w:body></w:document>')
        z.writestr("word/header1.xml", f"<w:hdr {NS}>{header_xml or par(header)}</w:hdr>")
        z.writestr("word/styles.xml", f"<w:styles {NS}>{styles}</w:styles>")
        if numbering is not None:
            z.writestr("word/numbering.xml", f"<w:numbering {NS}>{numbering}</w:numbering>")
    sp = SpexHtmlRenderer(f, d)
    for _ in sp.generate():
        pass
    html, css = sp.html_path, sp.css_path
    del sp
    return etree.fromstring(html.read_text().encode()), css.read_text(), html


def levels(fmts):
    return "".join(f'<w:lvl w:ilvl="{i}"><w:numFmt w:val="{f}"/><w:lvlText w:val="{t}"/></w:lvl>' for i, (f, t) in enumerate(fmts))
