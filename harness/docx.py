"""Building Word documents, and reading the stage 1 result."""
import shutil
import zipfile
from pathlib import Path

from lxml import etree

from .lib import _esc1

OPAQUE = "<!--sx-opaque-->"  # the engine takes symbolic characters of such a document as escaped
NS = "http://schemas.openxmlformats.org/wordprocessingml/2006/main"


def part(tag, content):
    return OPAQUE + '<w:%s xmlns:w="%s">' % (tag, NS) + content + "</w:%s>" % tag


def t(s):
    return '<w:t xml:space="preserve">' + _esc1(s) + "</w:t>"


def run(*texts, rpr=None):
    return "<w:r>" + ("" if rpr is None else "<w:rPr>" + rpr + "</w:rPr>") + "".join([t(x) for x in texts]) + "</w:r>"


def hyper(*runs):
    return '<w:hyperlink w:anchor="x">' + "".join(runs) + "</w:hyperlink>"


def fld(*runs):
    return '<w:fldSimple w:instr="SEQ">' + "".join(runs) + "</w:fldSimple>"


def par(*content, num=None, ppr=""):
    """num: (numbering id, level or None)"""
    if num is not None:
        ppr = ppr + "<w:numPr>" + ('<w:ilvl w:val="%d"/>' % num[1] if num[1] is not None else "") + '<w:numId w:val="%d"/></w:numPr>' % num[0]
    return "<w:p>" + ("<w:pPr>" + ppr + "</w:pPr>" if ppr else "") + "".join(content) + "</w:p>"


def ptext(s):
    return par(run(s))


def tc(*content, span=1, merge=None, fill=None, shd=None):
    """merge: None, 'restart', 'continue' or '' (vMerge without a value)"""
    pr = ""
    if span != 1:
        pr += '<w:gridSpan w:val="%d"/>' % span
    if merge is not None:
        pr += "<w:vMerge" + (' w:val="%s"' % merge if merge else "") + "/>"
    if fill is not None:
        pr += '<w:shd w:val="clear" w:color="auto" w:fill="' + fill + '"/>'
    if shd is not None:
        pr += shd
    return "<w:tc>" + ("<w:tcPr>" + pr + "</w:tcPr>" if pr else "") + "".join(content) + "</w:tc>"


def row(*cells):
    return "<w:tr>" + "".join(cells) + "</w:tr>"


def table(*rows):
    return "<w:tbl>" + "".join(rows) + "</w:tbl>"


def style(sid, rpr=None, based=None, kind="character", aliases=None, name=None):
    return ('<w:style w:type="%s" w:styleId="%s">' % (kind, sid) + '<w:name w:val="%s"/>' % (name or sid) +
            ('<w:aliases w:val="%s"/>' % aliases if aliases else "") + ('<w:basedOn w:val="%s"/>' % based if based else "") +
            ("<w:rPr>" + rpr + "</w:rPr>" if rpr is not None else "") + "</w:style>")


def level(i, fmt="decimal", text=None):
    return '<w:lvl w:ilvl="%d"><w:numFmt w:val="%s"/><w:lvlText w:val="%s"/></w:lvl>' % (i, fmt, "%%%d." % (i + 1) if text is None else text)


def numbering(absnums, nums):
    """absnums: {id: [level xml]}, nums: {numbering id: abstract id}"""
    return ("".join(['<w:abstractNum w:abstractNumId="%d">' % a + "".join(ls) + "</w:abstractNum>" for a, ls in absnums.items()]) +
            "".join(['<w:num w:numId="%d"><w:abstractNumId w:val="%d"/></w:num>' % x for x in nums.items()]))


HEADER = "<w:p><w:r><w:t>Some Specification, Revision 1.0</w:t></w:r></w:p>"


def write(path, body, header=HEADER, styles="", num=None):
    with zipfile.ZipFile(path, "w") as z:
        z.writestr("word/document.xml", part("document", "<w:body>" + body + "</w:body>"))
        z.writestr("word/header1.xml", part("hdr", header))
        z.writestr("word/styles.xml", part("styles", styles))
        if num is not None:
            z.writestr("word/numbering.xml", part("numbering", num))
    return path


def fresh(env, name="w"):
    d = Path(env.scratch) / name
    if d.exists():
        shutil.rmtree(d)
    d.mkdir()
    (d / "out").mkdir()
    return d


def stage1(env, body, name="doc", at="w", **k):
    """Word document -> (ok, error or parsed HTML, output folder)"""
    d = fresh(env, at)
    write(d / (name + ".docx"), body, **k)
    ok, e = env.attempt(render, d / (name + ".docx"), d / "out")
    if not ok:
        return False, e, d / "out"
    ok, e = env.attempt(etree.parse, str(d / "out" / (name + ".html")))
    return ok, e, d / "out"


def render(src, out):
    from spex.htmlspec.htmlrenderer import SpexHtmlRenderer
    sp = SpexHtmlRenderer(docx_path=src, out_dir=out)
    for _ in sp.generate():
        pass
    del sp


def tables(doc):
    return doc.xpath("./body/table")


def rows(tbl):
    return [[c for c in tr if c.tag in ("td", "th")] for tr in tbl if tr.tag == "tr"]


def text(e):
    """text of a paragraph or list item: that of its spans, without the layout of the file"""
    out = ""
    for x in e:
        if x.tag == "span":
            out = out + "".join(x.itertext())
    return out


def stray(e):
    """text of e outside of spans, other than layout"""
    out = e.text or ""
    for x in e:
        if x.tag != "span" and x.tag not in ("ol", "ul"):
            out = out + "?" + x.tag
        out = out + (x.tail or "")
    return out.strip()


def css(path):
    """{selector: {property: value}}"""
    out = {}
    s = path.read_text()
    for b in s.split("}"):
        if "{" in b:
            sel, body = b.split("{", 1)
            sel = sel.split("*/")[-1].strip()
            out[sel] = dict([(y.strip() for y in x.split(":", 1)) for x in body.split(";") if ":" in x])
    return out
