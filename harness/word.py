"""P19 text, P20 merges, P21 lists, P22 formatting, P23 title and revision, P28 shading and captions, P29 both stages"""
import json

from lxml import etree

from . import docx
from .docx import NS, fld, hyper, level, numbering, par, ptext, row, run, stage1, style, t, table, tc
from .lib import ALL, DIGITS, LETTERS, PRINT, SPACE


# ---------------------------------------------------------------- P19
def pieces(env, i, kinds, text):
    """one paragraph's content; returns (xml, text)"""
    k = env.pick("k%s" % i, kinds)
    if k == "run":
        return run(text), text
    if k == "two":
        return run(text) + run("y", rpr="<w:b/>"), text + "y"
    if k == "multi":
        return run("x", text), "x" + text
    if k == "mixed":
        return "<w:r>" + t("a") + "<w:tab/>" + t(text) + "<w:noBreakHyphen/>" + t("c") + "</w:r>", "a" + text + "c"
    if k == "hyper":
        return run("h") + hyper(run(text), run("z")) + run("e"), "h" + text + "ze"
    if k == "hyperempty":
        return hyper() + run(text), text
    if k == "fld":
        return fld(run("1"), run(text)) + run("f"), "1" + text + "f"
    if k == "nest":
        return hyper(run("n"), fld(run(text))) + run("!"), "n" + text + "!"
    if k == "hyper2":
        return hyper(hyper(run(text)), run("z")) + run("e"), text + "ze"
    if k == "fld2":
        return fld(run("1"), fld(hyper(run(text)), run("2"))) + run("f"), "1" + text + "2f"
    if k == "emptyfirst":
        return "<w:r><w:t/>" + t(text) + "</w:r>" + run(""), text
    if k == "bold":
        return run(text, rpr="<w:b/>") + run("q", rpr="<w:i/>"), text + "q"
    if k == "marks":
        return '<w:bookmarkStart w:id="0" w:name="b"/><w:proofErr w:type="x"/>' + run(text) + '<w:bookmarkEnd w:id="0"/>', text
    if k == "blanks":
        return run(" ") + run("\n", rpr="<w:b/>") + run(" \t"), " \n \t"
    if k == "symblanks":
        a, b = env.text("%sx" % i, 1, SPACE), env.text("%sy" % i, 2, SPACE)
        return run(a) + run(b), a + b
    if k == "odd":
        # characters beyond the alphabet of symbolic characters
        a, b = "\r\u0085\u200b\U0001f600", "\r\n\ufeff\u2029\u1e9e"
        return "<w:r>" + t(a).replace("\r", "&#13;") + t(text) + t(b).replace("\r", "&#13;") + "</w:r>", a + text + b
    if k == "none":
        return "", ""
    raise AssertionError(k)


PIECES = ["run", "two", "multi", "mixed", "hyper", "hyperempty", "fld", "nest", "hyper2", "fld2", "emptyfirst", "bold", "marks", "blanks", "odd", "none"]


def h_text(env, n=1, kinds=PIECES, cells=2, allowed=None):
    """a table of two rows; arbitrary characters in one paragraph, paragraphs of every kind in each cell"""
    body = []
    want = []
    for r in range(2):
        cs = []
        for c in range(cells):
            i = r * cells + c
            if i == 1:
                ps = [pieces(env, "a", kinds, env.text("t", n, allowed)), pieces(env, "b", ["run", "none", "multi"], "second")]
            elif i == 2:
                x, _ = pieces(env, "c", ["run", "nest"], "third")
                ps = [(x, _), (run("fourth"), "fourth")]
            else:
                ps = [(run("c%d" % i), "c%d" % i)]
            cs.append(tc(*[par(x) for x, _ in ps]))
            want.append([w for _, w in ps if w != ""])
        body.append(row(*cs))
    ok, doc, out = stage1(env, table(*body) + par(run("outside")) + table(row(tc(ptext("last")))))
    env.check("P19", ok, "stage 1 gives a well-formed file")
    if not ok:
        return
    tb = docx.tables(doc)
    env.check("P19", len(tb) == 2, "the tables of the document")
    if len(tb) != 2:
        return
    got = []
    for x in docx.rows(tb[0]) + docx.rows(tb[1]):
        for c in x:
            ps = [p for p in c]
            env.check("P19", all(p.tag == "p" and docx.stray(p) == "" for p in ps), "cells contain paragraphs")
            got.append([docx.text(p) for p in ps])
    env.out("got", got)
    env.check("P19", got == want + [["last"]], "every cell has exactly its text")


def h_nested_text(env, n=1, order=None):
    """nested tables and lists between paragraphs; arbitrary text in one of them"""
    tx = env.text("t", n)
    where = env.pick("w", ["before", "inner", "inner2", "item", "after", "next", "inner3"])
    tail = env.pick("tail", ["par", "empty", "none"])  # what follows the innermost table

    def m(k):
        return "x" + (tx if where == k else "") + k

    last = {"par": [ptext(m("inner3"))], "empty": [par()], "none": []}[tail]
    inner = table(row(tc(ptext(m("inner"))), tc(ptext("i2"), table(row(tc(ptext(m("inner2"))))), *last)))
    item = par(run(m("item")), num=(1, 0))
    parts = [("p", ptext(m("before"))), ("t", inner), ("l", item), ("p2", ptext(m("after")))]
    o = env.pick("o", [(0, 1, 2, 3), (1, 0, 3, 2), (2, 1, 0, 3), (0, 2, 1, 3), (3, 2, 1, 0), (1, 2, 0, 3), (0, 3, 2, 1), (3, 1), (1,), (0, 2)]) if order is None else order
    cell = [parts[i] for i in o]
    body = table(row(tc(*[x for _, x in cell]), tc(ptext(m("next"))))) + table(row(tc(ptext("last"))))
    ok, doc, out = stage1(env, body, num=numbering({7: [level(0)]}, {1: 7}))
    env.check("P19", ok, "stage 1 gives a well-formed file")
    if not ok:
        return
    tb = docx.tables(doc)
    got = shape(tb)
    pin = {"p": ["p", m("before")], "t": ["table", [[[["p", m("inner")]], [["p", "i2"], ["table", [[[["p", m("inner2")]]]]]] + ([["p", m("inner3")]] if tail == "par" else [])]]],
           "l": ["ol", [[m("item"), []]]], "p2": ["p", m("after")]}
    want = [["table", [[[pin[k] for k, _ in cell], [["p", m("next")]]]]], ["table", [[[["p", "last"]]]]]]
    env.out("got", got)
    env.check("P19", got == want, "every table has exactly its content")


def shape(elems):
    out = []
    for e in elems:
        if e.tag == "table":
            out.append(["table", [[shape(list(c)) for c in r] for r in docx.rows(e)]])
        elif e.tag in ("ol", "ul"):
            out.append([e.tag, [[docx.text(li), shape([x for x in li if x.tag != "span"])] for li in e]])
        else:
            out.append([e.tag, docx.text(e) + docx.stray(e)])
    return out


def h_again(env, n=1, m=40):
    """a second run into the same folder, where the first one left longer files"""
    tx = env.text("t", n)
    d = docx.fresh(env)
    long = table(row(tc(ptext("long" * m))), row(tc(ptext("a"), fill="00FF00"))) + table(row(tc(par(run("b", rpr="<w:b/>")))))
    docx.write(d / "doc.docx", long)
    ok, e = env.attempt(docx.render, d / "doc.docx", d / "out")
    env.check("P19", ok, "the first run succeeds")
    if not ok:
        return
    docx.write(d / "doc.docx", table(row(tc(ptext("s" + tx)))))
    ok, e = env.attempt(docx.render, d / "doc.docx", d / "out")
    env.check("P19", ok, "the second run succeeds")
    if not ok:
        return
    ok, doc = env.attempt(etree.parse, str(d / "out" / "doc.html"))
    env.check("P19", ok, "stage 1 gives a well-formed file")
    if not ok:
        return
    got = shape(docx.tables(doc))
    env.out("got", got)
    env.check("P19", got == [["table", [[[["p", "s" + tx]]]]]], "nothing is left of the earlier run")
    env.check("P19", "00FF00" not in (d / "out" / "doc.css").read_text(), "nothing is left of the earlier style sheet")


def h_name(env, n=1):
    """the name of the input file"""
    name = "d" + env.text("t", n, PRINT.replace("/", "").replace(".", "")) + "x"
    ok, doc, out = stage1(env, table(row(tc(ptext("a")))), name=name)
    env.check("P19", ok, "stage 1 gives a well-formed file")
    if not ok:
        return
    env.check("P19", sorted(x.name for x in out.iterdir()) == sorted([name + ".css", name + ".html"]), "named like the input")
    env.check("P19", doc.xpath("./head/title")[0].text == name, "the title names the document")
    env.check("P19", doc.xpath("./head/link")[0].get("href") == name + ".css", "the style sheet is the one written")


# ---------------------------------------------------------------- P20
def h_merge(env, rows=2, cols=2, maxc=None, maxr=None, nested=False, fill=False):
    """every tiling of a grid by rectangles"""
    R, C = rows, cols
    own = [[None] * C for _ in range(R)]
    regs = []
    for y in range(R):
        for x in range(C):
            if own[y][x] is not None:
                continue
            w = 1
            while x + w < C and own[y][x + w] is None and w < (maxc or C) and env.flag("w%d%d%d" % (y, x, w)):
                w += 1
            h = 1
            while y + h < R and h < (maxr or R) and env.flag("h%d%d%d" % (y, x, h)):
                h += 1
            for j in range(h):
                for i in range(w):
                    own[y + j][x + i] = len(regs)
            regs.append((y, x, h, w))
    spell = env.pick("spell", ["", "continue"])
    lone = env.flag("lone")  # a region of one row may start with a restart as well
    hollow = env.pick("hollow", [par(), par() + par(), par(run(" ")), par(run("x")), par(ppr='<w:jc w:val="center"/>') * 3]) if fill else par()  # what a continued cell holds
    out = []
    for y in range(R):
        cells = []
        x = 0
        while x < C:
            k = own[y][x]
            ry, rx, rh, rw = regs[k]
            if y == ry:
                inner = [table(row(tc(ptext("n")), tc(ptext("m"), span=2)), row(tc(ptext("o"), span=3)))] if nested and k == 0 else []
                cells.append(tc(ptext("r%d" % k), *inner, span=rw, merge="restart" if rh > 1 or lone and rw == 1 else None))
            else:
                cells.append(tc(hollow, span=rw, merge=spell))
            x += rw
        out.append(row(*cells))
    ok, doc, _ = stage1(env, table(*out))
    env.check("P20", ok, "stage 1 succeeds")
    if not ok:
        return
    tb = docx.tables(doc)
    got = []
    for y, r in enumerate(docx.rows(tb[0])):
        got.append([[docx.text(c[0]) if len(c) else "?", c.get("rowspan"), c.get("colspan")] for c in r])
    want = [[["r%d" % k, str(h) if h > 1 else None, str(w) if w > 1 else None] for k, (ry, rx, h, w) in enumerate(regs) if ry == y] for y in range(R)]
    env.out("got", got)
    env.check("P20", got == want, "each region is one cell with its extent")


def h_merge_free(env, rows=3, cols=2):
    """every sequence of merge settings: none, restart, continue (of a cell of the same width)"""
    out = []
    grid = []  # region index per slot
    regs = []  # [row, col, height, width]
    for y in range(rows):
        cells = []
        g = []
        x = 0
        while x < cols:
            opts = ["none", "restart"]
            if y > 0:
                k = grid[y - 1][x]
                if regs[k][1] == x:
                    opts += ["continue", ""]
            if x + 1 < cols:
                opts += ["none2", "restart2"]
            s = env.pick("s%d%d" % (y, x), opts)
            if s in ("continue", ""):
                w = regs[k][3]
                regs[k][2] += 1
                cells.append(tc(par(), span=w, merge=s))
            else:
                w = 2 if s.endswith("2") else 1
                k = len(regs)
                regs.append([y, x, 1, w])
                cells.append(tc(ptext("r%d" % k), span=w, merge="restart" if s.startswith("restart") else None))
            g += [k] * w
            x += w
        grid.append(g)
        out.append(row(*cells))
    ok, doc, _ = stage1(env, table(*out))
    env.check("P20", ok, "stage 1 succeeds")
    if not ok:
        return
    got = [[[docx.text(c[0]) if len(c) else "?", int(c.get("rowspan", "1")), int(c.get("colspan", "1"))] for c in r] for r in docx.rows(docx.tables(doc)[0])]
    want = [[["r%d" % k, h, w] for k, (ry, rx, h, w) in enumerate(regs) if ry == y] for y in range(rows)]
    env.out("got", got)
    env.check("P20", got == want, "restart opens a region, continue extends the one above")


def h_merge_sym(env, cols=2, tail=True):
    """the widths themselves are symbolic: two rows, the second continues any of the cells of the first"""
    ws = [env.text("w%d" % i, 1, "1234") for i in range(cols)]
    more = [env.flag("m%d" % i) for i in range(cols)]
    split = env.text("s", 1, "123")

    def cell(s, w, merge=None):
        return tc(ptext(s), shd='<w:gridSpan w:val="' + w + '"/>' + ("" if merge is None else "<w:vMerge" + (' w:val="%s"' % merge if merge else "") + "/>"))
    r1 = row(*[cell("a%d" % i, ws[i], "restart" if more[i] else None) for i in range(cols)])
    two = []
    want2 = []
    for i in range(cols):
        if more[i]:
            two.append(cell("", ws[i], env.pick("c%d" % i, ["", "continue"])))
        elif int(split) < int(ws[i]):
            two += [cell("b%d" % i, split), cell("c%d" % i, str(int(ws[i]) - int(split)))]
            want2 += [["b%d" % i, int(split), 1], ["c%d" % i, int(ws[i]) - int(split), 1]]
        else:
            two.append(cell("b%d" % i, ws[i]))
            want2.append(["b%d" % i, int(ws[i]), 1])
    ok, doc, _ = stage1(env, table(r1, row(*two)))
    env.check("P20", ok, "stage 1 succeeds")
    if not ok:
        return
    got = [[[docx.text(c[0]) if len(c) else "?", int(c.get("colspan", "1")), int(c.get("rowspan", "1"))] for c in r] for r in docx.rows(docx.tables(doc)[0])]
    want = [[["a%d" % i, int(ws[i]), 2 if more[i] else 1] for i in range(cols)], want2]
    env.out("got", got)
    env.check("P20", got == want, "each region is one cell with its extent")


# ---------------------------------------------------------------- P21
ABS = {3: [level(0), level(1, "bullet", "o"), level(2, "lowerRoman"), level(3, "bullet", "x")],
       5: [level(0, "bullet", "o"), level(1, "lowerLetter", "(%2)"), level(2, "bullet", "-"), level(3)],
       9: [level(1, "decimal"), level(0, "bullet", "b")],
       12: [level(i, "none" if i == 3 else "decimal" if i % 2 == 0 else "bullet", None if i % 2 == 0 or i == 3 else "") for i in range(9)]}
ORD = {3: ["ol", "ul", "ol", "ul"], 5: ["ul", "ol", "ul", "ol"], 9: ["ul", "ol"], 12: ["ol", "ul", "ol", "ol", "ol", "ul", "ol", "ul", "ol"]}
NUMS = {1: 3, 2: 5, 4: 3, 8: 9, 16: 12}


def expect_list(items):
    """items: (abstract id, level or None for a plain paragraph, text) -> structure.  A level deeper than the item before opens a
    list in that item; an equal one continues the list, a shallower one the enclosing list of that level"""
    out = []
    stack = []  # (abstract id, level, items)
    for a, l, s in items:
        if l is None:
            stack = []
            out.append(["p", s])
            continue
        while stack and stack[-1][1] > l:
            stack.pop()
        # another definition ends the list
        if stack and stack[-1][1] == l and stack[-1][0] != a:
            stack.pop()
        if stack and stack[-1][0] != a:
            stack = []
        if not stack:
            new = []
            out.append([ORD[a][l], new])
            stack = [(a, l, new)]
        elif stack[-1][1] < l:
            new = []
            stack[-1][2][-1][1].append([ORD[a][l], new])
            stack.append((a, l, new))
        stack[-1][2].append([s, []])
    return out


def h_list(env, n=3, depth=3, nums=(1,), plain=True, omit=True, levels=None, hollow=False):
    """n paragraphs: any level, any numbering, or plain ones"""
    pars = []
    items = []
    prev = None
    for i in range(n):
        opts = [(k, l) for k in nums for l in levels or range(len(ORD[NUMS[k]]) if NUMS[k] == 9 else depth)] + ([None] if plain else [])
        if 1 in nums and omit:
            opts.append((1, "omitted"))
        if plain:
            opts += [(0, 0), (99, 0), "empty"]
        o = env.pick("o%d" % i, opts)
        s = env.pick("h%d" % i, ["t%d" % i, "", " "]) if hollow and o not in (None, "empty", (0, 0), (99, 0)) else "t%d" % i
        if o is None or o in ((0, 0), (99, 0)):
            pars.append(par(run(s), num=o))
            items.append((None, None, s))
            prev = None
            continue
        if o == "empty":
            pars.append(par())
            items.append((None, None, None))
            prev = None
            continue
        k, l = o
        pars.append(par(*([run(s)] if s != "" else env.pick("hollow%d" % i, [[], [run("")], [hyper()]])), num=(k, None if l == "omitted" else l)))
        l = 0 if l == "omitted" else l
        items.append((NUMS[k], l, s))
        prev = (NUMS[k], l)
    ok, doc, _ = stage1(env, table(row(tc(*pars), tc(ptext("x")))), num=numbering(ABS, NUMS))
    env.check("P21", ok, "stage 1 succeeds")
    env.check("P19", ok, "stage 1 gives a well-formed file")
    if not ok:
        return
    cell = docx.rows(docx.tables(doc)[0])[0][0]
    got = shape(list(cell))
    env.out("got", got)
    flat = [[x.getparent().tag if x.tag == "li" else x.tag, docx.text(x)] for x in cell.iter("li", "p") if docx.text(x) != ""]
    env.check("P21", flat == [["p" if l is None else ORD[a][l], s] for a, l, s in items if s], "items keep order and kind")
    if levels_ok(items):
        env.check("P21", len([x for x in cell.iter("li")]) == len([s for _, l, s in items if l is not None]), "every list paragraph is an item")
    every = [docx.text(x) for x in cell.iter("li", "p") if docx.text(x) != ""]
    env.check("P19", every == [s for _, _, s in items if s], "every paragraph has its text")
    env.check("P19", all(docx.stray(x) == "" for x in cell.iter("li", "p", "ol", "ul") if x.tag in ("li", "p")), "and nothing else")
    at = {}
    for i, x in enumerate(cell):
        for y in x.iter("li", "p"):
            if docx.text(y) != "":
                at[docx.text(y)] = i
    for (a, _, s), (b, _, u) in zip(items, items[1:]):
        if (s or "").strip() and (u or "").strip() and (a != b or a is None):
            env.check("P21", at.get(s) != at.get(u), "a different definition, or none, ends the list")
    if not levels_ok(items):
        return
    want = [x for x in expect_list(items) if x != ["p", None]]
    env.check("P21", got == want, "items keep order, depth and kind")


def h_list_map(env, n=2, k=3, perm=True):
    """numbering instances mapped in every way to definitions, whose ids and order in the file vary"""
    ids = env.pick("ids", [(0, 1, 2), (2, 1, 0), (1, 2, 3), (3, 5, 9), (7, 0, 1)])[:k]
    first = env.pick("first", [1, 2, 5])
    order = env.pick("order", [list(ids), list(reversed(ids))])
    kind = {a: ["ol", "ul"] if i % 2 else ["ul", "ol"] for i, a in enumerate(ids)}
    defs = {a: [level(0, "decimal") if kind[a][0] == "ol" else level(0, "bullet", "o"), level(1, "decimal") if kind[a][1] == "ol" else level(1, "bullet", "o")] for a in order}
    nums = {}
    for i in range(k):
        nums[first + i] = env.pick("m%d" % i, list(ids))
    pars = []
    want = []
    prev = None
    for i in range(n):
        num = env.pick("p%d" % i, list(nums))
        a = nums[num]
        pars.append(par(run("t%d" % i), num=(num, 0)))
        if prev == a:
            want[-1][1].append(["t%d" % i, []])
        else:
            want.append([kind[a][0], [["t%d" % i, []]]])
        prev = a
    ok, doc, _ = stage1(env, table(row(tc(*pars))), num=numbering(defs, nums))
    env.check("P21", ok, "stage 1 succeeds")
    if not ok:
        return
    got = shape(list(docx.rows(docx.tables(doc)[0])[0][0]))
    env.out("got", got)
    env.check("P21", got == want, "items of the same definition share a list of its kind")


def h_list_sym(env, n=2, deep="012", extra=False):
    """levels and numbering ids are symbolic digits"""
    pars = []
    items = []
    for i in range(n):
        l = env.text("l%d" % i, 1, deep)
        k = env.text("k%d" % i, 1, "1249" if extra else "124")
        pars.append(par(run("t%d" % i), ppr='<w:numPr><w:ilvl w:val="' + l + '"/><w:numId w:val="' + k + '"/></w:numPr>'))
        items.append((None, None, "t%d" % i) if k == "9" else (NUMS[int(k)], int(l), "t%d" % i))
    ok, doc, _ = stage1(env, table(row(tc(*pars), tc(ptext("x")))), num=numbering(ABS, NUMS))
    env.check("P21", ok, "stage 1 succeeds")
    if not ok:
        return
    got = shape(list(docx.rows(docx.tables(doc)[0])[0][0]))
    env.out("got", got)
    if levels_ok(items):
        env.check("P21", got == expect_list(items), "items keep order, depth and kind")


def levels_ok(items):
    """an item returns only to levels that are open, and other numberings do not appear below an open level"""
    stack = []
    for a, l, s in items:
        if l is None:
            stack = []
            continue
        if stack and stack[-1][0] != a:
            # another numbering: only right after level lists are closed
            if stack[0][1] < l or len(stack) > 1 and any(x[1] < l for x in stack):
                return False
            stack = []
        if stack and l < stack[-1][1] and not any(x[1] == l for x in stack) and any(x[1] < l for x in stack):
            return False
        while stack and stack[-1][1] > l:
            stack.pop()
        if not stack or stack[-1][1] < l:
            stack.append((a, l))
    return True


# ---------------------------------------------------------------- P22
VALS = {"b": [None, "<w:b/>", '<w:b w:val="1"/>', '<w:b w:val="true"/>', '<w:b w:val="on"/>', '<w:b w:val="0"/>', '<w:b w:val="false"/>', '<w:b w:val="off"/>']}
TOG = [None, "", "1", "true", "0", "false"]


def prop(env, name, what, full):
    """one property at one place: returns (xml, value) with value None when unset"""
    if what in ("b", "i", "strike"):
        v = env.pick(name, [None, "", "0", "1", "true", "on", "false", "off"] if full else [None, "", "0"])
        if v is None:
            return "", None
        return "<w:%s%s/>" % (what, "" if v == "" else ' w:val="%s"' % v), v not in ("0", "false", "off")
    if what == "u":
        v = env.pick(name, [None] + UNDERLINES if full else [None, "single", "none"])
        if v is None:
            return "", None
        return '<w:u w:val="%s"/>' % v, v != "none"
    if what == "vertAlign":
        v = env.pick(name, [None, "baseline", "subscript", "superscript"])
        if v is None:
            return "", None
        return '<w:vertAlign w:val="%s"/>' % v, {"subscript": "sub", "superscript": "super"}.get(v)  if v != "baseline" else "baseline"
    if what == "color":
        v = env.pick(name, [None, "FF0000", "auto", "0000ff"])
        if v is None:
            return "", None
        return '<w:color w:val="%s"/>' % v, v
    raise AssertionError(what)


UNDERLINES = ["none", "single", "words", "double", "thick", "dotted", "dottedHeavy", "dash", "dashedHeavy", "dashLong", "dashLongHeavy", "dotDash", "dashDotHeavy", "dotDotDash", "dashDotDotHeavy", "wave", "wavyHeavy", "wavyDouble"]
NEUTRAL = {"b": False, "i": False, "strike": False, "u": False, "vertAlign": "baseline", "color": "auto"}


def shown(rules):
    """the effective formatting a set of style rules describes"""
    d = {"b": rules.get("font-weight", "normal") == "bold", "i": rules.get("font-style", "normal") == "italic"}
    deco = rules.get("text-decoration-line", "none").split()
    d["u"] = "underline" in deco
    d["strike"] = "line-through" in deco
    d["vertAlign"] = rules.get("vertical-align", "baseline")
    c = rules.get("color")
    d["color"] = "auto" if c is None else c.lstrip("#")
    return d


KNOWN = {"font-weight", "font-style", "text-decoration-line", "vertical-align", "color"}


def h_format(env, props=("b",), depth=1, full=False, nruns=1):
    """runs with their own settings over a chain of character styles"""
    styles = ""
    chain = []
    for k in range(depth):
        x = ""
        vals = {}
        for q in props:
            a, v = prop(env, "s%d%s" % (k, q), q, full)
            x += a
            vals[q] = v
        chain.append(vals)
        rpr = x if x or env.flag("e%d" % k) else None
        styles += style("S%d" % k, rpr, "S%d" % (k - 1) if k else None)
    runs = []
    eff = []
    for r in range(nruns):
        x = ""
        vals = {}
        for q in props:
            a, v = prop(env, "r%d%s" % (r, q), q, full)
            x += a
            vals[q] = v
        st = env.pick("st%d" % r, list(range(-1, depth)))
        e = dict(NEUTRAL)
        for src in (chain[:st + 1] if st >= 0 else []) + [vals]:
            for q, v in src.items():
                if v is not None:
                    e[q] = v
        eff.append(e)
        runs.append(run("r%d" % r, rpr=('<w:rStyle w:val="S%d"/>' % st if st >= 0 else "") + x if st >= 0 or x or r % 2 else None))
    judge_format(env, runs, eff, styles)


ON = {"b": ("<w:b/>", True), "i": ("<w:i/>", True), "u": ('<w:u w:val="single"/>', True), "strike": ("<w:strike/>", True), "vertAlign": ('<w:vertAlign w:val="superscript"/>', "super"), "color": ('<w:color w:val="112233"/>', "112233")}


def h_sets(env, props=("b", "i", "u", "strike", "color"), nruns=2):
    """runs with any sets of properties: each has a class of its own exactly if the sets differ"""
    runs, eff = [], []
    for r in range(nruns):
        x = ""
        e = dict(NEUTRAL)
        for q in props:
            if env.flag("r%d%s" % (r, q)):
                a, v = ON[q]
                x += a
                e[q] = v
        eff.append(e)
        runs.append(run("r%d" % r, rpr=x if x else None))
    judge_format(env, runs, eff, "")


def judge_format(env, runs, eff, styles):
    ok, doc, out = stage1(env, table(row(tc(par(*runs), fill="00FF00"))), styles=styles)
    env.check("P22", ok, "stage 1 succeeds")
    if not ok:
        return
    rules = docx.css(out / "doc.css")
    k = doc.xpath(".//td")[0].get("class")
    env.check("P22", k is not None and rules.get("." + k) == {"background-color": "#00FF00"}, "cell classes are apart from text classes")
    spans = doc.xpath(".//span")
    env.check("P22", len(spans) == len(runs), "one span per run")
    if len(spans) != len(runs):
        return
    got = []
    for i, sp in enumerate(spans):
        c = sp.get("class")
        if c is not None:
            env.check("P22", "." + c in rules, "the class is defined")
        r = rules.get("." + c, {}) if c is not None else {}
        env.check("P22", all(k in KNOWN for k in r), "only the formatting of the document")
        got.append([c, shown(r)])
        env.check("P22", shown(r) == eff[i], "the formatting in effect")
    for i in range(len(runs)):
        for j in range(i):
            if got[i][0] == got[j][0]:
                env.check("P22", eff[i] == eff[j], "a class stands for one formatting")
            elif runs[i].replace("r%d" % i, "") == runs[j].replace("r%d" % j, ""):
                env.check("P22", False, "the same settings share a class")
    env.out("got", [g[1] for g in got])


def h_toggle(env, n=1, what="b", styled=True):
    """any text as the value of a switch"""
    v = env.text("v", n, ALL if n < 3 else "offnalseOF01tru ")
    off = env.Or(v == "0", v == "false", v == "off")
    known = env.Or(off, v == "1", v == "true", v == "on")
    env.assume(known)
    x = "<w:%s w:val=\"" % what + v + '"/>'
    base = env.pick("base", [None, "on", "off"]) if styled else None
    styles = style("S0", "<w:%s/>" % what if base == "on" else '<w:%s w:val="0"/>' % what) if base else ""
    e = dict(NEUTRAL)
    e[what] = bool(env.Not(off))
    judge_format(env, [run("r", rpr=('<w:rStyle w:val="S0"/>' if base else "") + x)], [e], styles)


def h_colour(env, n=6, styled=True, same=False):
    """any colours: two runs, one of them over a style of its own colour"""
    a = env.text("a", n, HEX)
    b = a[:-1] + env.text("b", 1, HEX) if same else env.text("b", n, HEX)
    c = env.text("c", n, HEX) if styled else None
    own = env.flag("own")
    styles = style("S0", '<w:color w:val="' + c + '"/>') if styled else ""
    runs = [run("r0", rpr='<w:color w:val="' + a + '"/>')]
    st = '<w:rStyle w:val="S0"/>' if styled else ""
    runs.append(run("r1", rpr=st + ('<w:color w:val="' + b + '"/>' if own or not styled else "<w:b/>")))
    eff = [dict(NEUTRAL, color=a), dict(NEUTRAL, color=b) if own or not styled else dict(NEUTRAL, b=True, color=c)]
    judge_format(env, runs, eff, styles)


def h_resolve(env, n=4):
    """which style a run refers to: ids, aliases and types of other styles do not matter"""
    cols = ["110000", "001100", "000011", "AA0000"]
    alias = env.pick("a", [None, "S1", "S2", "S1,S2", "Other, S0"])
    at = env.pick("at", [0, 1, 2])
    order = env.pick("o", [(0, 1, 2), (2, 1, 0), (1, 0, 2)])
    para = env.flag("p")
    based = env.pick("b", [None, "S1", "S0", "Default"])
    styles = style("S1", '<w:color w:val="777777"/><w:b/>', kind="paragraph") if para else ""
    for k in order:
        b = based if k == 2 and based is not None else None
        styles += style("S%d" % k, '<w:color w:val="%s"/>' % cols[k] if not (b and k == 2) else "<w:i/>", b, aliases=alias if at == k else None)
    styles += style("Default", None)
    eff = []
    runs = []
    for r in range(3):
        e = dict(NEUTRAL)
        if r == 2 and based is not None:
            e["i"] = True
            e["color"] = {"S0": cols[0], "S1": cols[1], "Default": "auto"}[based]
        else:
            e["color"] = cols[r]
        eff.append(e)
        runs.append(run("r%d" % r, rpr='<w:rStyle w:val="S%d"/>' % r))
    judge_format(env, runs, eff, styles)


# ---------------------------------------------------------------- everything at once
MIX = ["par", "link", "item", "sub", "other", "empty", "tab"]
MFMT = {"": {}, "b": {"b": True}, "i": {"i": True}, "s": {"b": True, "color": "FF0000"}, "su": {"u": True, "b": True, "color": "FF0000"}, "so": {"color": "FF0000"}}
MRPR = {"": None, "b": "<w:b/>", "i": "<w:i/>", "s": '<w:rStyle w:val="S1"/>', "su": '<w:rStyle w:val="S1"/><w:u w:val="single"/>', "so": '<w:rStyle w:val="S1"/><w:b w:val="0"/>'}
MSTY = style("S0", '<w:color w:val="FF0000"/>') + style("S1", "<w:b/>", "S0")


def mrun(f, s):
    return run(s, rpr=MRPR[f])


def mspan(f, s):
    return [s, dict(NEUTRAL, **MFMT[f])]


def mix_cell(env, name, kinds, m, tx):
    """the content of a cell: (xml, items as of `expect_list` with spans for text, or tables)"""
    xs, items = [], []
    for i in range(m):
        k = env.pick("%s%d" % (name, i), kinds)
        a, b = "a%d" % i + tx, "b%d" % i
        if k == "par":
            f = ["b", "s", "so"][i % 3]
            xs.append(par(mrun("", a), mrun(f, b)))
            items.append((None, None, [mspan("", a), mspan(f, b)]))
        elif k == "link":
            xs.append(par(mrun("i", "h"), hyper(mrun("", a), mrun("su", b)), fld(mrun("b", "f"))))
            items.append((None, None, [mspan("i", "h"), mspan("", a), mspan("su", b), mspan("b", "f")]))
        elif k in ("item", "sub", "other"):
            n, l = {"item": (1, 0), "sub": (1, 1), "other": (2, 0)}[k]
            xs.append(par(mrun("so", a), hyper(mrun("i", b)), num=(n, l)))
            items.append((NUMS[n], l, [mspan("so", a), mspan("i", b)]))
        elif k == "empty":
            xs.append(par())
            items.append((None, None, None))
        else:
            xs.append(table(row(tc(par(mrun("s", a)), span=2, fill="CCCCCC")), row(tc(par(mrun("", b), num=(1, 0)), par(mrun("i", "y"), num=(1, 1)), fill="FF0000"), tc(ptext("z")))))
            items.append((None, "table", [
                [["th", "#CCCCCC", 2, 1, [["p", [mspan("s", a)]]]]],
                [["td", "#FF0000", 1, 1, [["ol", [[[mspan("", b)], [["ul", [[[mspan("i", "y")], []]]]]]]]]], ["td", None, 1, 1, [["p", [mspan("", "z")]]]]]]))
    return xs, items


def mix_want(items):
    out, part = [], []
    for a, l, s in items:
        if l == "table":
            out += expect_list(part) + [["table", s]]
            part = []
        else:
            part.append((a, l, s))
    return [x for x in out + expect_list(part) if x != ["p", None]]


def mix_got(rules, elems):
    out = []
    for e in elems:
        if e.tag == "table":
            rs = []
            for r in docx.rows(e):
                cs = []
                for c in r:
                    bg = rules.get("." + c.get("class", ""), {}).get("background-color")
                    cs.append([c.tag, bg, int(c.get("colspan", "1")), int(c.get("rowspan", "1")), mix_got(rules, list(c))])
                rs.append(cs)
            out.append(["table", rs])
        elif e.tag in ("ol", "ul"):
            # (a nested list stands in the item before it, or right behind that)
            its = []
            for x in e:
                if x.tag == "li":
                    its.append([mix_spans(rules, x), mix_got(rules, [y for y in x if y.tag != "span"])])
                elif its:
                    its[-1][1] += mix_got(rules, [x])
            out.append([e.tag, its])
        else:
            out.append([e.tag, mix_spans(rules, e)])
    return out


def mix_spans(rules, e):
    return [["".join(x.itertext()), shown(rules.get("." + x.get("class", ""), {}))] for x in e if x.tag == "span"]


def only(x, what):
    """the part of a structure that is about `what`"""
    if x[0] == "table":
        cells = []
        for r in x[1]:
            rr = []
            for tag, bg, cs, rs, cont in r:
                inner = [only(y, what) for y in cont]
                rr.append([inner, tag, bg] if what == "cell" else [inner, cs, rs] if what == "span" else [inner])
            cells.append(rr)
        return ["table", cells]
    if x[0] in ("ol", "ul"):
        return [x[0] if what == "list" else "", [[part(s, what), [only(y, what) for y in sub]] for s, sub in x[1]]]
    return ["p", part(x[1], what)]


def part(spans, what):
    if what == "text":
        return "".join([s for s, _ in spans])
    if what == "format":
        return spans
    return None


def h_mix(env, m=2, kinds=MIX, n=1, mkinds=("par", "item"), m2=1, ats=(0, 1, 2, 3), merges=(None, "h", "v"), fills=(None, "CCCCCC", "00FF00")):
    """a table of two by two cells, possibly merged and shaded, with every sequence of contents in one of them"""
    tx = env.text("t", n)
    at = env.pick("at", list(ats))
    merge = env.pick("merge", list(merges))
    fill = env.pick("fill", list(fills))
    cont = []
    for i in range(4):
        if i == at:
            cont.append(mix_cell(env, "k", kinds, m, tx))
        elif i == (at + 1) % 4:
            cont.append(mix_cell(env, "o", mkinds, m2, ""))
        else:
            cont.append(([par(mrun("", "c%d" % i))], [(None, None, [mspan("", "c%d" % i)])]))
    kw = [dict(fill=fill if i == at else None) for i in range(4)]
    cells = [[0, 1], [2, 3]]
    if merge == "h":
        kw[0]["span"] = 2
        cells = [[0], [2, 3]]
    elif merge == "v":
        kw[0]["merge"] = "restart"
        kw[2]["merge"] = env.pick("cont", ["", "continue"])
        cells = [[0, 1], [3]]
    env.assume(any(at in r for r in cells))
    rows = [[tc(*cont[i][0], **kw[i]) if not (merge == "v" and i == 2) else tc(par(), **kw[i]) for i in r] for r in (cells if merge != "v" else [[0, 1], [2, 3]])]
    ok, doc, out = stage1(env, table(*[row(*r) for r in rows]) + table(row(tc(ptext("last")))), styles=MSTY, num=numbering(ABS, NUMS))
    for q in ("P19", "P20", "P21", "P22", "P28"):
        env.check(q, ok, "stage 1 succeeds")
    if not ok:
        return
    rules = docx.css(out / "doc.css")
    got = mix_got(rules, docx.tables(doc))
    env.out("got", got)
    wc = []
    levels = True
    for r in cells:
        rr = []
        for i in r:
            f = kw[i].get("fill")
            rr.append(["th" if f == "CCCCCC" else "td", None if f is None else "#" + f, 2 if merge == "h" and i == 0 else 1, 2 if merge == "v" and i == 0 else 1, mix_want(cont[i][1])])
            seq = []
            for a, l, s in cont[i][1]:
                seq.append((a, l, s) if l != "table" else (None, None, "x"))
            levels = levels and levels_ok(seq)
        wc.append(rr)
    want = [["table", wc], ["table", [[["td", None, 1, 1, [["p", [mspan("", "last")]]]]]]]]
    if not levels:
        return  # (what such lists look like is not stated)
    for q, what, msg in (("P19", "text", "every place has exactly its text"), ("P20", "span", "each region is one cell with its extent"), ("P21", "list", "items keep order, depth and kind"),
                         ("P22", "format", "the formatting in effect"), ("P28", "cell", "grey cells are headings, other fills backgrounds")):
        env.check(q, [only(x, what) for x in got] == [only(x, what) for x in want], msg)


# ---------------------------------------------------------------- P28
HEX = "0123456789abcdefABCDEF"


def grey(env, f):
    f = f.lower()
    return f[0] == f[2] and f[2] == f[4] and f[1] == f[3] and f[3] == f[5]


def h_shade(env, mode="free", second=None):
    if mode == "free":
        f = env.text("f", 6, HEX)
    elif mode == "grey":
        a, b = env.text("a", 1, HEX), env.text("b", 1, HEX)
        f = ""
        for i in range(3):
            f = f + case(env, "x%d" % i, a) + case(env, "y%d" % i, b)
    elif mode == "near":
        a, b = env.text("a", 1, HEX), env.text("b", 1, HEX)
        f = (a + b) * 3
        i = env.pick("i", [0, 1, 2, 3, 4, 5])
        f = f[:i] + env.text("c", 1, HEX) + f[i + 1:]
    elif mode == "white":
        f = ""
        for i in range(6):
            f = f + env.text("w%d" % i, 1, "fF" if i else "fFeE")
    else:
        f = env.pick("f", [None, "auto", "", "FFF", "ccc", "1234567"])
    kw = {} if f is None else dict(fill=f)
    other = env.pick("o", [None, "CCCCCC", "00FF00"])
    ok, doc, out = stage1(env, table(row(tc(ptext("a"), **kw), tc(ptext("b"), fill=other)), row(tc(ptext("c"), **kw), tc(ptext("d")))))
    env.check("P28", ok, "stage 1 succeeds")
    if not ok:
        return
    rules = docx.css(out / "doc.css")
    fills = [f, other, f, None]
    got = []
    cells = [c for r in docx.rows(docx.tables(doc)[0]) for c in r]
    env.check("P28", len(cells) == 4, "all cells")
    for c, fl in zip(cells, fills):
        hexa = fl is not None and len(fl) == 6
        white = hexa and fl.lower() == "ffffff"
        colour = hexa and not white
        want = "th" if colour and grey(env, fl) else "td"
        env.check("P28", c.tag == want, "grey cells other than white are headings")
        k = c.get("class")
        bg = rules.get("." + k, {}).get("background-color") if k is not None else None
        if colour:
            env.check("P28", bg is not None and bg.lower() == "#" + fl.lower(), "the fill is the background")
        else:
            env.check("P28", bg is None, "no background")
        got.append([c.tag, bg])
    env.out("got", got)


def case(env, name, c):
    return c.upper() if env.flag(name) else c.lower()


CAPCH = ALL


def h_caption(env, pre=0, mid=0, post=1, num=1, fixed=" ", fill=False):
    """the text of the first cell"""
    a = env.text("a", pre)
    b = env.text("b", mid)
    n = env.text("n", num, DIGITS) if num else ""
    c = env.text("c", post)
    s = a + "Figure" + fixed + b + n + c
    shade = env.pick("sh", [None, "CCCCCC", "FF0000"]) if fill else None
    cut = env.pick("cut", [0, 1, 2])
    if cut == 0:
        x = run(s)
    elif cut == 1:
        x = run(s[:4]) + run(s[4:], rpr="<w:b/>")
    else:
        x = run(s[:-1]) + fld(run(s[-1:]))
    first = env.pick("f", ["direct", "empty before", "table before", "second cell", "more behind", "other before", "empty cell before", "second row", "list before", "item", "wide"]) if fill else "direct"
    inner = table(row(tc(ptext("n"))))
    cell = {"direct": [par(x)], "empty before": [par(), par(x)], "table before": [inner, par(x)], "second cell": [ptext("y")], "more behind": [par(x), ptext("Figure 998: y")],
            "other before": [ptext("y"), par(x)], "empty cell before": [par()], "second row": [ptext("y")],
            "list before": [par(run("see"), num=(1, 0)), par(x)], "item": [par(x, num=(1, 0))], "wide": [par(x)]}[first]
    cells = [tc(*cell, fill=shade, span=2 if first == "wide" else 1)] + ([tc(par(x))] if first in ("second cell", "empty cell before") else [])
    alone = first not in ("second row", "second cell", "empty cell before") and cut != 1 and env.flag("alone")
    below = [] if alone else [row(*[tc(par(x) if first == "second row" else ptext("z")) for _ in cells])]
    ok, doc, out = stage1(env, table(row(*cells), *below), num=numbering({3: [level(0)]}, {1: 3}))
    env.check("P28", ok, "stage 1 succeeds")
    if not ok:
        return
    tb = docx.tables(doc)[0]
    got = tb.get("id")
    env.out("id", got)
    # oracle: 'Figure ', digits, ':'
    want = None
    if first in ("direct", "empty before", "more behind", "wide") and shade != "CCCCCC" and s.startswith("Figure "):
        r = s[7:]
        k = 0
        while k < len(r) and r[k] in DIGITS:
            k += 1
        if k > 0 and r[k:k + 1] == ":":
            want = r[:k]
    if want is None:
        env.check("P28", got is None, "other tables have no id")
    else:
        env.check("P28", got == want, "the caption's number is the id")


# ---------------------------------------------------------------- P23
TITLE = "".join(c for c in ALL if c != ",")


def both(env, body, **k):
    """Word document -> (ok, parsed HTML, model)"""
    from .files import run_spec
    d = docx.fresh(env)
    docx.write(d / "doc.docx", body, **k)
    ok, path = env.attempt(run_spec, d / "doc.docx", d / "out")
    if not ok:
        return False, path, None
    ok, doc = env.attempt(etree.parse, str(d / "out" / "doc.html"))
    if not ok:
        return False, doc, None
    return True, doc, json.loads(path.read_text())


def h_header(env, title=1, rev=1, pre="Spec", mid=" ", tail="", cut=True, word=True):
    """'<title>,<anything> Revision <word>' split over runs"""
    ti = pre + env.text("t", title, TITLE)
    rv = "1" + env.text("r", rev, "".join(c for c in ALL if not c.isspace()))
    mid = env.pick("mid", mid) if isinstance(mid, (list, tuple)) else mid
    s = ti + "," + mid + (env.pick("w", ["Revision", "revision"]) if word else "Revision") + env.pick("sp", [" ", "  "]) + rv + tail
    if cut:
        k = env.pick("cut", [0, 3, len(ti), len(ti) + 4, len(s) - 1])
        tb = env.pick("tbl", ["runs", "table", "link", "field", "control", "nested"])
        a, b = run(s[:k]), run(s[k:])
        x = {"runs": par(a, b), "table": table(row(tc(par(a)), tc(par(b)))), "link": par(a, hyper(b)), "field": par(fld(a), b),
             "control": "<w:sdt><w:sdtContent>" + par(a, "<w:sdt><w:sdtContent>" + b + "</w:sdtContent></w:sdt>") + "</w:sdtContent></w:sdt>",
             "nested": par(a) + table(row(tc(par(), table(row(tc(par(hyper(fld(b)))))))))}[tb]
    else:
        x = par(run(s))
    ok, doc, m = both(env, table(row(tc(ptext("a")))), header=x)
    env.check("P23", ok, "both stages succeed")
    if not ok:
        return
    meta = doc.xpath("./head/meta[@data-spec]")
    env.check("P23", len(meta) == 1, "stage 1 records title and revision")
    a, b = meta[0].get("data-spec"), meta[0].get("data-revision")
    env.out("m", [a, b, m["meta"]["specification"], m["meta"]["revision"]])
    env.check("P23", a == ti.strip(), "the title is recorded unaltered")
    env.check("P23", b == rv, "the revision is recorded unaltered")
    env.check("P23", m["meta"]["specification"] == ti.strip().lower() and m["meta"]["revision"] == rv.lower(), "the model reports both")


def h_header_free(env, n=3, pre="A, Revision ", post=""):
    """arbitrary text around the revision"""
    s = pre + env.text("s", n, ALL) + post
    ok, doc, m = both(env, table(row(tc(ptext("a")))), header=par(run(s)))
    i = s.find("Revision")
    rest = s[i + 8:]
    w = rest.split()
    has = len(w) > 0 and rest[:1].isspace()
    env.assume(has)
    env.check("P23", ok, "both stages succeed")
    if not ok:
        return
    meta = doc.xpath("./head/meta[@data-spec]")[0]
    env.out("m", [meta.get("data-spec"), meta.get("data-revision")])
    env.check("P23", meta.get("data-spec") == s.split(",")[0].strip(), "the title is recorded unaltered")
    env.check("P23", meta.get("data-revision") == w[0], "the revision is recorded unaltered")
    env.check("P23", m["meta"]["revision"] == w[0].lower(), "the model reports the revision")


# ---------------------------------------------------------------- P29
GREY = "BFBFBF"


class Build:
    """the same table as Word XML and as HTML"""

    def __init__(self, env, deco, rpr="<w:b/>"):
        self.env = env
        self.rpr = rpr
        self.deco = deco
        self.n = 0

    def par(self, s):
        """a paragraph; symbolic choice of how Word splits and formats it"""
        from . import lib
        env = self.env
        k = self.deco[self.n % len(self.deco)] if self.deco else 0
        self.n += 1
        if k == 0 or len(s) < 2:
            x = run(s)
        elif k == 1:
            x = run(s[:1]) + run(s[1:], rpr=self.rpr)
        elif k == 2:
            h = len(s) // 2
            x = run(s[:h], s[h:])
        elif k == 3:
            x = hyper(run(s[:-1])) + fld(run(s[-1:]))
        else:
            x = "".join([run(c) for c in s])
        return (par(x), lib.p(env, s))

    def cell(self, *content, span=1, rows=1, head=False):
        from . import lib
        w = tc(*[c[0] for c in content], span=span, merge="restart" if rows > 1 else None, fill=GREY if head else None)
        h = lib.td("\n".join([c[1] for c in content]), colspan=span, rowspan=rows, tag="th" if head else "td")
        return (w, h)

    def cont(self, span=1):
        return (tc(par(), span=span, merge=""), "")

    def row(self, *cells):
        return (row(*[c[0] for c in cells]), "<tr>" + "".join([c[1] for c in cells]) + "</tr>")

    def table(self, *rows):
        return (table(*[r[0] for r in rows]), "<table>" + "".join([r[1] for r in rows]) + "</table>")


def squeeze(ents):
    """entities with the white space of briefs collapsed: the layout between paragraphs counts as a blank.  The brief of the row
    with a nested table is left out: whether it is short enough depends on that layout"""
    out = []
    for e in ents:
        e = dict(e)
        e["fields"] = [{k: (" ".join(v.split()) if k == "brief" else v) for k, v in f.items() if not (k == "brief" and f["label"].lower() in ("th", "third"))} for f in e["fields"]]
        out.append(e)
    return out


def compare(env, w, h, **k):
    from .lib import document, extract
    ok, doc, m = both(env, w, **k)
    env.check("P29", ok, "both stages succeed")
    if not ok:
        return
    env.use("xml_opaque")
    r = extract(env, document(env, h))
    env.out("m", [squeeze(m["entities"]), m["meta"]["lint"], squeeze(r.entities), [x.d for x in r.lint]])
    env.check("P29", r.err is None and squeeze(m["entities"]) == squeeze(r.entities), "the entities are those of the text")
    env.check("P29", m["meta"]["lint"] == [x.d for x in r.lint], "the lint is that of the text")


def h_both(env, n=1, kind="bits", where=None, deco=(0, 1, 2, 3, 4)):
    """a figure with a nested table, merged cells and a section header; arbitrary text at one place"""
    i = env.pick("d", list(range(len(deco))))
    b = Build(env, deco[i:] + deco[:i])
    wh = env.pick("w", where or ["title", "name", "brief", "range", "nested", "head", "none"])
    tx = env.text("t", n, PRINT)

    def m(k, s):
        return s + (tx if wh == k else "")
    heads = {"bits": "Bits", "bytes": "Bytes", "values": "Value"}[kind]
    keys = {"bits": ["31:16", "15:08", "07"], "bytes": ["31:16", "15:08", "07"], "values": ["1h", "2h", "3h"]}[kind]
    inner = b.table(b.row(b.cell(b.par("Value"), head=True), b.cell(b.par("Description"), head=True)),
                    b.row(b.cell(b.par("0h")), b.cell(b.par(m("nested", "Zero: ") + " text"))))
    t1 = b.table(
        b.row(b.cell(b.par("Figure 12: " + m("title", "Table")), span=2)),
        b.row(b.cell(b.par(m("head", heads)), head=True), b.cell(b.par("Description"), head=True)),
        b.row(b.cell(b.par("Section"), span=2, head=True)),
        b.row(b.cell(b.par(m("range", keys[0]))), b.cell(b.par(m("name", "First Name (FN") + "): text"), b.par("more"))),
        b.row(b.cell(b.par(keys[1])), b.cell(b.par("Second (SE): a" + m("brief", "b") + "c. D")), ),
        b.row(b.cell(b.par(keys[2])), b.cell(b.par("Third (TH): x"), inner)))
    t2 = b.table(b.row(b.cell(b.par("Plain"))))
    t3 = b.table(b.row(b.cell(b.par("Figure 13: Other"), span=3)),
                 b.row(b.cell(b.par("Value"), head=True), b.cell(b.par("Note"), head=True), b.cell(b.par("Definition"), head=True)),
                 b.row(b.cell(b.par("Ah")), b.cell(b.par("n"), rows=2), b.cell(b.par("One: x"))),
                 b.row(b.cell(b.par("Bh")), b.cont(), b.cell(b.par("Two: y"))))
    compare(env, t1[0] + par(run("between")) + t2[0] + t3[0], t1[1] + t2[1] + t3[1])


RPRS = ["<w:b/>", "<w:i/>", '<w:u w:val="single"/>', "<w:strike/>", "<w:dstrike/>", "<w:vanish/>", "<w:caps/>", "<w:smallCaps/>", '<w:vertAlign w:val="superscript"/>', '<w:vertAlign w:val="subscript"/>',
        '<w:color w:val="FFFFFF"/>', '<w:color w:val="auto"/>', '<w:highlight w:val="yellow"/>', '<w:sz w:val="2"/>', '<w:rStyle w:val="X"/>', '<w:lang w:val="fr"/>', "<w:noProof/>", '<w:shd w:val="clear" w:fill="FFFF00"/>',
        '<w:b w:val="0"/>', '<w:rFonts w:ascii="Wingdings"/>', "<w:webHidden/>", "<w:outline/>", '<w:u w:val="none"/>', "<w:rtl/>", "<w:strike/><w:b/>"]


def h_both_formats(env, n=1):
    """every text split and formatted in one of many ways"""
    b = Build(env, (1,), env.pick("r", RPRS))
    tx = env.text("t", n, PRINT)
    inner = b.table(b.row(b.cell(b.par("Value"), head=True), b.cell(b.par("Description"), head=True)), b.row(b.cell(b.par("0h")), b.cell(b.par("Zero: text"))))
    t = b.table(b.row(b.cell(b.par("Figure 12: T" + tx), span=2)), b.row(b.cell(b.par("Bits"), head=True), b.cell(b.par("Description"), head=True)),
                b.row(b.cell(b.par("15:08")), b.cell(b.par("First " + tx + " (FN): text"))), b.row(b.cell(b.par("07")), b.cell(b.par("Third (TH): x"), inner)))
    compare(env, t[0], t[1], styles=style("X", "<w:strike/><w:vanish/><w:caps/>"))


def h_both_rows(env, n=1, kinds=None, r=2):
    """rows of many kinds, with texts that raise lint"""
    b = Build(env, (1, 4))
    tx = env.text("t", n, PRINT)
    rows = []
    for i in range(r):
        k = env.pick("k%d" % i, kinds or ["ok", "sym", "rsvd", "nolabel", "nopar", "empty", "ell", "list", "split", "dup"])
        key = "%d:%d" % (7 - 4 * i, 4 - 4 * i)
        if k == "ok":
            c = [b.par("Name%d (NA%d): t" % (i, i))]
        elif k == "sym":
            c = [b.par("N" + tx + "e: t")]
        elif k == "rsvd":
            c = [b.par("Reserved")]
        elif k == "nolabel":
            c = [b.par("? text")]
        elif k == "nopar":
            c = []
        elif k == "empty":
            c = [(par(), ""), b.par("Late (LA)")]
        elif k == "ell":
            key = "\u2026"
            c = [b.par("\u2026")]
        elif k == "list":
            c = [b.par("Listed (LI): see")]
        elif k == "split":
            key = " 7 : 4"
            c = [b.par("A  B\u00a0C (AC) : d")]
        else:
            c = [b.par("Same (SA)")]
        rows.append(b.row(b.cell(b.par(key)), b.cell(*c)))
    t1 = b.table(b.row(b.cell(b.par("Figure 5: T"), span=2)),
                 b.row(b.cell(b.par("Bits"), head=True), b.cell(b.par("Description"), head=True)), *rows)
    compare(env, t1[0], t1[1])


SPLIT = ["two", "each", "bold", "texts", "link", "field", "empty", "marks", "behind blanks", "before blanks"]


def words(s, behind):
    """the text cut behind (before) every run of blanks"""
    out, cur = [], ""
    for i, c in enumerate(s):
        blank = c == " "
        last = i > 0 and s[i - 1] == " "
        if cur and (last and not blank if behind else blank and not last):
            out.append(cur)
            cur = ""
        cur = cur + c
    return out + [cur]


def h_split(env, n=1, kinds=None, splits=None):
    """the model does not depend on how Word splits the texts, those of list items included"""
    tx = env.text("t", n, PRINT)
    how = env.pick("s", splits or SPLIT)
    k = env.pick("k", kinds or ["item", "sub", "second", "cell", "par", "merged", "later"])

    def whole(s):
        return run(s)

    def parts(s):
        h = len(s) // 2
        return {"two": lambda: run(s[:h]) + run(s[h:]), "each": lambda: "".join([run(c) for c in s]), "bold": lambda: run(s[:h], rpr="<w:b/>") + run(s[h:]),
                "texts": lambda: run(s[:1], s[1:]), "link": lambda: hyper(run(s[:h])) + run(s[h:]), "field": lambda: run(s[:h]) + fld(run(s[h:])),
                "empty": lambda: run("") + run(s) + run("", rpr="<w:i/>"), "behind blanks": lambda: "".join([run(c) for c in words(s, True)]), "before blanks": lambda: "".join([run(c) for c in words(s, False)]), "marks": lambda: run(s[:h]) + '<w:bookmarkStart w:id="0" w:name="b"/><w:proofErr w:type="x"/>' + run(s[h:])}[how]()

    def make(f):
        name = par(f("Name (NM): a" + tx + "b.   c  "))
        item = par(f("it" + tx + "em"), num=(1, 0))
        rows = []
        if k == "item":
            rows.append(row(tc(par(f("15:8"))), tc(name, item, par(f("other"), num=(1, 0)))))
        elif k == "sub":
            rows.append(row(tc(par(f("15:8"))), tc(name, item, par(f("below"), num=(1, 1)), par(f("after")))))
        elif k == "second":
            rows.append(row(tc(par(f("15:8"))), tc(name, par(f("more" + tx)), table(row(tc(par(f("Value")), fill=GREY), tc(par(f("Description")), fill=GREY)), row(tc(par(f("0h"))), tc(par(f("Zero" + tx + ": a")), item))))))
        elif k == "cell":
            rows.append(row(tc(item), tc(name)))
        elif k == "par":
            rows.append(row(tc(par(f("15:8"))), tc(item, name)))
        elif k == "merged":
            rows.append(row(tc(par(f("15:8")), item, merge="restart"), tc(name)))
            rows.append(row(tc(par(), merge=""), tc(par(f("Other (OT): x")))))
        else:
            rows.append(row(tc(par(f("15:8")), span=2)))
            rows.append(row(tc(par(f("7" + tx))), tc(name, item)))
        return table(row(tc(par(f("Figure 5: T" + tx)), span=2)), row(tc(par(f("Bits")), fill=GREY), tc(par(f("Description")), fill=GREY)), *rows) + table(row(tc(par(f("Figure 6: U")), span=2)), row(tc(par(f("Fo" + tx + "o")), fill=GREY), tc(par(f("x")), fill=GREY)))
    num = numbering({3: [level(0), level(1, "bullet", "o")]}, {1: 3})
    ok, doc, m = both(env, make(whole), num=num)
    ok2, doc2, m2 = both(env, make(parts), num=num)
    env.check("P29", ok == ok2, "both or none")
    if not ok or not ok2:
        return
    env.out("m", [m, m2])
    env.check("P29", m["entities"] == m2["entities"], "the entities are those of the text")
    env.check("P29", m["meta"]["lint"] == m2["meta"]["lint"], "the lint is that of the text")
