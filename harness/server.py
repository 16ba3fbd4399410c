"""P24 reports of uploads, P25 file names of uploads, P26 figures of the report page, P31 clients that come and go.

The application is driven at its ASGI interface: a client is a connection whose messages - parts of the request body,
pieces of the response - are passed on one at a time, so that the harness decides who advances, and who hangs up, when."""
import asyncio
import gc
import json
import os
import re
import shutil
import tempfile
from pathlib import Path

from lxml import etree

from symx import guard

from . import docx, lib
from .files import fresh, load, run_spec
from .lib import DIGITS, LETTERS, document, figure, hdr, nested, p, td, tr

BOUNDARY = "sxboundary0123456789"


def application():
    from spexsrv.application import app as m
    return m


class Names:
    """replaces the placeholder names of uploads, after the request has been parsed, by what the harness chose"""

    def __init__(self):
        from werkzeug.datastructures import FileStorage
        self.cls = FileStorage
        self.orig = FileStorage.__init__
        self.names = {}

    def __enter__(self):
        orig, names = self.orig, self.names

        def init(fs, stream=None, filename=None, name=None, content_type=None, content_length=None, headers=None):
            orig(fs, stream, filename, name, content_type, content_length, headers)
            if fs.filename in names:
                fs.filename = names[fs.filename]
        self.cls.__init__ = init
        return self

    def __exit__(self, *a):
        self.cls.__init__ = self.orig


def multipart(i, content):
    head = '--%s\r\nContent-Disposition: form-data; name="document"; filename="sxupload%d"\r\nContent-Type: text/html\r\n\r\n' % (BOUNDARY, i)
    return head.encode() + content + ("\r\n--%s--\r\n" % BOUNDARY).encode()


class Client:
    """one HTTP connection"""

    def __init__(self, app, method, path, parts=(), query=b"", headers=()):
        self.parts = list(parts)
        self.sent = []
        self.idle = asyncio.Event()
        self.go = asyncio.Event()
        self.gone = asyncio.Event()
        self.hung = False
        self.app = app
        h = [(b"host", b"localhost"), (b"accept", b"text/event-stream, text/html, */*")] + list(headers)
        if parts:
            h.append((b"content-type", b"multipart/form-data; boundary=" + BOUNDARY.encode()))
            h.append((b"content-length", b"%d" % sum([len(x) for x in parts])))
        self.scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "scheme": "http", "path": path,
                      "raw_path": path.encode(), "query_string": query, "root_path": "", "headers": h, "client": ("127.0.0.1", 1), "server": ("localhost", 80),
                      "extensions": {}}
        self.at = 0
        self.task = None

    async def wait(self):
        """the application asks for, or delivers, one more message"""
        self.idle.set()
        go = asyncio.ensure_future(self.go.wait())
        gone = asyncio.ensure_future(self.gone.wait())
        try:
            await asyncio.wait([go, gone], return_when=asyncio.FIRST_COMPLETED)
        finally:
            go.cancel()
            gone.cancel()
        self.go.clear()

    async def receive(self):
        if self.at >= max(1, len(self.parts)):
            await self.gone.wait()
            return {"type": "http.disconnect"}
        if self.at > 0:
            await self.wait()
            if self.hung:
                return {"type": "http.disconnect"}
        b = self.parts[self.at] if self.parts else b""
        self.at += 1
        return {"type": "http.request", "body": b, "more_body": self.at < len(self.parts)}

    async def send(self, msg):
        self.sent.append(msg)
        if msg["type"] == "http.response.body" and not msg.get("more_body"):
            return
        await self.wait()
        if self.hung:
            await asyncio.sleep(30)

    @property
    def done(self):
        return self.task is not None and self.task.done()

    async def settle(self):
        w = asyncio.ensure_future(self.idle.wait())
        await asyncio.wait([w, self.task], return_when=asyncio.FIRST_COMPLETED)
        w.cancel()
        if self.task.done() and not self.task.cancelled():
            e = self.task.exception()
            if e is not None and not isinstance(e, Exception):
                raise e

    async def step(self):
        self.idle.clear()
        if self.task is None:
            self.task = asyncio.ensure_future(self.app.asgi_http_class(self.app, self.scope)(self.receive, self.send))
        else:
            self.go.set()
        await self.settle()

    async def hang_up(self):
        self.hung = True
        if self.task is None:
            return
        self.gone.set()
        await asyncio.wait([self.task], timeout=20)

    async def finish(self):
        while not self.done:
            await self.step()

    @property
    def status(self):
        return self.sent[0]["status"] if self.sent else None

    @property
    def body(self):
        return b"".join([x.get("body", b"") for x in self.sent[1:]])

    def events(self):
        return [json.loads(x[len("data: "):]) for x in self.body.decode("utf-8").split("\n\n") if x.startswith("data: ")]

    @property
    def report(self):
        """address of the report, when the upload completed"""
        for e in self.events():
            if e["type"] == "report-completed":
                return e["url"]
        return None


async def get(app, path, query=b""):
    c = Client(app, "GET", path, query=query)
    await c.finish()
    return c


def serve(env, fn, *a):
    """runs the coroutine function with a started application whose temporary folders are in the scratch folder"""
    tmp = fresh(env, "tmp")
    old = tempfile.tempdir, os.getcwd()
    tempfile.tempdir = str(tmp)
    m = application()

    async def main():
        await m.app.startup()
        try:
            with Names() as names:
                return await fn(m.app, names.names, *a)
        finally:
            await m.app.shutdown()
    try:
        return asyncio.run(main())
    finally:
        tempfile.tempdir = old[0]


def upload(app, names, i, name, content, cut=None):
    names["sxupload%d" % i] = name
    b = multipart(i, content)
    return Client(app, "POST", "/parse", [b] if cut is None else [b[:cut], b[cut:]])


def const(page, name):
    """a constant of the report page"""
    m = re.search("const " + name + r" = (.*);\n", page)
    return json.loads(m.group(1))


# ---------------------------------------------------------------- documents
def plain(env, t, n=1, lint=False):
    body = ""
    for i in range(n):
        rows = [hdr(env, "Value", "Description"), tr(td(p(env, "0h")), td(p(env, "Alpha" + t + ": text")))]
        if lint:
            rows.append(tr(td(p(env, "0h")), td(p(env, "BETA: text"))))
        body += '<table id="%d">' % (i + 1) + figure(env, "Figure %d: T" % (i + 1), rows)[len("<table>"):]
    return document(env, body, spec="Spec")


def pad(html, at, size=9000):
    """the same document with a long comment"""
    c = "<!--" + "x" * size + "-->"
    return html.replace("</body>", c + "</body>") if at == "end" else html.replace("<body>", "<body>" + c)


def expected(env, i, content, suffix=".html", stem="doc"):
    """model and stage 1 document of a content, without the server"""
    d = fresh(env, "exp%d" % i)
    src = d / (stem + suffix)
    src.write_bytes(content)
    out = run_spec(src, d / "out")
    html = src if suffix == ".html" else d / "out" / (stem + ".html")
    return load(out), html.read_bytes().decode("utf-8")


async def check_report(env, app, url, want, bundle=False):
    """all three addresses of a completed upload"""
    h = url.split("/")[-1]
    model, html = want
    r = await get(app, "/json/" + h)
    env.check("P24", r.status == 200, "the JSON address answers")
    if r.status == 200:
        got = json.loads(r.body.decode("utf-8"))
        env.check("P24", got == model, "the model is that of the upload")
    r = await get(app, "/html/" + h)
    env.check("P24", r.status == 200, "the HTML address answers")
    if r.status == 200:
        env.check("P24", r.body.decode("utf-8") == html, "the document is that of the upload")
    r = await get(app, url, b"bundle=1" if bundle else b"")
    env.check("P24", r.status == 200, "the report address answers")
    if r.status == 200:
        env.check("P24", const(r.body.decode("utf-8"), "report") == model, "the report is that of the upload")


async def check_absent(env, app, h, label="an address that no completed upload produced is answered with 404"):
    for a in ("/report/", "/json/", "/html/"):
        r = await get(app, a + h)
        env.check("P24", r.status == 404, label)


NAMES = ["a.html", "b.html", "a.b.html"]


def h_sequence(env, n=2, k=1, figs=1, padded=None, bundle=True, names=2, many=False):
    """uploads one after another, each looked at after each"""
    conts, nms = [], []
    for i in range(n):
        html = plain(env, LETTERS[i] * 3 if many else env.text("t%d" % i, k, LETTERS), figs if i else 1, lint=i % 2 == 1 or env.flag("l%d" % i))
        if padded:
            html = pad(html, padded)
        conts.append(html.encode("utf-8"))
        nms.append(env.pick("n%d" % i, NAMES[:names]))
    wants = [expected(env, i, c) for i, c in enumerate(conts)]
    b = bundle and env.flag("bundle")

    async def go(app, names):
        urls = []
        for i in range(n):
            c = upload(app, names, i, nms[i], conts[i])
            await c.finish()
            env.check("P24", c.status == 200 and c.report is not None, "the upload completes")
            if c.report is None:
                return
            urls.append(c.report)
            for j in range(i + 1):
                await check_report(env, app, urls[j], wants[j], b)
        env.out("same", [sorted(set(x.split("/")[1] for x in urls))])
    serve(env, go)


def h_again(env, k=1, name2=True):
    """the same content twice, another in between, under the same or another name"""
    html = plain(env, env.text("t", k, LETTERS)).encode("utf-8")
    other = plain(env, env.text("u", k, LETTERS), 2, True).encode("utf-8")
    w1, w2 = expected(env, 0, html), expected(env, 1, other)
    names3 = [env.pick("n%d" % i, NAMES[:2]) for i in range(3)]

    async def go(app, names):
        us = []
        for i, c in enumerate([html, other, html]):
            u = upload(app, names, i, names3[i], c)
            await u.finish()
            env.check("P24", u.report is not None, "the upload completes")
            if u.report is None:
                return
            us.append(u.report)
        await check_report(env, app, us[0], w1)
        await check_report(env, app, us[1], w2)
        await check_report(env, app, us[2], w1)
    serve(env, go)


def h_docx(env, k=2, name="w.docx"):
    d = fresh(env, "w")
    ts = [env.text("t%d" % i, k, LETTERS + " ") for i in range(2)]
    conts = []
    for i in range(2):
        b = docx.ptext("Figure 1: T") + docx.table(docx.row(docx.tc(docx.ptext("Value")), docx.tc(docx.ptext("Description"))),
                                                   docx.row(docx.tc(docx.ptext("0h")), docx.tc(docx.ptext("A" + ts[i] + "z: text"))))
        conts.append(docx.write(d / ("x%d.docx" % i), b).read_bytes())
    wants = [expected(env, i, c, ".docx", name[:-5]) for i, c in enumerate(conts)]

    async def go(app, names):
        us = []
        for i in range(2):
            c = upload(app, names, i, name, conts[i])
            await c.finish()
            env.check("P24", c.status == 200 and c.report is not None, "the upload completes")
            if c.report is None:
                return
            us.append(c.report)
        for i in range(2):
            await check_report(env, app, us[i], wants[i])
    serve(env, go)


def h_unknown(env, mode="free", n=3):
    """an address made up by a client; a symbolic part of it is any letters and digits"""
    html = plain(env, "").encode("utf-8")
    t = env.text("h", n, LETTERS + DIGITS)
    up = mode != "none"

    async def go(app, names):
        h = t
        real = None
        if up:
            c = upload(app, names, 0, "a.html", html)
            await c.finish()
            env.check("P24", c.report is not None, "the upload completes")
            if c.report is None:
                return
            real = c.report.split("/")[-1]
            if mode == "prefix":
                h = t + real[n:]
            elif mode == "suffix":
                h = real[:len(real) - n] + t
            elif mode == "long":
                h = real + t
            elif mode == "short":
                h = real[:len(real) - n]
            elif mode == "name":
                h = env.pick("nm", ["a", "a.html", "a.json", real + ".json", real + ".html", real.upper(), "%2e%2e", "*", real[:-1] + "*"])
        if real is not None and h == real:
            await check_report(env, app, "/report/" + real, expected(env, 0, html))
        else:
            await check_absent(env, app, h)
    serve(env, go)


def h_failed(env, k=1):
    """an upload that cannot be processed: no report, and the next one is not affected"""
    kind = env.pick("kind", ["empty", "nohead", "broken", "suffix", "docx"])
    bad = {"empty": "", "nohead": "<html><body></body></html>", "broken": plain(env, "0")[:-20]}.get(kind, plain(env, "0")).encode("utf-8")
    name = {"suffix": "a.txt", "docx": "a.docx"}.get(kind, "a.html")
    good = plain(env, env.text("t", k, LETTERS)).encode("utf-8")
    want = expected(env, 0, good)
    import hashlib
    h = hashlib.md5(bad).hexdigest()

    async def go(app, names):
        c = upload(app, names, 0, name, bad)
        await c.finish()
        env.check("P24", c.report is None, "no report is announced for what cannot be processed")
        await check_absent(env, app, h)
        c = upload(app, names, 1, "a.html", good)
        await c.finish()
        env.check("P24", c.report is not None, "the upload completes")
        if c.report is not None:
            await check_report(env, app, c.report, want)
        await check_absent(env, app, h)
    serve(env, go)


class Digests:
    """stands in for the digest functions: any that tells different contents apart, be it in one digit only"""
    NAMES = ("md5", "sha1", "sha224", "sha256", "sha384", "sha512", "blake2b", "blake2s", "sha3_256", "sha3_512", "new", "file_digest")

    def __init__(self, at):
        self.at = at
        self.seen = []

    def digits(self, data, n):
        if data not in self.seen:
            self.seen.append(data)
        k = self.seen.index(data)
        at = self.at % n
        return "5" * at + "%x" % (15 - k) + "5" * (n - at - 1)

    def __enter__(self):
        import hashlib
        ds = self

        class Digest:
            def __init__(self, size):
                self.digest_size = size
                self.data = b""

            def update(self, b):
                self.data += bytes(b)

            def copy(self):
                d = Digest(self.digest_size)
                d.data = self.data
                return d

            def hexdigest(self):
                return ds.digits(self.data, 2 * self.digest_size)

            def digest(self):
                return bytes.fromhex(self.hexdigest())

        def of(name):
            size = hashlib.new(name).digest_size

            def make(data=b"", **k):
                d = Digest(k.get("digest_size", size))
                d.update(data)
                return d
            return make
        m = application()
        models = {n: of(n) for n in self.NAMES[:-2]}
        models["new"] = lambda name, data=b"", **k: models[name](data)
        models["file_digest"] = lambda fh, how, **k: models[how if isinstance(how, str) else how.__name__](fh.read())
        self.undo = []
        for o in (hashlib, m):
            for n, f in list(vars(o).items()):
                for x in self.NAMES:
                    if f is getattr(hashlib, x) and n in (x, n if o is m else x):
                        self.undo.append((o, n, f, models[x]))
        for o, n, f, x in self.undo:
            setattr(o, n, x)
        return self

    def __exit__(self, *a):
        for o, n, f, x in self.undo:
            setattr(o, n, f)


def h_digest(env, k=1, digits=32):
    """two uploads whose digests differ in one digit, wherever it is"""
    html = plain(env, env.text("t", k, LETTERS)).encode("utf-8")
    other = plain(env, env.text("u", k, LETTERS), 2, True).encode("utf-8")
    wants = [expected(env, i, c) for i, c in enumerate((html, other))]
    at = env.pick("at", list(range(digits)))

    async def go(app, names):
        us = []
        for i, c in enumerate((html, other)):
            u = upload(app, names, i, "a.html", c)
            await u.finish()
            env.check("P24", u.report is not None, "the upload completes")
            if u.report is None:
                return
            us.append(u.report)
            if i == 0:
                h = us[0].split("/")[-1]
                if h[at:at + 1] != "":
                    await check_absent(env, app, h[:at] + ("0" if h[at] != "0" else "1") + h[at + 1:])
        for i in range(2):
            await check_report(env, app, us[i], wants[i])
    with Digests(at):
        serve(env, go)


NEAR = ["case", "blank", "end", "crlf", "accent", "order", "entity", "comment", "front", "middle", "last", "swap", "quote", "tail", "tail blank", "lead"]


def h_near(env, k=1, size=9000):
    """two uploads that differ in next to nothing"""
    tx = env.text("t", k, LETTERS)
    near = env.pick("near", NEAR)

    def make(other):
        def v(kind, a, b):
            return b if other and near == kind else a
        long = ["x" * size, "y" * 10, "x" * size]
        ps = ["<!--" + v("front", "x", "y") + "-->", "<!--" + long[0] + v("middle", "xy", "yx") + long[2] + "-->"]
        rows = [[v("quote", "Alpha", "alpha") + tx + ": " + v("case", "Some", "some") + v("blank", " text", "  text"), "0h"],
                ["Beta: " + v("accent", "\u00e9", "\u00e8") + v("swap", "ab", "ba"), "1h"]]
        trs = [tr(td(p(env, b)), td(p(env, a))) for a, b in rows]
        trs = trs[::-1] if other and near == "order" else trs
        body = "".join(ps) + figure(env, "Figure 1: T", [hdr(env, "Value", "Description")] + trs)
        html = document(env, body, spec="Spec")
        if near == "entity" and other:
            html = html.replace("Beta", "&#66;eta")
        if near == "crlf":
            html = html.replace("</tr>", "</tr>\r\n" if other else "</tr>\n")
        html = v("lead", "", "\n") + html
        return html + v("end", "", "\n") + v("comment", "", "<!-- -->") + "<!--" + "z" * 64 + v("last", "a", "b") + "-->" + v("tail", "", "\n") + v("tail blank", "\n", "\n ")
    conts = [make(False).encode("utf-8"), make(True).encode("utf-8")]
    if env.flag("o"):
        conts.reverse()
    wants = [expected(env, i, c) for i, c in enumerate(conts)]

    async def go(app, names):
        us = []
        for i, c in enumerate(conts):
            u = upload(app, names, i, "a.html", c)
            await u.finish()
            env.check("P24", u.report is not None, "the upload completes")
            if u.report is None:
                return
            us.append(u.report)
        for i in range(2):
            await check_report(env, app, us[i], wants[i])
    serve(env, go)


# ---------------------------------------------------------------- schedules
def h_schedule(env, n=2, k=1, names=2, drops=0, figs=1, cut=None, same=False, probe=True, steps=40):
    """every order in which the connections advance; up to `drops` of them hang up, at any point"""
    conts = []
    nms = []
    for i in range(n):
        t = env.text("t%d" % i, k, LETTERS) if not same or i == 0 else None
        conts.append(conts[0] if t is None else plain(env, t + "abc"[i], figs).encode("utf-8"))
        nms.append(env.pick("n%d" % i, NAMES[:names]))
    wants = [expected(env, i, c) for i, c in enumerate(conts)]
    import hashlib
    hashes = [hashlib.md5(c).hexdigest() for c in conts]
    tmp = Path(env.scratch) / "tmp"

    async def go(app, names):
        base = sorted(x.name for x in tmp.iterdir())
        cs = [upload(app, names, i, nms[i], conts[i], cut) for i in range(n)]
        left = drops
        at = 0
        trace = ""
        while True:
            act = [c for c in cs if not c.done and not c.hung]
            if not act:
                break
            at += 1
            if at > steps:
                env.check("P31", False, "the uploads end")
                return
            i = 0
            while i < len(act) - 1 and not env.flag("s%d_%d" % (at, i)):
                i += 1
            c = act[i]
            if left > 0 and c.task is not None and env.flag("d%d" % at):
                left -= 1
                await c.hang_up()
                trace = trace + "x%d" % cs.index(c)
                env.check("P31", c.done, "a dropped connection ends")
            else:
                await c.step()
                trace = trace + ".%d" % cs.index(c)
                if probe and c.report is None and not any(hashes[cs.index(c)] == hashes[j] for j in range(n) if cs[j] is not c):
                    await check_absent(env, app, hashes[cs.index(c)], "there is no report before the upload completes")
        env.out("trace", trace)
        finished = [i for i in range(n) if not cs[i].hung]
        for i in finished:
            for q in ("P24", "P31"):
                env.check(q, cs[i].status == 200 and cs[i].report is not None, "an upload completes whatever the others do")
            if cs[i].report is not None:
                await check_report(env, app, cs[i].report, wants[i])
                r = await get(app, "/json/" + cs[i].report.split("/")[-1])
                env.check("P31", r.status == 200 and json.loads(r.body.decode("utf-8")) == wants[i][0], "the result of an upload does not depend on the others")
        cs.clear()
        c = None
        act = None
        await asyncio.sleep(0)
        gc.collect()
        env.check("P31", sorted(x.name for x in tmp.iterdir()) == base, "the temporary files of every upload are removed")
    serve(env, go)


# ---------------------------------------------------------------- P25
NOTNUL = lib.ALL
SEP = "/.\\"


def known(env, s, chars=SEP):
    """the same text, with the characters that matter for paths determined"""
    out = ""
    for c in s:
        for x in chars:
            if c == x:
                c = x
                break
        out = out + c
    return out


SPELT = ["%2e%2e%2f", "..%2f", "%2f", "....//", "..././", "..\\/", "&#46;&#46;&#47;", "&#x2f;", "\uff0e\uff0e\uff0f", "\u2025\uff0f", "\u2215", "~/", "~root/", "$HOME/", "${HOME}/",
         "=?utf-8?q?=2e=2e=2f?=", "%252e%252e%252f", "..%5c", "file:///", "\x00/", "../\x00", "\r\n/", "\\x2f", "\\u002f", "\t/", "..;/", "\u202e/"]


def h_name(env, n=3, pre="", post="", allowed=None, victim=False, content="html", spelt=False):
    name = env.text("f", n, allowed or NOTNUL)
    name = pre + known(env, name) + post
    if spelt:
        name = env.pick("lead", ["", "a", "x/"]) + env.pick("spelt", SPELT) + name
    if victim:
        v = fresh(env, "victim")
        (v / "a.html").write_text("precious")
        (v / "a.json").write_text("precious")
        name = str(v) + "/" + name
    html = (plain(env, "") if content == "html" else "x").encode("utf-8")
    if content == "docx":
        b = docx.table(docx.row(docx.tc(docx.ptext("Figure 1: T"), span=2)), docx.row(docx.tc(docx.ptext("Value")), docx.tc(docx.ptext("Description"))), docx.row(docx.tc(docx.ptext("0h")), docx.tc(docx.ptext("ALPHA: text"))))
        html = docx.write(fresh(env, "w") / "x.docx", b).read_bytes()
    out = []

    async def go(app, names):
        c = upload(app, names, 0, name, html)
        await c.finish()
        out.append(c.status)
        if c.report is not None:
            for a in ("/report/", "/json/", "/html/"):
                await get(app, a + c.report.split("/")[-1])
    tmp = Path(env.scratch) / "tmp"
    gs = []

    async def guarded(app, names):
        gs.append(guard.on(list(tmp.iterdir())))
        try:
            await go(app, names)
        finally:
            guard.off()
    serve(env, guarded)
    env.out("bad", [x[0] for x in gs[0].bad])
    env.check("P25", gs[0].bad == [], "nothing is written outside of the server's temporary folders")


# ---------------------------------------------------------------- P26
def h_select(env, ids=("1", "2"), m=1, k=2, allowed=DIGITS + "_", tid=0, inside=False):
    """the selection itself: `m` symbolic figure ids against tables with known ids, or (tid) symbolic ones"""
    from spexsrv.application.report_view import get_erroneous_figures
    d = fresh(env, "sel")
    ids = list(ids)
    if tid:
        ids = [env.text("i%d" % i, tid, (allowed or lib.ALL).replace("_", "")) for i in range(len(ids))]
        for i in range(len(ids)):
            for j in range(i):
                env.assume(env.Not(ids[i] == ids[j]))
    body = ""
    for n, i in enumerate(ids):
        sub = i + "_1"
        if inside:  # a table in a cell has an id of its own, which may be that of a figure
            sub = env.pick("in%d" % n, [sub] + [x for x in ids] + ["9"])
        body += '<table id="' + lib.esc(env, i) + '"><tr><td><p>Figure</p></td></tr><tr><td><p>1h</p></td><td><table id="' + lib.esc(env, sub) + \
            '"><tr><td><p>inner</p></td></tr></table></td></tr></table>\n<p>between</p>\n'
    doc = d / "doc.html"
    doc.write_text(document(env, body))
    figs = [env.text("f%d" % i, k, allowed) for i in range(m)]
    for i in range(m):
        for j in range(i):
            env.assume(env.Not(figs[i] == figs[j]))
    ok, got = env.attempt(get_erroneous_figures, list(figs), doc)
    env.check("P26", ok, "figure ids that name no table are left out without an error")
    if not ok:
        return
    tree = etree.parse(str(doc))
    tabs = tree.xpath("./body/table")
    shown = 0
    for f in figs:
        top = f.split("_")[0]
        hit = None
        for i in range(len(ids)):
            if ids[i] == top:
                hit = i
        env.check("P26", (f in got) == (hit is not None), "a figure is shown exactly when its table exists")
        if hit is not None and f in got:
            shown += 1
            want = etree.tostring(tabs[hit], encoding="unicode", with_tail=False)
            env.check("P26", "".join(got[f].split()).startswith("".join(want.split())), "what is shown is the complete table of the figure")
    env.out("shown", shown)
    env.check("P26", len(got) == shown, "nothing else is shown")


LINTS = ["none", "value", "nested", "both", "deep", "deeper", "fails", "head", "foo"]


def lint_doc(env, nums, kinds, long=0):
    """figures with numbers `nums`; kinds tell where their lint is"""
    body = ""
    for num, kind in zip(nums, kinds):
        dup = kind in ("value", "both")
        inner = ""
        if kind not in ("none", "value", "fails", "head", "foo"):
            inner = nested([hdr(env, "Foo", "Bar"), tr(td(p(env, "1")), td(p(env, "2")))])
        for _ in range({"deep": 1, "deeper": 3}.get(kind, 0)):
            inner = nested([hdr(env, "Value", "Description"), tr(td(p(env, "0h")), td(p(env, "GAMMA: text") + inner))])
        rows = [hdr(env, "Value", "Description"), tr(td(p(env, "0h")), td(p(env, "ALPHA: text" + " word" * (long // 5)) + inner)), tr(td(p(env, "0h" if dup else "1h")), td(p(env, "BETA: text") if kind != "fails" else "text"))]
        if kind == "head":
            # a heading that spans an impossible number of columns
            rows[0] = tr("<th colspan='x'>" + p(env, "Value") + "</th>", td(p(env, "Description"), tag="th"))
        if kind == "foo":
            rows[0] = hdr(env, "Foo", "Description")
        body += '<table id="' + lib.esc(env, num) + '">' + figure(env, "Figure " + num + ": T", rows)[len("<table>"):]
    return document(env, body)


def h_page(env, n=2, digits=1, missing=False, bundle=False, long=0):
    """the report page of an uploaded document"""
    nums = [env.text("n%d" % i, digits, DIGITS) for i in range(n)]
    for i in range(n):
        for j in range(i):
            env.assume(env.Not(nums[i] == nums[j]))
    kinds = [env.pick("k%d" % i, LINTS) for i in range(n)]
    html = lint_doc(env, nums, kinds, long)
    if missing:
        extra = '<table id="x">' + figure(env, "Figure : T", [hdr(env, "Value", "Description")])[len("<table>"):]
        html = html.replace("<body>", "<body>" + extra) if env.flag("first") else html.replace("</body>", extra + "</body>")
    out = []

    async def go(app, names):
        c = upload(app, names, 0, "a.html", html.encode("utf-8"))
        await c.finish()
        env.check("P26", c.report is not None, "the upload completes")
        if c.report is None:
            return
        r = await get(app, c.report, b"bundle=1" if bundle else b"")
        env.check("P26", r.status == 200, "there is a report page")
        if r.status != 200:
            return
        page = r.body.decode("utf-8")
        got = const(page, "report_html")
        model = const(page, "report")
        figs = [x["fig"] for x in model["meta"]["lint"]]
        out.append(sorted(got))
        for i in range(n):
            has = any(f.split("_")[0] == nums[i] for f in figs)
            env.check("P26", has == (kinds[i] != "none"), "the report lists the figure's lint")
            env.check("P26", (nums[i] in got) == has, "a figure is shown exactly when some lint refers to it")
            if nums[i] in got and has:
                tab = [x for x in etree.fromstring(html).xpath("./body/table") if x.get("id") == nums[i]][0]
                want = etree.tostring(tab, encoding="unicode", with_tail=False)
                env.check("P26", "".join(got[nums[i]].split()).startswith("".join(want.split())), "what is shown is the complete table of the figure")
        env.check("P26", len(got) == len([k for k in kinds if k != "none"]), "nothing else is shown")
    serve(env, go)


def h_page_docx(env, n=2, k=1, digits=1):
    """the report page of an uploaded Word document; captions go on with any text behind the colon"""
    nums = [env.text("n%d" % i, digits, DIGITS) for i in range(n)]
    for i in range(n):
        for j in range(i):
            env.assume(env.Not(nums[i] == nums[j]))
    dups = [env.flag("d%d" % i) for i in range(n)]
    caps = [env.text("c%d" % i, k) if i == 0 else env.pick("c%d" % i, ["", " T", "T"]) for i in range(n)]
    d = fresh(env, "w")
    b = ""
    for i in range(n):
        r = [docx.row(docx.tc(docx.par(docx.run("Figure "), docx.run(nums[i] + ":" + caps[i])), span=2)), docx.row(docx.tc(docx.ptext("Value")), docx.tc(docx.ptext("Description")))]
        for v, x in (("0h", "ALPHA"), ("0h" if dups[i] else "1h", "BETA")):
            r.append(docx.row(docx.tc(docx.ptext(v)), docx.tc(docx.ptext(x + ": text"))))
        b += docx.table(*r)
    cont = docx.write(d / "x.docx", b).read_bytes()

    async def go(app, names):
        c = upload(app, names, 0, "w.docx", cont)
        await c.finish()
        env.check("P26", c.report is not None, "the upload completes")
        if c.report is None:
            return
        r = await get(app, c.report)
        env.check("P26", r.status == 200, "there is a report page")
        if r.status != 200:
            return
        page = r.body.decode("utf-8")
        got = const(page, "report_html")
        env.out("got", sorted(got))
        for i in range(n):
            env.check("P26", (nums[i] in got) == dups[i], "a figure is shown exactly when some lint refers to it")
            if nums[i] in got:
                env.check("P26", nums[i] + ":" + caps[i].strip() in got[nums[i]] or caps[i] != "" and not caps[i].isalnum(), "it is the table of that figure")
        env.check("P26", len(got) == len([x for x in dups if x]), "nothing else is shown")
    serve(env, go)


# ---------------------------------------------------------------- P34
def fig_of(env, kind, i, tx):
    """one figure, with how many entities it yields"""
    t = "Figure %d: T" % (i + 1)
    inner = nested([hdr(env, "Value", "Description"), tr(td(p(env, "0h")), td(p(env, "Zero: x")))])
    if kind == "plain":
        return figure(env, t, [hdr(env, "Value", "Description"), tr(td(p(env, "0h")), td(p(env, "Alpha" + tx + ": t")))]), 1
    if kind == "nested":
        return figure(env, t, [hdr(env, "Bits", "Description"), tr(td(p(env, "7:4")), td(p(env, "Beta" + tx + " (BE): t") + inner)), tr(td(p(env, "3:0")), td(p(env, "Low (LO): t") + inner + inner))]), 4
    if kind == "failing":
        return figure(env, t, [hdr(env, "Bits", "Description"), tr(td(p(env, "7:4")), td("x"))]), 0
    if kind == "late":  # fails behind a nested table
        return figure(env, t, [hdr(env, "Bits", "Description"), tr(td(p(env, "7:4")), td(p(env, "Beta (BE): t") + inner)), tr(td(p(env, "3:0")), td("x"))]), None
    if kind == "unknown":
        return figure(env, t, [hdr(env, "Foo" + tx, "Bar"), tr(td(p(env, "1")), td(p(env, "2")))]), 0
    if kind == "nonum":
        return figure(env, "Figure", [hdr(env, "Value", "Description")]), 0
    return "<table>" + tr(td(p(env, "Plain" + tx))) + "</table>", 0


EVKINDS = ["plain", "nested", "failing", "late", "unknown", "nonum", "table"]


def judge_stream(env, c):
    """the answer to an upload is a series of events, one per message"""
    env.check("P34", c.status == 200, "an upload is answered")
    h = dict((k.lower(), v) for k, v in c.sent[0]["headers"])
    env.check("P34", h.get(b"content-type", b"").split(b";")[0] == b"text/event-stream", "with a stream of events")
    evs = []
    for m in c.sent[1:]:
        b = m.get("body", b"")
        if b == b"":
            continue
        s = b.decode("utf-8")
        ok = s.startswith("data: ") and s.endswith("\n\n") and "\n" not in s[:-2]
        if ok:
            ok, e = env.attempt(json.loads, s[len("data: "):])
        env.check("P34", ok, "every message is one event")
        if not ok:
            return None
        evs.append(e)
    return evs


def judge_events(env, evs, word, model, done):
    last = evs[-1:] if done else []
    env.check("P34", not done or last != [] and last[0]["type"] == "report-completed", "a processed upload ends with its report")
    ups = evs[:-1] if done else evs
    env.check("P34", all([e["type"] == "progress-update" for e in ups]), "before that there are progress events only")
    if not all([e["type"] == "progress-update" for e in ups]):
        return
    ph = [e["phase"] for e in ups]
    k = len([x for x in ph if x == "html"])
    env.check("P34", ph == ["html"] * k + ["json"] * (len(ph) - k) and (word or k == 0), "first the Word document is read, then the figures")
    for name in ("html", "json"):
        part = [e for e in ups if e["phase"] == name]
        env.check("P34", all([0 <= e["fig_ndx"] < e["num_figs"] for e in part]), "no figure is beyond the number of figures")
        env.check("P34", part == [] or part[0]["fig_ndx"] == 0, "progress starts at the first figure")
        env.check("P34", all([a["fig_ndx"] <= b["fig_ndx"] <= a["fig_ndx"] + 1 and a["num_figs"] == b["num_figs"] for a, b in zip(part, part[1:])]), "progress never goes back, nor skips")
    if model is not None:
        env.check("P34", len(ph) - k == len(model["entities"]), "one event per entity")


def h_events(env, n=2, k=1, word=False, kinds=None, times=1, long=0):
    """the events of an upload of every sort of figures"""
    tx = env.text("t", k, LETTERS)
    ks = [env.pick("k%d" % i, kinds or EVKINDS) for i in range(n)]
    figs = [fig_of(env, ks[i], i, tx if i == 0 else "") for i in range(n)]
    content = document(env, "".join(f[0] for f in figs) + ("<p>" + "word " * (long // 5) + "</p>" if long else ""), spec="Spec").encode("utf-8")
    want = expected(env, 0, content)

    async def go(app, names):
        out = []
        for j in range(times):
            c = upload(app, names, j, "a.html", content)
            await c.finish()
            evs = judge_stream(env, c)
            if evs is None:
                return
            out += [e for e in evs if e["type"] == "progress-update"]
            judge_events(env, evs, False, want[0], True)
            if evs and evs[-1]["type"] == "report-completed":
                u = evs[-1]["url"]
                r = await get(app, u.replace("/report/", "/json/"))
                env.check("P34", r.status == 200, "the report is there")
        env.out("evs", out)
    serve(env, go)


def h_events_word(env, n=2, k=1, kinds=("plain", "nested", "inner", "text", "unknown"), times=1):
    """the events of Word uploads"""
    from . import docx
    from .docx import par, ptext, row, run, table, tc
    tx = env.text("t", k, LETTERS)
    grey = "BFBFBF"
    body = ""
    for i in range(n):
        w = env.pick("k%d" % i, list(kinds))
        x = tx if i == 0 else ""
        inner = table(row(tc(ptext("Value"), fill=grey), tc(ptext("Description"), fill=grey)), row(tc(ptext("0h")), tc(ptext("Zero: x"))))
        if w in ("plain", "nested"):
            body += table(row(tc(ptext("Figure %d: T" % (i + 1)), span=2)), row(tc(ptext("Bits"), fill=grey), tc(ptext("Description"), fill=grey)),
                          row(tc(ptext("7:4")), tc(ptext("Beta" + x + " (BE): t"), *([inner, par()] if w == "nested" else []))), row(tc(ptext("3:0")), tc(ptext("Low (LO): t"))))
        elif w == "unknown":
            body += table(row(tc(ptext("Figure %d: T" % (i + 1)), span=2)), row(tc(ptext("Foo" + x), fill=grey), tc(ptext("Bar"), fill=grey)), row(tc(ptext("1")), tc(ptext("2"))))
        elif w == "inner":
            body += table(row(tc(table(row(tc(ptext("a" + x)))), par())))
        else:
            body += par(run("text" + x))
    d = docx.fresh(env)
    docx.write(d / "a.docx", body)
    content = (d / "a.docx").read_bytes()
    want = expected(env, 0, content, ".docx", "a")

    async def go(app, names):
        out = []
        for j in range(times):
            c = upload(app, names, j, "a.docx", content)
            await c.finish()
            evs = judge_stream(env, c)
            if evs is None:
                return
            out += [e for e in evs if e["type"] == "progress-update"]
            judge_events(env, evs, True, want[0], True)
        env.out("evs", out)
    serve(env, go)


def h_events_failed(env, k=1):
    """uploads that cannot be processed end without a report"""
    kind = env.pick("kind", ["empty", "nohead", "broken", "suffix", "docx", "nometa"])
    bad = {"empty": "", "nohead": "<html><body></body></html>", "broken": plain(env, "0")[:-20], "nometa": "<html><head></head><body></body></html>"}.get(kind, plain(env, env.text("t", k, LETTERS))).encode("utf-8")
    name = {"suffix": "a.txt", "docx": "a.docx"}.get(kind, "a.html")

    async def go(app, names):
        c = upload(app, names, 0, name, bad)
        await c.finish()
        env.out("st", c.status)
        evs = judge_stream(env, c)
        if evs is None:
            return
        judge_events(env, evs, False, None, False)
        env.check("P34", list(app.config["SPEX_CACHE_LOOKUP"]) == [], "nothing is kept")
    serve(env, go)


def h_refused(env):
    """requests that are no uploads are refused, and leave nothing"""
    import tempfile
    field = env.pick("field", ["document", "Document", "doc", "", "file", "none"])
    accept = env.pick("accept", ["text/event-stream", "text/html", "", "application/json", "text/event-stream;q=0.5, text/html", "*/*", "text/*", "text/event-streams"])
    name = env.pick("name", ["a.html", "", ".", "..", "x/", "x/.."])
    content = plain(env, "x").encode("utf-8")
    b = multipart(0, content).replace(b'name="document"', b'name="' + field.encode() + b'"')
    if field == "none":
        b = ("--%s--\r\n" % BOUNDARY).encode()

    async def go(app, names):
        names["sxupload0"] = name
        c = Client(app, "POST", "/parse", [b])
        c.scope["headers"] = [(k, v) for k, v in c.scope["headers"] if k != b"accept"] + ([(b"accept", accept.encode())] if accept else [])
        before = sorted(os.listdir(tempfile.gettempdir()))
        await c.finish()
        env.out("st", c.status)
        ok = accept in ("text/event-stream", "text/event-stream;q=0.5, text/html", "*/*", "text/*")
        if field != "document":
            env.check("P34", c.status == 422, "a request without a document is refused")
        elif not ok or name in ("", ".", "..", "x/.."):
            env.check("P34", c.status is not None and 400 <= c.status < 500, "a request that cannot be answered is refused")
        else:
            return
        env.check("P34", c.events() == [], "no events")
        env.check("P34", sorted(os.listdir(tempfile.gettempdir())) == before, "nothing is left of a refused request")
        env.check("P34", list(app.config["SPEX_CACHE_LOOKUP"]) == [], "nothing is kept")
    serve(env, go)


# ---------------------------------------------------------------- P35
HOLES = [("", ""), ("<", "script>alert(1)</script>"), ("</script", "<b>"), ("<!-", "-<script>"), ("&", "lt;/script&gt;"), ("\\", "u003c/script>"), ("\"", "];alert(1);//"), ("{{ 7*", "7 }}{% raw %}")]


def h_data(env, n=1, where=None, holes=None, allowed=None, bundle=True):
    """texts of every sort at every place of a document: they stay data"""
    w = env.pick("w", where or ["title", "label", "brief", "value", "spec", "heading", "cell"])
    a, b = env.pick("h", holes or HOLES)
    tx = a + env.text("t", n, allowed) + b

    def build(x):
        def m(k, d):
            return d + (x if w == k else "")
        rows = [hdr(env, "Value", "Description"), tr(td(p(env, m("value", "0h"))), td(p(env, m("label", "Al") + ": " + m("brief", "text")))), tr(td(p(env, "1h")), td(p(env, "al: x"))), tr(td(p(env, "1h")), td(p(env, m("cell", "? "))))]
        t1 = '<table id="1">' + figure(env, "Figure 1: T" + m("title", "T"), rows)[len("<table>"):]
        t2 = '<table id="2">' + figure(env, "Figure 2: U", [hdr(env, m("heading", "Foo"), "Bar"), tr(td(p(env, "1")), td(p(env, "2")))])[len("<table>"):]
        return document(env, t1 + t2, spec=lib_esc(m("spec", "Spec"))).encode("utf-8")
    from .lib import _esc1 as lib_esc
    bad, good = build(tx), build("q")
    ok, want = env.attempt(expected, env, 0, bad)
    env.assume(ok)
    bundled = bundle and env.flag("bundle")

    async def go(app, names):
        pages = []
        for i, c in enumerate((bad, good)):
            u = upload(app, names, i, "a.html", c)
            await u.finish()
            env.check("P35", u.report is not None, "the upload completes")
            if u.report is None:
                return
            r = await get(app, u.report, b"bundle=1" if bundled else b"")
            env.check("P35", r.status == 200, "there is a report page")
            if r.status != 200:
                return
            pages.append(r.body.decode("utf-8").replace(u.report.split("/")[-1], "HASH"))
        kept = []
        for page in pages:
            rest = []
            for line in page.split("\n"):
                s = line.strip()
                k = [x for x in CONSTS if s.startswith("const " + x + " = ")]
                if k:
                    v = s[len("const " + k[0] + " = "):]
                    env.check("P35", v.endswith(";") and env.attempt(json.loads, v[:-1])[0], "the data of the page are JSON")
                    env.check("P35", "<" not in v, "data cannot end their script, nor start markup")
                    rest.append("const " + k[0])
                else:
                    rest.append(line)
            kept.append(rest)
        env.check("P35", kept[0] == kept[1], "nothing of the document is anywhere else in the page")
        env.check("P35", const(pages[0], "report") == want[0], "the page has the data of the model")
    serve(env, go)


CONSTS = ("report", "erroneous_figure_ids", "report_html")
