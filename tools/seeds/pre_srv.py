import asyncio, json, os, sys, tempfile
from pathlib import Path
SCRATCH = tempfile.TemporaryDirectory(prefix="spexdemo_")
os.chdir(SCRATCH.name)  # spex writes its log file here
tempfile.tempdir = SCRATCH.name
sys.path.insert(0, "/repo/src")
from quart.datastructures import FileStorage
import io
from spexsrv.application.app import app


def html(fig, rows, spec="Demo", rev="1.0"):
    t = f"<table id='{fig}'><tr><td colspan='2'><p>Figure {fig}: T</p></td></tr><tr><th><p>Bits</p></th><th><p>Description</p></th></tr>"
    for a, b in rows:
        t += f"<tr><td><p>{a}</p></td><td><p>{b}</p></td></tr>"
    return f'<html><head><meta data-spec="{spec}" data-revision="{rev}"/></head><body>{t}</table></body></html>'


async def post(client, name, data):
    rv = await client.post("/parse", files={"document": FileStorage(io.BytesIO(data.encode()), filename=name)},
                           headers={"Accept": "text/event-stream"})
    body = (await rv.get_data(as_text=True))
    evs = [json.loads(x[6:]) for x in body.split("\n\n") if x.startswith("data: ")]
    return evs


def url_of(evs):
    return [e["url"] for e in evs if e["type"] == "report-completed"][0]
