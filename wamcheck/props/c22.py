"""C22: downloads are complete or fail, and never overwrite existing data."""

import gzip
import hashlib
import json
import os
import socket
import threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from pathlib import Path
from unittest import mock
from urllib.parse import quote, unquote, urlsplit

import numpy as np

from wamcheck import runner

LEVEL = "fault_enumeration"
RULE = (
    "a loopback server offers a random data set the way the repository does (article with files and data link, catalogue, files; several ways of transfer). The download "
    "command runs once without fault; then again for every request it made and every fault that fits (error status, connection dropped before or within the answer, "
    "answer cut short, listings that are not valid), for every kind of existing target, for names that point outside and for bad identifiers. Monitored: exit, every "
    "byte in the target, checksums of everything around it. Non-trivial: the undisturbed download was complete and each fault was really delivered."
)
MINIMUM = {"downloads_ok": 20, "files_compared": 100, "bytes_compared": 1000000, "faults": 300, "faults_delivered": 300, "faults_status": 100, "faults_drop": 60, "faults_cut": 60, "faults_listing": 40, "targets_existing": 50, "identifiers": 60, "outside_names": 10}
ASSUMPTIONS = [
    "requests to the repository's hosts are sent to a loopback server by replacing the address just before sending",
    "an answer cut short is one the transfer protocol shows to be incomplete (declared length or chunks)",
    "files in catalogues that the catalogue only refers to are not listed in it",
]
HOST = {"data.4tu.nl", "opendap.4tu.nl"}


def warm(d):
    import bs4  # noqa: F401
    import lxml  # noqa: F401
    import requests  # noqa: F401
    import threddsclient  # noqa: F401


def cases(tier, seed):
    n = 24 if tier == "quick" else 300
    rng = np.random.default_rng([seed, 2222])
    return [dict(seed=int(rng.integers(2**31)), files=int(rng.integers(0, 5)) if i % 6 else 3, extra=int(rng.integers(0, 3)) if i % 5 else 2) for i in range(n)]


STATUS = [400, 403, 404, 410, 429, 500, 502, 503]


class Server:
    """Offers pages: path -> (bytes, how). Faults apply to the n-th request."""

    def __init__(self):
        self.pages, self.log, self.fault, self.delivered, self.conns = {}, [], None, 0, set()
        outer = self

        class H(BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def log_message(self, *a):
                pass

            def do_GET(self):
                try:
                    outer.answer(self)
                except (BrokenPipeError, ConnectionError):
                    self.close_connection = True

        self.http = ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.http.daemon_threads = True
        self.port = self.http.server_address[1]
        threading.Thread(target=self.http.serve_forever, kwargs=dict(poll_interval=0.02), daemon=True).start()

    def answer(self, h):
        path = unquote(h.path)
        k = len(self.log)
        self.log.append(path)
        fault = self.fault[1] if self.fault and self.fault[0] == k else None
        if path not in self.pages:
            return self.send(h, 404, b"<html><body>not found</body></html>")
        body, how = self.pages[path]
        if fault is not None:
            self.delivered += 1
            kind, arg = fault
            if kind == "status":
                return self.send(h, arg, b"<html><body>sorry</body></html>" if k % 2 else body)
            if kind == "replace":
                return self.send(h, 200, arg)
            h.close_connection = True
            if kind == "drop":
                return self.kill(h, arg)
            if kind == "cut":
                n = int(len(body) * arg) if len(body) > 1 else 0
                h.send_response(200)
                h.send_header("Content-Length", str(max(len(body), 1)))
                h.end_headers()
                h.wfile.write(body[:n])
                return self.kill(h, "close")
            if kind == "cutchunk":
                n = int(len(body) * arg)
                h.send_response(200)
                h.send_header("Transfer-Encoding", "chunked")
                h.end_headers()
                if n:
                    h.wfile.write(b"%x\r\n" % n + body[:n] + b"\r\n")
                return self.kill(h, "close")
            raise AssertionError(kind)
        if how == "redirect" and not h.path.endswith("-moved"):
            h.send_response(302)
            h.send_header("Location", f"https://data.4tu.nl{quote(path)}-moved")
            h.send_header("Content-Length", "0")
            h.end_headers()
            return
        self.send(h, 200, body, how)

    def kill(self, h, how):
        try:
            h.wfile.flush()
            if how == "reset":
                h.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\x01\0\0\0\0\0\0\0")
                h.connection.close()
            else:
                h.connection.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass

    def send(self, h, status, body, how="length"):
        h.send_response(status)
        if how == "gzip":
            body = gzip.compress(body)
            h.send_header("Content-Encoding", "gzip")
        if how == "chunked":
            h.send_header("Transfer-Encoding", "chunked")
            h.end_headers()
            step = max(1, len(body) // 3)
            for a in range(0, len(body), step):
                part = body[a : a + step]
                h.wfile.write(b"%x\r\n" % len(part) + part + b"\r\n")
            h.wfile.write(b"0\r\n\r\n")
        elif how == "close":
            h.send_header("Connection", "close")
            h.end_headers()
            h.wfile.write(body)
            h.close_connection = True
        else:
            h.send_header("Content-Length", str(len(body)))
            h.end_headers()
            h.wfile.write(body)

    def close(self):
        self.http.shutdown()
        self.http.server_close()


def redirect(port):
    import requests

    real = requests.Session.send

    def send(self, request, **kw):
        u = urlsplit(request.url)
        if u.hostname in HOST:
            request.url = f"http://127.0.0.1:{port}{u.path}" + (f"?{u.query}" if u.query else "")
        elif u.hostname != "127.0.0.1":
            raise AssertionError(f"request to {request.url}")
        kw["proxies"] = {}
        return real(self, request, **kw)

    return mock.patch.object(requests.Session, "send", send)


def offer(s, uuid, case, rng, extra_names=None):
    """Fill the server with a data set; returns the files that have to arrive."""
    want = {}
    base = f"/thredds/{uuid[:8]}/1"
    ds = []
    sizes = [0, 1, 17, 4096, 70000, 2**20, 2**20 + 1, 300000]
    names = ["2022-08-0%d_fluxes_storages.nc", "ERA5 day %d.nc", "caf\u00e9_%d.nc", "a+b&c_%d.nc", "plain%d", ".hidden%d.nc"]

    def blob():
        return rng.bytes(int(sizes[int(rng.integers(len(sizes)))]))

    def how():
        return ["length", "length", "chunked", "gzip", "close", "redirect"][int(rng.integers(6))]

    for k in range(case["files"]):
        n = names[int(rng.integers(len(names)))] % k
        data, h = blob(), how()
        s.pages[f"/thredds/fileServer{base}/{n}"] = (data, h)
        s.pages[f"/thredds/fileServer{base}/{n}-moved"] = (data, "length")
        want[n] = data
        esc = n.replace("&", "&amp;")
        ds.append(f'<dataset name="{esc}" ID="{k}" urlPath="{base[1:]}/{esc}"><serviceName>all</serviceName></dataset>'.replace("<serviceName>all</serviceName>", "<serviceName>all</serviceName>" if rng.uniform() < 0.5 else "<serviceName>http</serviceName>"))
    inner = "".join(ds)
    if ds and rng.uniform() < 0.5:  # some of them in a collection within
        inner = f'<dataset name="in">{"".join(ds[1:])}</dataset>' + ds[0]
    services = '<service name="all" serviceType="Compound" base=""><service name="odap" serviceType="OPENDAP" base="/thredds/dodsC/"/><service name="http" serviceType="HTTPServer" base="/thredds/fileServer/"/></service><service name="http" serviceType="HTTPServer" base="/thredds/fileServer/"/>'
    xml = f'<?xml version="1.0" encoding="UTF-8"?><catalog xmlns="http://www.unidata.ucar.edu/namespaces/thredds/InvCatalog/v1.0" xmlns:xlink="http://www.w3.org/1999/xlink" version="1.2">{services}<dataset name="top">{inner}</dataset></catalog>'
    s.pages[f"/thredds/catalog{base}/catalog.xml"] = (xml.encode(), ["length", "chunked", "gzip"][int(rng.integers(3))])
    files = []
    for k in range(case["extra"] if extra_names is None else len(extra_names)):
        n = ["config_%d.yaml", "read me %d.txt", "mask%d.nc"][k % 3] % k if extra_names is None else extra_names[k]
        data, h = blob(), how()
        p = f"/file/{uuid}/{k}{'abc'[k % 3]}"
        s.pages[p] = (data, h)
        s.pages[p + "-moved"] = (data, "length")
        want[n] = data
        files.append({"id": k, "name": n, "size": len(data), "download_url": f"https://data.4tu.nl{p}", "computed_md5": hashlib.md5(data).hexdigest()})
    fields = [{"name": "Data Link", "value": [f"https://opendap.4tu.nl/thredds/catalog{base}/catalog.{['html', 'xml'][int(rng.integers(2))]}"]}, {"name": "Publisher", "value": ["4TU"]}, {"name": "Format", "value": "netCDF"}]
    order = rng.permutation(len(fields))
    s.pages[f"/v2/articles/{uuid}"] = (json.dumps({"title": "x", "files": files, "custom_fields": [fields[k] for k in order]}).encode(), ["length", "chunked", "gzip"][int(rng.integers(3))])
    return want


def snapshot(folder):
    out = {}
    for p in sorted(Path(folder).rglob("*")):
        n = str(p.relative_to(folder))
        if p.is_symlink():
            out[n] = "-> " + os.readlink(p)
        elif p.is_file():
            out[n] = hashlib.sha256(p.read_bytes()).hexdigest()
        else:
            out[n] = "dir"
    return out


def fresh_place(d, k, rng, names):
    """A working directory with files around, some named like those offered."""
    place = d / f"p{k}"
    place.mkdir()
    for n in ["config_0.yaml", "notes.txt"] + list(names)[:2]:
        if "/" not in n:
            (place / n).write_bytes(rng.bytes(50))
    (place / "other").mkdir()
    (place / "other" / "keep.nc").write_bytes(rng.bytes(50))
    return place


def call(place, *args):
    """The command, or download_from_doi, in a working directory."""
    old = os.getcwd()
    os.chdir(place)
    try:
        if args[0] == "doi":
            from wam2layers.download import download_from_doi

            try:
                download_from_doi(args[1], args[2])
            except (Exception, SystemExit) as e:
                return runner.RunResult(error=e)
            return runner.RunResult()
        return runner.run_cli("download", *args)
    finally:
        os.chdir(old)


def faults_for(path, body, rng):
    out = [("status", STATUS[int(k)]) for k in rng.choice(len(STATUS), 3, replace=False)]
    out += [("drop", "close"), ("drop", "reset")]
    out += [("cut", 0.0), ("cut", float(rng.uniform(0.1, 0.9))), ("cutchunk", float(rng.uniform(0, 1)))]
    if path.startswith("/v2/articles"):
        ok = json.loads(body)
        bad = [b"", b"<html>maintenance</html>", body[: len(body) // 2]]
        bad.append(json.dumps({k: v for k, v in ok.items() if k not in ("custom_fields", "files")}).encode())
        bad.append(json.dumps([1]).encode())
        out += [("replace", b) for b in bad]
    if path.endswith("catalog.xml"):
        out += [("replace", b) for b in (b"", b"<html><body>maintenance</body></html>", b"no xml at all")]
    return out


def run(case, obs, d):
    from wam2layers.example_cases import AVAILABLE_CASES

    rng = np.random.default_rng([case["seed"], 22])
    name = sorted(AVAILABLE_CASES)[int(rng.integers(len(AVAILABLE_CASES)))]
    uuid = AVAILABLE_CASES[name].split("/")[-1].split(".")[0]
    s = Server()
    try:
        with redirect(s.port):
            go(case, obs, d, rng, s, name, uuid)
    finally:
        s.close()


def check_ok(obs, place, before, target, want, r, what):
    if not r.ok:
        obs.fail("download-failed", f"{what}: {r.why()}")
        return False
    after = snapshot(place)
    for n, x in before.items():
        if after.get(n) != x:
            obs.fail("existing-data-touched", f"{what}: {n} changed by the download")
    got = {str(p.relative_to(place / target)): p.read_bytes() for p in (place / target).rglob("*") if p.is_file()}
    for n, data in want.items():
        obs.count("files_compared")
        obs.count("bytes_compared", len(data))
        if n not in got:
            obs.fail("file-missing", f"{what}: {n} is listed but was not stored; stored {sorted(got)[:6]}")
        elif got[n] != data:
            obs.fail("file-differs", f"{what}: {n} has {len(got[n])} bytes, {len(data)} offered")
    extra = [n for n in after if n not in before and n != target and not n.startswith(target + "/")]
    obs.expect(not extra, "files-elsewhere", f"{what}: {extra[:4]} appeared outside the new directory")
    obs.count("downloads_ok")
    return True


def go(case, obs, d, rng, s, name, uuid):
    want = offer(s, uuid, case, rng)
    place = fresh_place(d, "ok", rng, want)
    before = snapshot(place)
    what = f"download {name} with {case['files']} + {case['extra']} files"
    r = call(place, name)
    if not check_ok(obs, place, before, name, want, r, what):
        return
    # a second time: refused, nothing touched
    before = snapshot(place)
    r = call(place, name)
    obs.count("targets_existing")
    obs.expect(not r.ok, "existing-target-accepted", f"{what}: second download into the same directory succeeded")
    obs.expect(snapshot(place) == before, "existing-data-touched", f"{what}: second download changed files")

    # the sequence of requests of a good run, without redirects
    place = fresh_place(d, "seq", rng, want)
    s.log.clear()
    call(place, name)
    seq = list(s.log)
    k = 0
    for i, path in enumerate(seq):
        body, how = s.pages.get(path, (b"", ""))
        if how == "redirect" and not path.endswith("-moved"):
            body = b""
        for fault in faults_for(path, body, rng):
            if fault[0] in ("cut", "cutchunk") and len(body) == 0 and how == "redirect":
                continue
            k += 1
            place = fresh_place(d, f"f{k}", rng, want)
            before = snapshot(place)
            s.log.clear()
            s.fault, s.delivered = (i, fault), 0
            r = call(place, name)
            s.fault = None
            label = f"{what}: request {i} of {len(seq)} ({path[:40]}): {fault[0]} {str(fault[1])[:30]}"
            obs.count("faults")
            obs.count("faults_delivered", s.delivered > 0)
            obs.count({"replace": "faults_listing", "cutchunk": "faults_cut"}.get(fault[0], "faults_" + fault[0]))
            if not s.delivered:
                # the run may ask in another order each time; the fault was not met
                continue
            after = snapshot(place)
            for n, x in before.items():
                obs.expect(after.get(n) == x, "existing-data-touched", f"{label}: {n} changed")
            if r.ok:
                # only a run that repeated the request may succeed, and then completely
                got = {p.name: p.read_bytes() for p in (place / name).glob("*") if p.is_file()}
                bad = [n for n in want if got.get(n) != want[n]]
                if bad or len(s.log) <= len(seq):
                    obs.fail(f"fault-reported-as-success-{fault[0]}", f"{label}: the command reported success; missing or different: {bad[:3]}")

    # existing targets of every kind
    for kind in ("empty", "files", "file", "link", "dangling"):
        place = fresh_place(d, "t" + kind, rng, want)
        t = place / name
        if kind in ("empty", "files"):
            t.mkdir()
        if kind == "files":
            for n in list(want)[:3] + ["mine.nc"]:
                (t / n).write_bytes(rng.bytes(30))
        if kind == "file":
            t.write_bytes(b"precious")
        if kind == "link":
            t.symlink_to(place / "other")
        if kind == "dangling":
            t.symlink_to(place / "nowhere")
        before = snapshot(place)
        r = call(place, name)
        obs.count("targets_existing")
        obs.expect(not r.ok, "existing-target-accepted", f"target is {kind}: the download was not refused")
        after = snapshot(place)
        obs.expect(after == before, "existing-data-touched", f"target is {kind}: {sorted(set(after.items()) ^ set(before.items()))[:3]}")

    # names that point outside of the new directory
    place = fresh_place(d, "out", rng, want)
    victim = place / "notes.txt"
    bad = ["../notes.txt", str(place / "other" / "keep.nc"), "../other/keep.nc", "..", "x/../../notes.txt"][int(rng.integers(5))]
    s.pages.clear()
    offer(s, uuid, dict(files=1), rng, extra_names=[bad])
    before = snapshot(place)
    r = call(place, name)
    obs.count("outside_names")
    after = snapshot(place)
    for n, x in before.items():
        obs.expect(after.get(n) == x, "existing-data-touched", f"file offered as {bad.replace(str(place), '<cwd>')!r} changed {n}")
    obs.expect(victim.exists(), "existing-data-touched", "notes.txt is gone")

    # identifiers
    s.pages.clear()
    other = "%08x-1111-4222-8333-%012x" % (int(rng.integers(2**31)), int(rng.integers(2**40)))
    w2 = offer(s, other, dict(files=2, extra=1), rng)
    for k, form in enumerate([f"10.4121/{other}.v1", f"https://doi.org/10.4121/{other}.v2", f"doi.org/10.4121/{other}"]):
        place = fresh_place(d, f"i{k}", rng, w2)
        before = snapshot(place)
        obs.count("identifiers")
        check_ok(obs, place, before, "my-data", w2, call(place, "doi", form, "my-data"), f"download of {form}")
    unknown = [f"10.4121/{other[:-1]}.v1", "10.5281/zenodo.7010594", "10.1000/182", "not a doi", "", f"{other}", "10.4121/", "10.4121/a b", f"https://data.4tu.nl/datasets/{other}"]
    for k, form in enumerate(unknown):
        place = fresh_place(d, f"u{k}", rng, w2)
        before = snapshot(place)
        obs.count("identifiers")
        r = call(place, "doi", form, "my-data")
        obs.expect(not r.ok, "bad-identifier-accepted", f"download of {form!r} reported success")
        after = snapshot(place)
        for n, x in before.items():
            obs.expect(after.get(n) == x, "existing-data-touched", f"download of {form!r} changed {n}")
    place = fresh_place(d, "unknowncase", rng, w2)
    obs.expect(not call(place, "no-such-case").ok, "bad-identifier-accepted", "an unknown case name was accepted")
    obs.nontrivial = True
    obs.signature = f"{case['files']}|{case['extra']}|{len(seq)}|{bad[:6]}|{sorted(how for _, how in s.pages.values())}"
    obs.sample = dict(files=case["files"], extra=case["extra"], requests=seq)
