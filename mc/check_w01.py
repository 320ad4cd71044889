"""W01: the online client against a scripted server: every combination and sequence of answers, every kind of token."""
import contextlib
import itertools as it
import json
import os
import threading
from datetime import datetime
from datetime import timedelta
from datetime import timezone
from http.server import BaseHTTPRequestHandler
from http.server import ThreadingHTTPServer
from pathlib import Path
from urllib.parse import parse_qs
from urllib.parse import urlsplit

from mc.lib import Check

RULE = ("environment model = a scripted server on the loopback interface; enumerated: answers (accepted, error statuses, no or malformed content, incomplete objects, dropped connection) for session and user in all combinations x kinds of token; "
        "all sequences of inserted models x answers up to length 3 (thorough 4); every combination of scheme, host, port and path of the server (transport replaced); every shipped entry and generated experiments through insertion and back; user data completion over all presence patterns. "
        "Oracle: log of the server. distinct = distinct (script, outcome, requests seen)")
ASSUME = ["addresses are lower case, tokens consist of URL-safe characters", "functions announced as unfinished (queries, experiment handling) are out of scope"]

USER = {"id": 7, "name": "jane", "group": "team", "email": "jane@example.org", "token": "x" * 20}
ANSWERS = ("ok", 400, 401, 403, 404, 500, 503, "garbage", "empty", "empty-object", "list", "incomplete", "drop")
PUBLIC = "basic_public_access"


class Server:
    """Answers by script, notes every request."""

    def __init__(self):
        self.script = {}
        self.log = []
        outer = self

        class Handler(BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.0"

            def log_message(self, *_):
                pass

            def work(self):
                n = int(self.headers.get("Content-Length") or 0)
                body = self.rfile.read(n)
                u = urlsplit(self.path)
                outer.log.append((self.command, u.path, parse_qs(u.query, keep_blank_values=True), body))
                todo = outer.script.get(u.path.rsplit("/", 1)[-1], ["missing"])
                act = todo.pop(0) if len(todo) > 1 else todo[0]
                if act == "drop":
                    self.close_connection = True
                    return
                code, content = 200, b""
                if isinstance(act, int):
                    code, content = act, json.dumps({"value": "k", **USER, "detail": "no"}).encode()
                elif act == "missing":
                    code = 404
                elif act == "ok":
                    content = json.dumps({"value": "key-123"} if u.path.endswith("session_key") else USER).encode()
                elif act == "garbage":
                    content = b"<html>"
                elif act == "empty-object":
                    content = b"{}"
                elif act == "list":
                    content = b"[]"
                elif act == "incomplete":
                    content = json.dumps({"valu": "k", **{k: v for k, v in USER.items() if k != "group"}}).encode()
                self.send_response(code)
                self.send_header("Content-Type", "application/json")
                self.send_header("Content-Length", str(len(content)))
                self.end_headers()
                self.wfile.write(content)

            do_GET = do_POST = do_PUT = do_PATCH = do_DELETE = work

        self.http = ThreadingHTTPServer(("127.0.0.1", 0), Handler)
        self.http.daemon_threads = True
        self.addr = f"http://127.0.0.1:{self.http.server_address[1]}/shepherd"
        threading.Thread(target=self.http.serve_forever, kwargs={"poll_interval": 0.01}, daemon=True).start()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.http.shutdown()
        self.http.server_close()


@contextlib.contextmanager
def clean():
    """The package remembers its latest client."""
    from shepherd_core.testbed_client import client_abc_fix as mod
    keep = mod.tb_client
    env = {k: os.environ.pop(k) for k in list(os.environ) if k.lower().endswith("_proxy")}
    try:
        yield
    finally:
        mod.tb_client = keep
        os.environ.update(env)


def connect(chk: Check, items):
    from shepherd_core import WebClient
    with clean(), chk.tmp() as d, Server() as srv:
        for key, user, kind, tok in items:
            rep = {"session": key, "user": user, "token": kind, "content": tok}
            with chk.case("connect", rep):
                srv.script = {"session_key": [key], "user": [user]}
                srv.log.clear()
                token = tok
                if kind.startswith("file"):
                    token = d / "token.txt"
                    token.write_text(tok)
                args = {"none": {}, "text": {"token": tok}, "file": {"token": token}}[kind]
                client = None
                try:
                    client = WebClient(srv.addr, **args)
                except Exception as xcp:  # noqa: BLE001 - any error reports the failure
                    err = type(xcp).__name__
                good = key == "ok" and user == "ok"
                chk.expect((client is not None) == good, "connect:verdict", "client is usable after a failed connection" if client is not None else f"connection is refused ({err})", rep)
                want = tok if kind != "none" else PUBLIC
                for cmd, path, query, body in srv.log:
                    chk.expect(cmd == "GET" and path in ("/shepherd/session_key", "/shepherd/user") and not body, "connect:requests", f"unexpected request {cmd} {path}", rep)
                    if "token" in query:
                        chk.expect(query["token"] == [want], "connect:token", f"token {query['token']} is sent instead of {want!r}", rep)
                asked = [q for _, p, q, _ in srv.log if p.endswith("/user")]
                if good:
                    chk.expect(len(asked) == 1 and "token" in asked[0], "connect:user", f"user is asked for {len(asked)} times", rep)
                    for own, grp in it.product((None, "other"), repeat=2):
                        v = {"name": "n", **({} if own is None else {"owner": own}), **({} if grp is None else {"group": grp})}
                        got = client.fill_in_user_data(dict(v))
                        chk.expect(got == {"name": "n", "owner": own or USER["name"], "group": grp or USER["group"]}, "connect:fill", f"{v} is completed to {got}", rep)
                        chk.step()
                chk.step()
                chk.ev((key, user, kind, tok, client is not None, len(srv.log)))
                chk.state((key, user, kind, client is not None))
                chk.trace()
        for tok in ("", "x"):
            with chk.case("connect:no-file", tok):
                srv.log.clear()
                try:
                    WebClient(srv.addr, token=d / f"missing{tok}")
                    chk.fail("connect:no-file", "missing file with token is ignored", tok)
                except FileNotFoundError:
                    chk.step()
                chk.expect(not srv.log, "connect:no-file-request", "requests without the wanted token", tok)


def offline(chk: Check, _):
    from shepherd_core import WebClient
    with clean():
        with Server() as srv:
            addr = srv.addr
        for a in (addr, "http://127.0.0.1:9/x", "nonsense", "ftp://127.0.0.1/x", "http://"):
            with chk.case("offline", a):
                try:
                    WebClient(a)
                    chk.fail("offline", "client is usable without server", a)
                except Exception:  # noqa: BLE001
                    chk.step()
                chk.ev(("offline", a.split(":")[0]))


def addresses(chk: Check, items):
    """Requests reach the server that was named, whatever its address looks like (transport is replaced)."""
    import requests
    from shepherd_core import WebClient
    seen = []

    def send(_self, request, **_):
        seen.append(request.url)
        r = requests.Response()
        r.status_code, r.url, r.request = 200, request.url, request
        r._content = json.dumps({"value": "key-123"} if "session_key" in request.url.rsplit("/", 1)[-1] else USER).encode()  # noqa: SLF001
        return r
    orig = requests.adapters.HTTPAdapter.send
    requests.adapters.HTTPAdapter.send = send
    try:
        with clean():
            for scheme, host, port, path in items:
                base = f"{scheme}://{host}{port}{path}"
                with chk.case("address", base):
                    seen.clear()
                    WebClient(base, token="abc").insert(next(models()))
                    chk.expect(len(seen) == 3, "address:count", f"requests {seen}", base)
                    for url in seen:
                        u = urlsplit(url)
                        chk.expect((u.scheme, u.hostname, u.port or {"http": 80, "https": 443}[scheme]) == (scheme, host.strip("[]"), int(port[1:] or 0) or {"http": 80, "https": 443}[scheme]), "address:host", f"request to {url}", base)
                        chk.expect(u.path.replace("//", "/").rsplit("/", 1)[0] == path.rstrip("/"), "address:path", f"request to {url}", base)
                    chk.step()
                    chk.ev(base)
                    chk.state((scheme, port, path))
    finally:
        requests.adapters.HTTPAdapter.send = orig


def models():
    from shepherd_core import data_models as dm
    from shepherd_core.data_models import testbed as tb
    from shepherd_core.testbed_client import tb_client
    from shepherd_core.data_models.task import EmulationTask
    from shepherd_core.data_models.task import HarvestTask
    from shepherd_core.data_models.task import ProgrammingTask
    for cls in (tb.Cape, tb.GPIO, tb.MCU, tb.Observer, tb.Target, tb.Testbed, dm.EnergyEnvironment, dm.Firmware, dm.VirtualHarvesterConfig, dm.VirtualSourceConfig):
        for i in tb_client.query_ids(cls.__name__):
            try:
                yield cls(id=i)
            except ValueError:
                continue  # i.e. neutral
    yield tb.Target(id=99, name="t", version="1", description="d", mcu1="nRF52", created=datetime(2025, 2, 3, 4, 5, 6, 789))
    yield EmulationTask(input_path=Path("/a/b.h5"), time_start=datetime(2999, 1, 1, 2, tzinfo=timezone(timedelta(hours=2))), duration=timedelta(days=1, seconds=1.5), voltage_aux=1.1)
    yield HarvestTask(output_path=Path("/a/c.h5"), duration=timedelta(seconds=30))
    yield ProgrammingTask(firmware_file=Path("/x/y.hex"), mcu_type="nrf52", protocol="SWD")
    env, fw = dm.EnergyEnvironment(name="SolarSunny"), dm.Firmware(name="nrf52_demo_rf")
    for k, (start, dur, gpio, pwr) in enumerate(it.product((None, datetime(2999, 5, 5, 5, 5)), (None, timedelta(minutes=1)), (None, dm.GpioTracing(uart_decode=True)), (None, dm.PowerTracing(discard_current=True)))):
        yield dm.Experiment(name=f"x{k}", id=k, time_start=start, duration=dur, target_configs=[dm.TargetConfig(target_IDs=[1, 2], custom_IDs=[7, 8], energy_env=env, firmware1=fw, gpio_tracing=gpio, power_tracing=pwr)])


def posted(chk, srv, model, rep):
    """The last request carries the model in full."""
    from shepherd_core.data_models.base.wrapper import Wrapper
    cmd, path, _, body = srv.log[-1]
    chk.expect((cmd, path) == ("POST", "/shepherd/add"), "insert:request", f"{cmd} {path}", rep)
    w = Wrapper(**json.loads(body))
    chk.expect(w.datatype.lower() == type(model).__name__.lower(), "insert:type", f"datatype {w.datatype}", rep)
    back = type(model)(**w.parameters)
    chk.expect(back == model, "insert:content", lambda: "differs in " + ", ".join(k for k in type(model).model_fields if getattr(back, k) != getattr(model, k)), rep)


def store(chk: Check, item):
    from shepherd_core import WebClient
    part, parts = item
    with clean(), Server() as srv:
        srv.script = {"session_key": ["ok"], "user": ["ok"], "add": ["ok"]}
        client = WebClient(srv.addr, token="abc")
        for k, m in enumerate(models()):
            if k % parts != part:
                continue
            rep = {"model": type(m).__name__, "name": str(getattr(m, "name", ""))}
            with chk.case("store", rep):
                srv.log.clear()
                keep = m.model_copy(deep=True)
                chk.expect(client.insert(m) is True, "insert:result", "accepted insertion is not confirmed", rep)
                chk.expect(len(srv.log) == 1, "insert:count", f"{len(srv.log)} requests", rep)
                posted(chk, srv, m, rep)
                chk.expect(m == keep, "insert:source", "model was changed", rep)
                chk.step()
                chk.ev((type(m).__name__, rep["name"]))
                chk.state(rep["model"])
                chk.trace()


def sequences(chk: Check, items):
    from shepherd_core import WebClient
    from shepherd_core.data_models import testbed as tb
    from shepherd_core.data_models import EnergyEnvironment
    from shepherd_core.testbed_client import tb_client
    ms = [tb.Observer(id=tb_client.query_ids("Observer")[0]), EnergyEnvironment(name="SolarSunny")]
    with clean(), Server() as srv:
        srv.script = {"session_key": ["ok"], "user": ["ok"]}
        client = WebClient(srv.addr)
        for seq in items:
            rep = {"model, answer": seq}
            with chk.case("sequence", rep):
                srv.log.clear()
                for n, (k, a) in enumerate(seq):
                    srv.script["add"] = [a]
                    try:
                        res = client.insert(ms[k])
                    except Exception:  # noqa: BLE001
                        res = "error"
                    bad = isinstance(a, int) or a == "drop"
                    chk.expect(res == ("error" if bad else True), "sequence:result", f"insertion {n} with answer {a} gives {res}", rep)
                    chk.expect(len(srv.log) >= n + 1, "sequence:count", f"{len(srv.log)} requests after {n + 1} insertions", rep)
                    posted(chk, srv, ms[k], rep)
                    chk.step()
                got = [json.loads(b)["datatype"].lower() for *_, b in srv.log]
                chk.expect(got == [type(ms[k]).__name__.lower() for k, _ in seq], "sequence:order", f"server got {got}", rep)
                chk.ev(seq)
                chk.state(seq[-1])
                chk.trace()


def run(chk: Check):
    toks = ("a", "0", "tok-en_1", "abc.def~", "x" * 200, "None", PUBLIC + "2")
    items = [(a, b, kind, "tok-en_1") for a, b in it.product(ANSWERS, repeat=2) for kind in ("none", "text", "file")]
    items += [("ok", "ok", kind, t) for kind in ("text", "file") for t in toks]
    chk.parallel(connect, [items[k::8] for k in range(8)])
    adr = list(it.product(("http", "https"), ("localhost", "a.b-c.example.org", "127.0.0.1", "[::1]"), ("", ":80", ":443", ":8000", ":8443", ":1"), ("", "/", "/testbed", "/testbed/v1", "/a.b/c_d/", "/session_key", "/user")))
    chk.parallel(addresses, [adr[k::8] for k in range(8)])
    offline(chk, None)
    chk.parallel(store, [(k, 8) for k in range(8)])
    al = [(k, a) for k in (0, 1) for a in (("ok", 400, 500, "drop") if not chk.thorough else ("ok", "garbage", "empty", 400, 401, 500, "drop"))]
    seqs = [s for n in range(1, 5 if chk.thorough else 4) for s in it.product(al, repeat=n)]
    chk.parallel(sequences, [seqs[k::16] for k in range(16)])
    chk.sample({"session": "ok", "user": 401, "token": "text"})
