"""P26 the dashboard's login, mount path, proxy prefix and security headers."""
import asyncio
import ipaddress
import json
import logging
from urllib.parse import parse_qs, unquote, urlsplit

from symx import fstr

fstr.install("asyncz.contrib.dashboard.admin.middleware", "asyncz.contrib.dashboard.admin.backends", "asyncz.contrib.dashboard.config")

import asyncz.contrib.dashboard.admin.backends as BE
import asyncz.contrib.dashboard.admin.core as CORE
import asyncz.contrib.dashboard.admin.middleware.auth_gate as GATE
import asyncz.contrib.dashboard.admin.middleware.forward_root_path as FWD
import asyncz.contrib.dashboard.admin.middleware.security_headers as SEC_
import asyncz.contrib.dashboard.config as CFG
import lilya.responses
from asyncz.contrib.dashboard.admin.protocols import User
from asyncz.schedulers.asyncio import AsyncIOScheduler
from lilya.apps import Lilya
from lilya.requests import Request
from lilya.routing import Include
from symx.ctx import T0
from symx.symstr import SymStr

BOUNDS = "request paths of up to 6 (thorough: 8) and redirect targets of up to 5 (thorough: 6) arbitrary characters of alphabets that contain everything the code tells apart, every mount; three (thorough: four) login operations; forwarded prefixes of up to 4 (thorough: 5) characters from every listed client; every route of the assembled dashboard in every documented way of mounting it"
OUTSIDE = "the signature of the session cookie and URL quoting (libraries); allowlist entries ending with a slash; websocket requests (the dashboard serves none)"
ASSUMPTIONS = ["browsers resolve redirects as the WHATWG URL standard says", "ASGI servers report paths below root_path"]


def drive(coro):
    """Run a coroutine that never really waits."""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    raise AssertionError("the code waits")


def stubs(module):
    """Recording stand-ins for the response classes and identity stand-ins for the URL quoting a module uses."""
    out = []
    for name, v in vars(module).items():
        if isinstance(v, type) and issubclass(v, lilya.responses.Response):
            out.append((module.__name__, name, type(name, (Resp,), {"default": 307 if "Redirect" in name else 200, "redirect": "Redirect" in name})))
        elif callable(v) and getattr(v, "__module__", "") == "urllib.parse":
            out.append((module.__name__, name, lambda s, *a, _f=v, **k: s if type(s) is SymStr else _f(s, *a, **k)))
    return out


class Resp:
    default, redirect = 200, False

    def __init__(self, content=None, status_code=None, headers=None, url=None, **kw):
        self.status_code = status_code or self.default
        self.headers = {k.lower(): v for k, v in dict(headers or {}).items()}
        if self.redirect:
            self.headers["location"] = url if content is None else content

    async def __call__(self, scope, receive, send):
        await send({"type": "http.response.start", "status": self.status_code, "headers": [(k, v) for k, v in self.headers.items()]})
        await send({"type": "http.response.body", "body": b""})


class App:
    def __init__(self):
        self.calls = []

    async def __call__(self, scope, receive, send):
        self.calls.append(scope)


def run(app, scope):
    sent = []

    async def send(m):
        sent.append(m)

    async def receive():
        return {"type": "http.request", "body": b"", "more_body": False}

    drive(app(scope, receive, send))
    return sent


ALLOW = ("/in", "/s")


def below(ctx, path, p):
    return path == p or path.startswith(p + "/")


def gate(ctx, root, external, n, hx):
    """The application is reached exactly with a user or for an allowlisted path."""
    path = ctx.strlen("path", 0, n, ["/", "i", "n", "s", "o"])
    kind = ctx.choice("type", ["http", "http", "lifespan"]) if n < 4 else "http"
    who = ctx.choice("user", ["none", "user", "raises"])
    user = User(id=0, name="", is_admin=False)

    class Boom(Exception):
        pass

    async def authenticate(request):
        if who == "raises":
            raise Boom
        return user if who == "user" else None

    if root:
        # servers and routers report a mount path that ends at a slash
        ctx.assume(not path or path == root or path.startswith(root + "/") or not path.startswith(root))
    app = App()
    mw = GATE.AuthGateMiddleware(app, authenticate=authenticate, login_path="/in", allowlist=iter(ALLOW))
    scope = {"type": kind, "method": "GET", "path": path, "headers": [(b"hx-request", hx)] if hx is not None else [], "query_string": b"", "state": {}}
    if root is not None:
        scope["root_path"] = root
    if external:
        scope["app_root_path"] = external
    try:
        sent = run(mw, scope)
    except Boom:
        ctx.check(who == "raises", "the request fails")
        ctx.check(not app.calls, "the application is reached though the user could not be determined")
        ctx.reach("raises")
        return
    if kind == "lifespan":
        ctx.check(len(app.calls) == 1 and not sent, "a lifespan message does not reach the application")
        return
    child = path or "/"
    if root and bool(below(ctx, child, root)):
        child = child[len(root):] or "/"
    if not child.startswith("/"):
        child = "/" + child
    free = any(bool(below(ctx, child, p)) for p in ALLOW)
    if free:
        ctx.check(len(app.calls) == 1 and not sent, "an allowlisted path is not served")
        ctx.reach("allowlisted")
    elif who == "user":
        ctx.check(len(app.calls) == 1 and not sent, "an authenticated request is not served")
        ctx.check(Request(app.calls[0]).state.user is user, "the application does not see the user of the request")
        ctx.reach("user")
    else:
        ctx.check(not app.calls, "the application is reached without authentication")
        ctx.check(who == "none", "the failure to determine the user is hidden")
        ctx.check(len(sent) == 2, "no response is sent")
        headers = {(k.decode() if isinstance(k, bytes) else k).lower(): v for k, v in sent[0]["headers"]}
        if hx == b"true":
            ctx.check(sent[0]["status"] == 401, "an unauthenticated HTMX request is not answered 401")
            where = headers.get("hx-redirect")
        else:
            ctx.check(sent[0]["status"] == 303, "an unauthenticated request is not redirected")
            where = headers.get("location")
        base = (external or "") + (root or "")
        ctx.check(where is not None and bool(where.startswith(base + "/in?")), "the login page is not the one of the dashboard")
        ctx.check(where.endswith("=" + base + child), "the login page does not get the requested path")
        ctx.reach("login")


NASTY = ["a", "/", "?", "#", "&", "%", "=", "+", " ", ";", "\\", "\n", '"', "é", "€", "😀", "%41", "%2f", ".", "..", "//"]


def round_trip(ctx, k, root, external):
    """Following the redirects leads back to the requested path, whatever characters it contains."""
    path = (root or "") + "/" + "".join(ctx.choice("char", NASTY) for _ in range(k))
    hx = ctx.flag("htmx")

    async def nobody(request):
        return None

    app = App()
    mw = GATE.AuthGateMiddleware(app, authenticate=nobody)
    scope = {"type": "http", "method": "GET", "path": path, "root_path": root or "", "headers": [(b"hx-request", b"true")] if hx else [], "query_string": b"", "state": {}}
    if external:
        scope["app_root_path"] = external
    sent = run(mw, scope)
    headers = {k.lower(): v for k, v in sent[0]["headers"]}
    where = headers[b"hx-redirect" if hx else b"location"].decode("latin-1")
    ctx.check(all(32 < ord(c) < 127 for c in where), "the redirect is not a valid header value")
    url = urlsplit(where)
    ctx.check(not url.scheme and not url.netloc and not url.fragment and unquote(url.path) == (external or "") + (root or "") + "/login", "the redirect does not lead to the login page")
    nxt = parse_qs(url.query, keep_blank_values=True).get("next")
    ctx.check(nxt is not None and len(nxt) == 1, "the login page gets no next page")
    want = (external or "") + path
    ctx.check(urlsplit("http://h" + nxt[0]).query == "" and urlsplit("http://h" + nxt[0]).fragment == "" and unquote(urlsplit("http://h" + nxt[0]).path) == want, "the next page is not the requested one")
    # ... and the login page redirects there, if it is a path of the site
    resp = drive(backend().login(PageRequest("POST", {"username": "a", "password": "ok", "next": nxt[0]}, {}, scope)))
    got = resp.headers["location"]
    if want.startswith("//"):
        ctx.check(not urlsplit(got).netloc, "the login leads to another host")
    else:
        ctx.check(unquote(urlsplit("http://h" + got).path) == want and not urlsplit("http://h" + got).query, "the login does not lead to the requested path")
    ctx.reach("end")


class PageRequest:
    def __init__(self, method, form, session, scope=None, query=None):
        self.method, self._form, self.session = method, form, session
        self.scope = scope if scope is not None else {"type": "http", "root_path": ""}
        self.query_params = query or {}

    async def form(self):
        return self._form


PAGES = []


class Templates:
    @staticmethod
    def get_template_response(request, name, context, **kw):
        PAGES.append(context)
        return Resp(status_code=200)


def fake_reverse(name, **kw):
    return {"dashboard:index": "/d/", "login": "/login"}[name]


def backend():
    return BE.SimpleUsernamePasswordBackend(lambda u, p: User(id=u, name=u) if p == "ok" else None)


def elsewhere(ctx, url):
    """Does a browser at http(s)://site/login leave the site for this URL? (WHATWG URL standard)"""
    def ch(c, s):
        return any(bool(c == x) for x in s)

    cs = list(url)
    while cs and bool(cs[0] <= " "):
        cs.pop(0)
    cs = [c for c in cs if not ch(c, "\t\n\r")]
    if not cs:
        return False
    if ch(cs[0], "/\\"):
        return len(cs) > 1 and ch(cs[1], "/\\")
    if not bool(cs[0].isalpha()):
        return False
    for c in cs:
        if bool(c == ":"):
            return True
        if not (bool(c.isalpha()) or bool(c.isdigit()) or ch(c, "+-.")):
            return False
    return False


def redirect(ctx, n, root):
    """After a login the browser stays on the site, at the requested path if it is one."""
    nxt = ctx.strlen("next", 0, n, ["/", "\\", ":", "h", "\t", "\n", " ", ".", "?", "\x7f"])
    session = {}
    resp = drive(backend().login(PageRequest("POST", {"username": "a", "password": "ok", "next": nxt}, session, {"type": "http", "root_path": root})))
    ctx.check(resp.status_code == 303, "a login does not redirect")
    ctx.check(bool(session), "a login is not remembered")
    got = resp.headers["location"]
    ctx.check(not elsewhere(ctx, got), "the login leads to another site")
    local = bool(nxt.startswith("/")) and not (len(nxt) > 1 and (bool(nxt[1] == "/") or bool(nxt[1] == "\\"))) and not any(bool(c < " ") or bool(c == "\x7f") for c in nxt)
    if local:
        ctx.check(got == nxt, "the requested page is ignored")
        ctx.reach("honoured")
    elif not bool(got == nxt):
        ctx.check(got == root + "/d/", "the login does not lead to the dashboard")
        ctx.reach("index")


def sessions(ctx, k):
    """A session is authenticated exactly from a successful login to the next logout, as the user who logged in."""
    session = {"other": [1]}
    users = {"A": User(id=ctx.int("idA", 0, 9), name="Ann", is_admin=ctx.bool("adminA"), mail="a@x"), "B": User(id="b", name="Bob")}
    b = BE.SimpleUsernamePasswordBackend(lambda u, p: users.get(u) if p == "pw " + u else None, session_key=ctx.choice("key", ["asyncz_admin", "k"]))
    req = lambda method="GET", form=None: PageRequest(method, form or {}, session)  # noqa: E731
    logged = None
    for _ in range(k):
        op = ctx.choice("op", ["A", "B", "space", "wrong", "unknown", "nothing", "get", "logout"])
        PAGES.clear()
        if op in ("A", "B", "space"):
            u = "A" if op == "space" else op
            resp = drive(b.login(req("POST", {"username": " A " if op == "space" else u, "password": "pw " + u})))
            ctx.check(resp.status_code == 303 and not PAGES, "valid credentials are refused")
            logged = u
        elif op in ("wrong", "unknown", "nothing"):
            nxt = ctx.choice("next", [None, "/x"])
            form = dict(wrong={"username": "A", "password": "pw B"}, unknown={"username": "Z", "password": "pw Z"}, nothing={})[op]
            resp = drive(b.login(req("POST", dict(form, next=nxt) if nxt else form)))
            ctx.check(resp.status_code not in (301, 302, 303, 307, 308) and len(PAGES) == 1, "wrong credentials are accepted")
            ctx.check(bool(PAGES[0].get("error")) and PAGES[0].get("next") == nxt, "a failed login loses the requested page or does not say that it failed")
        elif op == "get":
            drive(b.login(PageRequest("GET", {}, session, query={"next": "/y"})))
            ctx.check(len(PAGES) == 1 and not PAGES[0].get("error") and PAGES[0].get("next") == "/y", "the login form loses the requested page")
        else:
            resp = drive(b.logout(req()))
            ctx.check(resp.status_code == 303 and resp.headers["location"] == "/login", "a logout does not lead to the login page")
            logged = None
        got = drive(b.authenticate(req()))
        if logged is None:
            ctx.check(not got, "a session is authenticated without a login")
        else:
            want = users[logged]
            ctx.check(bool(got) and got.id == want.id and got.name == want.name and got.is_admin == want.is_admin and got.extra == want.extra, "the session belongs to another user")
        ctx.check(session.get("other") == [1], "other data of the session is lost")
    ctx.reach("logged in" if logged else "logged out")


CLIENTS = ["127.0.0.1", "10.1.2.3", "10.2.0.1", "192.168.7.9", "::1", "fd00::5", "unix", "", None]
TRUST = [("127.0.0.1", "::1", "localhost"), ("10.1.0.0/16",), ("10.1.2.77/16", "bogus"), ("*",), (), ("fd00::/8", "unix"), ("192.168.7.9",)]


def is_trusted(client, trusted):
    if "*" in trusted:
        return True
    if not client:
        return False
    if client in trusted:
        return True
    for t in trusted:
        try:
            if ipaddress.ip_address(client) in ipaddress.ip_network(t, strict=False):
                return True
        except ValueError:
            pass
    return False


class Raw(bytes):
    """A header value whose characters are symbolic."""

    def decode(self, *a, **k):
        return self.text

    def __len__(self):
        return len(self.text)

    def __bool__(self):
        return len(self.text) > 0


def forwarded(ctx, n, trust=None):
    """A forwarded prefix counts from trusted clients only and becomes a path."""
    text = ctx.strlen("prefix", 0, n, ["/", "a", " "])
    raw = Raw(b"x")
    raw.text = text
    if trust is None:
        trusted, client = ("*",), "1.2.3.4"
    else:
        trusted, client = TRUST[trust], ctx.choice("client", CLIENTS)
    root = ctx.choice("root", ["absent", "", "/m"])
    outer = ctx.choice("outer", ["absent", "", "/x"])
    name = ctx.choice("name", [b"x-forwarded-prefix", b"X-Forwarded-Prefix", b"x-forwarded-host", None])
    kind = ctx.choice("type", ["http", "websocket", "lifespan"]) if trust is None else "http"
    scope = {"type": kind, "headers": ([(name, raw)] if name else []) + [(b"host", b"h")]}
    if root != "absent":
        scope["root_path"] = root
    if outer != "absent":
        scope["app_root_path"] = outer
    if client is not None:
        scope["client"] = (client, 1234)
    before = dict(scope)
    app = App()
    run(FWD.ForwardedPrefixMiddleware(app, trusted_hosts=iter(trusted)), scope)
    ctx.check(len(app.calls) == 1, "the request does not reach the application")
    got = app.calls[0]
    ctx.check(scope == before and set(scope) == set(before), "the scope of the caller is changed")
    stripped = text.strip()
    plain = bool(stripped.strip("/") == "")
    if kind == "lifespan" or name in (None, b"x-forwarded-host") or not is_trusted(client, trusted) or plain:
        ctx.check({k: v for k, v in got.items() if k != "app_root_path"} == {k: v for k, v in before.items() if k != "app_root_path"}, "the request is changed")
        ctx.check(got.get("app_root_path") == before.get("app_root_path"), "a prefix that does not count is used")
        ctx.reach("ignored")
        return
    p = got.get("app_root_path")
    base = before["app_root_path"] if "app_root_path" in before else before.get("root_path") or ""
    ctx.check(p is not None and bool(p == "/" + stripped.strip("/") + base), "the external path is not the forwarded prefix followed by the path below it")
    ctx.check(got.get("root_path") == before.get("root_path"), "a forwarded prefix changes the routing")
    ctx.reach("used")


def headers(ctx, n):
    """Every response has the security headers, once; those the application sets win."""
    defaults = SEC_.DEFAULT_SECURITY_HEADERS
    names = [d[0] for d in defaults] + [b"strict-transport-security", b"x-other"]
    own = []
    for i in range(n):
        k = names[ctx.choice("header", list(range(len(names))))]
        own.append((k.title() if ctx.flag("upper") else k, b"own%d" % i))
    custom = ctx.flag("custom")
    conf = ((b"X-Frame-Options", b"SAMEORIGIN"), (b"X-Extra", b"1")) if custom else defaults
    scheme = ctx.choice("scheme", ["http", "https", None])
    kind = ctx.choice("type", ["http", "websocket"])
    missing = ctx.flag("no headers") if n == 0 else False

    class Answer:
        async def __call__(self, scope, receive, send):
            m = {"type": "http.response.start", "status": 200}
            if not missing:
                m["headers"] = list(own)
            await send(m)
            await send({"type": "http.response.body", "body": b"x"})

    mw = SEC_.SecurityHeadersMiddleware(Answer(), headers=iter(conf)) if custom else SEC_.SecurityHeadersMiddleware(Answer())
    scope = {"type": kind}
    if scheme:
        scope["scheme"] = scheme
    sent = [run(mw, dict(scope)) for _ in range(2)][1]
    ctx.check(len(sent) == 2 and sent[1] == {"type": "http.response.body", "body": b"x"}, "the response is changed")
    got = [(k.lower(), v) for k, v in sent[0].get("headers", [])]
    mine = [(k.lower(), v) for k, v in own]
    if kind != "http":
        ctx.check(got == mine, "messages that are no HTTP responses are changed")
        return
    want = dict(mine)
    expected = list(mine)
    for k, v in conf:
        if k.lower() not in want:
            expected.append((k.lower(), v))
    if scheme == "https" and b"strict-transport-security" not in want:
        ctx.check(sum(k == b"strict-transport-security" for k, v in got) == 1, "a response over HTTPS does not require HTTPS")
        got = [h for h in got if h[0] != b"strict-transport-security"]
    ctx.check(sorted(got) == sorted(expected), "a security header is missing, duplicated or overrides the application's")
    ctx.reach("end")


def combine(ctx, n):
    """Prefixes are joined to one path with a leading and no trailing slash, nothing doubled."""
    alphabet = ["/", "a", "b"]
    a = ctx.opt("external", lambda: ctx.choice("pad", ["", " "]) + ctx.strlen("e", 0, n, alphabet) + ctx.choice("pad", ["", "  "]))
    b = ctx.opt("configured", lambda: ctx.strlen("c", 0, n, alphabet))

    def norm(x):
        return "/" if x is None else "/" + x.strip().strip("/") if not bool(x.strip() == "") else "/"

    def shape(v):
        return bool(v == "/") or (bool(v.startswith("/")) and not bool(v.endswith("/")) and len(v) > 0)

    na = CFG._normalize_prefix(a)
    ctx.check(shape(na), "a normalized prefix has no leading slash or a trailing one")
    ctx.check(na.strip("/") == norm(a).strip("/") if a is not None else na == "/", "normalizing changes a prefix")
    got = CFG._combine_prefixes(a, b)
    nb = CFG._normalize_prefix(b)
    ctx.check(shape(got), "a joined prefix has no leading slash or a trailing one")
    if bool(na == "/"):
        ctx.check(got == nb, "the root is not neutral")
    elif bool(nb == "/") or bool(na.endswith(nb)):
        ctx.check(got == na, "a prefix is doubled")
    else:
        ctx.check(got == na + nb, "prefixes are not joined")
    # the path the clients see: the proxy's, then the mount, each once
    ext = CFG.get_external_root_path({"root_path": nb if bool(nb != "/") else "", "app_root_path": na if bool(na != "/") else ""})
    ctx.check(ext == "" or shape(ext) and bool(ext != "/"), "an external root path ends with a slash")
    if bool(nb == "/"):
        ctx.check(ext == (na if bool(na != "/") else ""), "the proxy's prefix is lost")
    elif bool(nb.startswith(na + "/")) or bool(na == "/"):
        ctx.check(ext == nb, "a mount path that contains the proxy's prefix is prefixed again")
    ctx.reach("end")


class Untouchable:
    """A scheduler no controller may reach."""

    def __init__(self):
        object.__setattr__(self, "log", [])

    def __getattr__(self, n):
        self.log.append(n)
        raise AttributeError(n)


def walk(routes, base=""):
    for r in routes:
        path = base + getattr(r, "path", "").rstrip("/")
        sub = getattr(r, "routes", None)
        if sub:
            yield from walk(sub, path)
        elif "static" not in path:
            yield path or "/"


BUILT = {}
SECRET = "s" * 32


def nothing():
    pass


def mounted(mode, prefix, real=False):
    """-> (app, scheduler, path of the mount, path of the dashboard, its pages)"""
    key = mode, prefix, real
    if key in BUILT:
        return BUILT[key]
    logging.disable(logging.CRITICAL)
    sched = Untouchable()
    if real:
        sched = AsyncIOScheduler(stores={"default": {"type": "memory"}})
        sched.add_task(nothing, trigger="interval", hours=1, id="t1")
    admin = CORE.AsynczAdmin(enable_login=True, backend=backend(), scheduler=sched, url_prefix=prefix, enable_forward_middleware=True, trusted_forwarded_hosts=["*"])
    home = prefix.rstrip("/")
    if mode == "include":
        app, base = Lilya(), ""
        admin.include_in(app)
    elif mode == "mounted":
        app, base = Lilya(routes=[Include("/ops", app=admin.get_asgi_app(with_url_prefix=True))]), "/ops"
    elif mode == "mounted plain":
        app, base, home = Lilya(routes=[Include("/ops", app=admin.get_asgi_app())]), "/ops", ""
    elif mode == "plain":
        app, base, home = admin.get_asgi_app(), "", ""
    else:
        app, base = admin.get_asgi_app(with_url_prefix=True), ""
    pages = sorted(set(walk(admin.child_app.routes)))
    BUILT[key] = app, sched, base, home, pages
    return BUILT[key]


def request(app, method, path, hdrs=(), body=b""):
    sent = []

    async def send(m):
        sent.append(m)

    async def receive():
        return {"type": "http.request", "body": body, "more_body": False}

    scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "scheme": "http", "path": path, "raw_path": path.encode(), "query_string": b"", "root_path": "",
             "headers": [(b"host", b"testserver"), (b"content-length", b"%d" % len(body)), (b"content-type", b"application/x-www-form-urlencoded"), *hdrs], "client": ("127.0.0.1", 5), "server": ("testserver", 80), "state": {}}
    try:
        asyncio.run(app(scope, receive, send))
    except Exception as e:
        return 500, {}, repr(e)
    h = {}
    for k, v in sent[0]["headers"]:
        h.setdefault(k.decode().lower(), []).append(v.decode("latin-1"))
    return sent[0]["status"], h, b"".join(m.get("body", b"") for m in sent[1:]).decode("utf-8", "replace")


TRICKS = ["%s", "%s/", "/%s", "%s/../login", "/login/..%s", "/static/..%s", "/login%s", "/assets/../%s"]


def routes(ctx, mode, prefix):
    """No page is reached without a login, whatever the way the dashboard is mounted."""
    app, sched, base, home, pages = mounted(mode, prefix)
    ext = ctx.choice("proxy", ["", "/ext"])
    page = pages[ctx.choice("page", list(range(len(pages))))]
    trick = ctx.choice("spelling", TRICKS)
    cookie = ctx.choice("cookie", ["none", "garbage", "unsigned", "empty"]) if trick == "%s" else "none"
    hx = ctx.flag("htmx") if trick == "%s" else False
    method = ctx.choice("method", ["GET", "POST"]) if cookie == "none" else "GET"
    page = page.replace("{task_id:str}", "t1").replace("{run_id:str}", "r1")
    path = base + (trick % (home + page) if trick.startswith("%s") or home == "" else trick % (home + page))
    import base64

    value = dict(none=None, garbage="x.y.z", unsigned=base64.b64encode(json.dumps({"asyncz_admin": {"id": "a", "name": "a"}}).encode()).decode(), empty="")[cookie]
    hdrs = [(b"cookie", ("asyncz_admin=" + value).encode())] if value is not None else []
    if hx:
        hdrs.append((b"hx-request", b"true"))
    if ext:
        hdrs.append((b"x-forwarded-prefix", ext.encode()))
    sched.log.clear()
    status, h, text = request(app, method, path, hdrs)
    ctx.check(not sched.log, "the scheduler is reached without a login")
    ctx.check(status != 500, "a request without a login fails")
    login = ext + base + "/login"
    if trick in ("%s", "%s/"):
        where = (h.get("hx-redirect") if hx else h.get("location")) or [""]
        ctx.check(status == (401 if hx else 303) and len(where) == 1 and where[0].split("?")[0] == login, "a page of the dashboard does not require a login")
        ctx.reach("login")
    else:
        ctx.check(status in (401, 303, 404, 405, 307) or "password" in text, "a page of the dashboard is reached by another spelling of its path")
    for name in ("x-frame-options", "x-content-type-options", "content-security-policy"):
        ctx.check(base != "" or len(h.get(name, [])) == 1, "a response lacks a security header")


def journey(ctx, mode, prefix):
    """The login page is reachable, a login opens the requested page, a logout closes it again."""
    ctx.fixed_clock(ctx.mkdt(T0))
    app, sched, base, home, pages = mounted(mode, prefix, real=True)
    ext = ctx.choice("proxy", ["", "/ext"])
    page = ctx.choice("page", ["/", "/tasks/", "/tasks/t1", "/history/", "/logs/"])
    fwd = [(b"x-forwarded-prefix", ext.encode())] if ext else []
    status, h, text = request(app, "GET", base + home + page, fwd)
    ctx.check(status == 303, "a page does not require a login")
    where = h["location"][0]
    ctx.check(where.startswith(ext + base + "/login?"), "the redirect does not lead to the login page")
    status, h, text = request(app, "GET", where[len(ext):].split("?")[0], fwd)
    ctx.check(status == 200 and "password" in text, "the login page is not reachable")
    status, h, text = request(app, "GET", base + "/static/css/asyncz.css" if home == "" else base + home + "/static/css/asyncz.css", fwd)
    ctx.check(status == 200, "the login page's style sheet is not reachable")
    good = ctx.flag("good password")
    nxt = ctx.choice("next", ["asked", "none", "evil"])
    target = ext + base + home + page
    body = "username=a&password=%s" % ("ok" if good else "no")
    body += dict(asked="&next=" + target, none="", evil="&next=//evil/x")[nxt]
    status, h, text = request(app, "POST", base + "/login", fwd, body.encode())
    cookies = [c.split(";")[0] for c in h.get("set-cookie", [])]
    hdrs = fwd + [(b"cookie", c.encode()) for c in cookies]
    if not good:
        ctx.check(status == 200 and "password" in text, "a failed login does not show the login page")
        status, h, text = request(app, "GET", base + home + page, hdrs)
        ctx.check(status == 303, "a failed login opens the dashboard")
        ctx.reach("refused")
        return
    ctx.check(status == 303, "a login fails")
    got = h["location"][0]
    ctx.check(got == (target if nxt == "asked" else ext + base + home + "/"), "the login leads elsewhere")
    status, h, text = request(app, "GET", base + home + page, hdrs)
    ctx.check(status == 200, "a page is closed after the login")
    import re

    for url in re.findall(r'(?:href|action|hx-get|hx-post|src)="([^"]*)"', text):
        if url.startswith("http://testserver"):
            url = url[len("http://testserver"):]
        if url.startswith("/"):
            if url == ext + base + "/logout":
                continue
            ctx.check(not url.startswith("//") and url.startswith(ext + base + home + "/"), "a page links to somewhere outside the dashboard")
    # a forged session is refused: one character of the signed cookie differs
    k = ctx.choice("position", [0, 1, 2])
    c = cookies[0]
    at = [c.index("=") + 3, len(c) // 2, len(c) - 6][k]
    forged = c[:at] + ("A" if c[at] != "A" else "B") + c[at + 1:]
    status, h, text = request(app, "GET", base + home + page, fwd + [(b"cookie", forged.encode())])
    ctx.check(status == 303, "a forged session is accepted")
    status, h, text = request(app, "GET", base + "/logout", hdrs)
    ctx.check(status == 303 and h["location"][0] == ext + base + "/login", "the logout does not lead to the login page")
    after = [c.split(";")[0] for c in h.get("set-cookie", [])]
    status, h, text = request(app, "GET", base + home + page, fwd + [(b"cookie", c.encode()) for c in after])
    ctx.check(status == 303, "the dashboard is open after the logout")
    ctx.reach("end")


def instances(tier):
    q = tier == "quick"
    out = []
    ge = dict(extra=stubs(GATE), extra_concrete=stubs(GATE))
    be = stubs(BE) + [(BE.__name__, "templates", Templates), (BE.__name__, "reverse", fake_reverse), (BE.__name__, "default_context", lambda r: {})]
    bo = dict(extra=be, extra_concrete=be)
    # the gate's own responses are real here
    ro = dict(extra=be, extra_concrete=be)
    n = 6 if q else 8
    for root in (None, "", "/o", "/o/s"):
        for external in ("", "/x") if root else ("",):
            for hx in ((None, b"true") if not external else (b"false",)):
                out.append(dict(name="gate: root %s%s, htmx %s" % (root, " behind " + external if external else "", hx), fn=gate, params=dict(root=root, external=external, n=n if root != "/o/s" else n + 1, hx=hx),
                                reach=["allowlisted", "user", "login", "raises"], weight=8, opts=dict(ge, seconds=400)))
    for root, external in (("", ""), ("/o p", ""), ("/o", "/x")):
        out.append(dict(name="round trip: root %r behind %r" % (root, external), fn=round_trip, params=dict(k=2 if q else 3, root=root, external=external), reach=["end"], weight=8, opts=ro))
    for root in ("", "/m"):
        out.append(dict(name="redirect after login, root %r" % root, fn=redirect, params=dict(n=5 if q else 6, root=root), reach=["honoured", "index"], weight=9, opts=dict(bo, seconds=400)))
    out.append(dict(name="sessions", fn=sessions, params=dict(k=3 if q else 4), reach=["logged in", "logged out"], weight=7, opts=bo))
    out.append(dict(name="forwarded prefix", fn=forwarded, params=dict(n=4 if q else 5), reach=["ignored", "used"], weight=7))
    for t in range(len(TRUST)):
        out.append(dict(name="forwarded prefix: clients trusted by %s" % ", ".join(TRUST[t]), fn=forwarded, params=dict(n=2, trust=t), reach=["ignored"] + (["used"] if TRUST[t] else []), weight=5))
    for k in range(3 if q else 4):
        out.append(dict(name="security headers, %d of the application's" % k, fn=headers, params=dict(n=k), reach=["end"], weight=3))
    out.append(dict(name="prefixes", fn=combine, params=dict(n=3 if q else 4), reach=["end"], weight=7))
    for mode in ("include", "mounted", "mounted plain", "plain", "prefix"):
        for prefix in ("/dashboard", "/a/b", "/"):
            if prefix != "/dashboard" and "plain" in mode:
                continue
            out.append(dict(name="pages: %s at %s" % (mode, prefix), fn=routes, params=dict(mode=mode, prefix=prefix), reach=["login"], weight=9, opts=dict(seconds=400)))
            out.append(dict(name="journey: %s at %s" % (mode, prefix), fn=journey, params=dict(mode=mode, prefix=prefix), reach=["end", "refused"], weight=6))
    return out
