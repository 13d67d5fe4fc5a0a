"""C20: the DTS API client sends exactly the requests asked for, to the routes the server announces."""
from collections import namedtuple
import requests
from pyvc.goals import *
from pyvc import interp as I
from contracts.domains import *
from contracts.c19 import NAME, LEVEL, Get, Online, given, online
from MyCapytain import __version__
from MyCapytain.common.reference import CtsReference, DtsReference
from MyCapytain.common.utils import parse_pagination, parse_uri
from MyCapytain.retrievers.dts import HttpDtsRetriever

M = Module("C20")
PAGE = Int(glo=1, ghi=30)


class Answer(object):
    def __init__(self, encoding, fails, data=None):
        self.encoding, self.fails, self.data = encoding, fails, data

    def raise_for_status(self):
        if self.fails:
            raise requests.HTTPError("no")

    def json(self):
        return self.data


class Server(object):
    """Logs where requests are sent, with which parameters, for which format."""
    def __init__(self, encoding=None, fails=False, index=None):
        self.encoding, self.fails, self.index, self.log = encoding, fails, index, []
        self.answer = None

    def get(self, url, params=None, headers=None):
        self.log.append((url, params, None if headers is None else headers["Accept"]))
        self.answer = Answer(self.encoding, self.fails, self.index)
        return self.answer


class Route(object):
    def __init__(self, path, query_dict):
        self.path, self.query_dict = path, query_dict


def setup(it):
    it.contracts[online] = Online()
    it.contracts[requests.get] = Get()
    it.e.under_contract.add("requests.get")
    it.models[requests.utils.default_user_agent] = lambda it_, a, k: "requests"


def client(path, api):
    r = HttpDtsRetriever("http://x")
    query = {} if api is None else {"api": [api]}
    r._routes = {"collections": Route(path, query), "navigation": Route(path + "n", query), "documents": Route(path + "d", query)}
    return r


def fixed(api, params):
    """The parameters of the request and those of the route."""
    if api is not None:
        params["api"] = [api]
    return params


@M.goal(of=(HttpDtsRetriever.call,), path=NAME, api=Opt(NAME), a=Opt(NAME), n=Opt(PAGE), default=Opt(NAME), some=Bool(), encoding=Opt(NAME), fails=Bool(),
        accept=Opt(NAME), setup=setup)
def call(g, path, api, a, n, default, some, encoding, fails, accept):
    r, s = client(path, api), Server(encoding, fails)
    asked = {"id": a, "page": n, "other": "x"}
    defaults = {"id": default, "page": 1} if some else None
    out = g.outcome(lambda: online(s, lambda: r.call("collections", asked, mimetype=accept, defaults=defaults) if accept is not None else
                                   r.call("collections", asked, defaults=defaults)))
    want = given([("id", None if some and a == default else a), ("page", None if some and n == 1 else n), ("other", "x")])
    g.ensures("one request to the route, with what is given and is not the default", len(s.log) == 1 and s.log[0][0] == path and s.log[0][1] == fixed(api, want))
    g.ensures("asking for the format", s.log[0][2] == ("application/ld+json" if accept is None else accept))
    g.ensures("the parameters stay", asked == {"id": a, "page": n, "other": "x"})
    if fails:
        g.ensures("an error of the server is an error", out == ("raise", "HTTPError"))
    else:
        g.ensures("the answer of the server", out[0] == "ok" and out[1] is s.answer and s.answer.encoding == ("utf-8" if encoding is None else encoding))


HOW = Choice("none", "text", "cts", "dts", "tuple", "number")


ANY_TEXT = Str(nonempty=True, gen=lambda rng: rng.choice(["1", "1.2", "pref-1", "a-b", "é@x"]))


def reference(how, start, end, one, two):
    """The reference asked for and the parameters it stands for (a CTS passage has no '-' within, others hold anything)."""
    if how != "cts":
        start, end = one, None if end is None else two
    if how == "none":
        return None, []
    if how == "text":
        return start, [("ref", start)]
    if how == "tuple":
        return (start, end), [("start", start), ("end", end)]
    if how == "number":
        return 7, [("ref", "7")]
    if end is None:
        return (CtsReference(start) if how == "cts" else DtsReference(start)), [("ref", start)]
    return (CtsReference(start + "-" + end) if how == "cts" else DtsReference(start, end)), [("start", start), ("end", end)]


@M.goal(of=(HttpDtsRetriever.get_collection,), path=NAME, api=Opt(NAME), name=Opt(NAME), nav=Choice("children", "parents"), page=Opt(PAGE), setup=setup)
def collection(g, path, api, name, nav, page):
    r, s = client(path, api), Server()
    online(s, lambda: r.get_collection(name, nav=nav, page=page))
    want = given([("id", name), ("nav", None if nav == "children" else nav), ("page", None if page == 1 else page)])
    g.ensures("the request", s.log == [(path, fixed(api, want), "application/ld+json")])
    online(s, lambda: r.get_collection(name))
    g.ensures("children, first page unless told", s.log[1] == (path, fixed(api, given([("id", name)])), "application/ld+json"))


@M.goal(of=(HttpDtsRetriever.get_navigation,), path=NAME, api=Opt(NAME), name=NAME, start=PASSAGE_TEXT, end=Opt(PASSAGE_TEXT), one=ANY_TEXT, two=ANY_TEXT, how=HOW, page=Opt(PAGE),
        level=Opt(LEVEL), group_by=Opt(PAGE), max_=Opt(PAGE), exclude=Opt(NAME), setup=setup)
def navigation(g, path, api, name, start, end, one, two, how, page, level, group_by, max_, exclude):
    g.requires((end is None and how != "tuple") or (end is not None and how not in ("none", "text", "number")))
    r, s = client(path, api), Server()
    ref, place = reference(how, start, end, one, two)
    online(s, lambda: r.get_navigation(name, level=level, ref=ref, group_by=group_by, max_=max_, exclude=exclude, page=page))
    want = given([("id", name), ("level", level), ("groupBy", group_by), ("max", max_), ("exclude", exclude), ("page", page)] + place)
    g.ensures("the request", s.log == [(path + "n", fixed(api, want), "application/ld+json")])


@M.goal(of=(HttpDtsRetriever.get_document,), path=NAME, api=Opt(NAME), name=NAME, start=PASSAGE_TEXT, end=Opt(PASSAGE_TEXT), one=ANY_TEXT, two=ANY_TEXT, how=HOW, accept=Opt(NAME), setup=setup)
def document(g, path, api, name, start, end, one, two, how, accept):
    g.requires((end is None and how != "tuple") or (end is not None and how not in ("none", "text", "number")))
    r, s = client(path, api), Server()
    ref, place = reference(how, start, end, one, two)
    online(s, lambda: r.get_document(name, ref=ref) if accept is None else r.get_document(name, ref=ref, mimetype=accept))
    g.ensures("the request", s.log == [(path + "d", fixed(api, given([("id", name)] + place)),
                                        "application/tei+xml, application/xml" if accept is None else accept)])


# ---------------------------------------------------------------- routes and pages
class Parsed(object):
    """parse_uri as a function of the URI and the endpoint (the bounded goals say which)."""
    def apply(self, it, args, kw):
        f = it.e.uf("parse_uri", z3.StringSort(), z3.StringSort(), z3.StringSort())
        return SStr((f(sterm(args[0]), sterm(args[1])),))


def setup_routes(it):
    setup(it)
    it.contracts[parse_uri] = Parsed()
    it.e.under_contract.add("parse_uri")


@M.goal(of=(HttpDtsRetriever.routes.fget,), endpoint=NAME, a=NAME, b=NAME, c=NAME, fails=Bool(), setup=setup_routes)
def routes(g, endpoint, a, b, c, fails):
    r, s = HttpDtsRetriever(endpoint), Server(fails=fails, index={"collections": a, "documents": b, "navigation": c})
    out = g.outcome(lambda: online(s, lambda: r.routes))
    g.ensures("the endpoint is asked", s.log == [(endpoint, None, None)])
    if fails:
        g.ensures("an error of the server is an error", out == ("raise", "HTTPError"))
    else:
        g.ensures("routes of the endpoint", out[0] == "ok" and out[1]["collections"] == parse_uri(a, endpoint) and out[1]["documents"] == parse_uri(b, endpoint)
                  and out[1]["navigation"] == parse_uri(c, endpoint) and len(out[1]) == 3)
        g.ensures("asked once", online(s, lambda: r.routes) == out[1] and len(s.log) == 1)


SEGMENT = ["api", "dts", "collections", "é", "a%20b"]
VALUES = ["1", "19", "a b", "é", "a&b", "x=y", "urn:cts:a:b.c"]


def quoted(text):
    out = ""
    for c in text:
        out += c if c.isalnum() and ord(c) < 128 else "".join("%%%02X" % b for b in c.encode())
    return out


def gen_query(rng):
    return [(rng.choice(["api", "id", "page", "nav"]), rng.choice(VALUES)) for _ in range(rng.randint(0, 3))]


def gen_route(rng):
    """A URI relative to an endpoint, where it leads, and its parameters."""
    host, dirs = "http://x.org", [rng.choice(SEGMENT) for _ in range(rng.randint(0, 2))]
    endpoint = host + "/" + "".join(d + "/" for d in dirs)
    more = [rng.choice(SEGMENT) for _ in range(rng.randint(0, 2))]
    tail = rng.choice(["", "/"]) if more else ""
    kind = rng.choice(["relative", "dot", "root", "up", "absolute"])
    path = "/".join(more) + tail
    if kind == "dot" or kind == "relative":
        uri, where = ("./" if kind == "dot" and path else "") + path, endpoint + path
    elif kind == "root":
        uri, where = "/" + path, host + "/" + path
    elif kind == "absolute":
        other = rng.choice(["http://x.org", "https://x.org", "http://y.org:8080"])
        uri, where = other + "/" + path, other + "/" + path
    else:
        uri, where = "../" + path, host + "/" + "".join(d + "/" for d in dirs[:-1]) + path
    query = gen_query(rng)
    if query:
        uri += "?" + "&".join("%s=%s" % (k, quoted(v)) for k, v in query)
    return endpoint, uri, where, query


@M.goal(of=(parse_uri,), bounded=True, samples=400, route=Custom(None, gen_route))
def uris(g, route):
    """Bounded: routes relative to the endpoint or on another server, over random URIs."""
    endpoint, uri, where, query = route
    out = parse_uri(uri, endpoint)
    g.ensures("where it leads", out.path == where)
    g.ensures("its parameters", out.query_dict == {k: [v for n, v in query if n == k] for k, _ in query})


def gen_links(rng):
    out = {}
    for rel in rng.sample(["previous", "next", "last", "current", "first", "up"], rng.randint(0, 4)):
        page = rng.choice([None, str(rng.randint(1, 500))])
        params = [("id", rng.choice(VALUES))] if rng.random() < .6 else []
        if page is not None:
            params.insert(rng.randint(0, len(params)), ("page", page))
        out[rel] = (rng.choice(["", "/", "/api/dts/collections/", "http://x.org/api"]) + "?" + "&".join("%s=%s" % (k, quoted(v)) for k, v in params), page)
    return out


@M.goal(of=(parse_pagination,), bounded=True, samples=400, links=Custom(None, gen_links), none=Bool())
def pages(g, links, none):
    """Bounded: pages announced in the header of an answer, over random headers."""
    headers = {} if none and not links else {"Link": ", ".join('<%s>; rel="%s"' % (uri, rel) for rel, (uri, page) in links.items())}
    out = parse_pagination(headers)
    g.ensures("the page of each direction", tuple(out) == tuple(links.get(k, (None, None))[1] for k in ("previous", "next", "last", "current", "first")))
