"""C07: CTS citation patterns: placeholders are numbered and split as written, and filling selects the passage."""
from lxml import etree
from pyvc.goals import *
from contracts.domains import *
from MyCapytain.common.reference import CtsReference, Citation
from MyCapytain.common.constants import XPATH_NAMESPACES, Mimetypes

M = Module("C07")
M.level = "exploration"   # most clauses are bounded
SEG = Str(lacks="?", nonempty=True, gen=lambda rng: rng.choice(["/tei:div[@n='", "']//tei:l[@n='", "']", "/a$1b"]))


@M.goal(of=(Citation.__init__, Citation._fromScopeXpathToRefsDecl), a=SEG, b=SEG, c=SEG, d=SEG, e=SEG, n=Choice(0, 1, 2, 3, 4), cut=Choice(0, 1, 2, 3, 4))
def numbering(g, a, b, c, d, e, n, cut):
    """Bounded in the number of placeholders (0 to 4); the texts around them are arbitrary."""
    g.requires(cut <= n)
    texts = [a, b, c, d, e][:n + 1]
    scope, xpath, want = texts[0], "", texts[0]
    for i in range(1, n + 1):
        want = want + "$" + str(i) + texts[i]
        if i <= cut:
            scope = scope + "?" + texts[i]
        else:
            xpath = xpath + "?" + texts[i]
    g.requires(xpath != "")
    x = Citation(name="x", scope=scope, xpath=xpath)
    g.ensures("placeholders numbered from left to right", x.refsDecl == want)


@M.goal(of=(Citation.__init__, Citation.refsDecl), text=Str(), name=Opt(Str()))
def pattern_given(g, text, name):
    x = Citation(name=name, refsDecl=text)
    g.ensures("kept as given", x.refsDecl == text and x.name == name and x.is_set())
    x.refsDecl = None
    g.ensures("not replaced by nothing", x.refsDecl == text)
    g.ensures("not set", not Citation(name=name).is_set())


# ---------------------------------------------------------------- bounded: regular expressions and XPath
BOUND = dict(bounded=True, samples=500)
STEPS = ["/tei:div[@n='?']", "//tei:div[@type='poem' and @n='?']", "/tei:div/tei:seg[@n='?']", "//tei:l[@n='?']", "/tei:*[@n='?']",
         "//tei:div[@n=\"?\"]", "//tei:div[@xml:id='?']"]


def gen_steps(rng):
    head = rng.choice(["/tei:TEI/tei:text/tei:body", "/tei:TEI/tei:text", "/TEI/text/body/div[@type='edition']"])
    return head, [rng.choice(STEPS) for _ in range(rng.randint(1, 4))]


def numbered(steps, start=1):
    out = ""
    for i, s in enumerate(steps):
        out += s.replace("?", "$%d" % (i + start))
    return out


def tail_step(step):
    """The last step of a path: what the xpath of a citation is."""
    i = step.rfind("/")
    while i > 0 and step[i - 1] == "/":
        i -= 1
    return step[:i], step[i:]


@M.goal(of=(Citation.scope, Citation.xpath, Citation._parseXpathScope, Citation.attribute), pat=Custom(None, gen_steps), **BOUND)
def scope_and_xpath(g, pat):
    head, steps = pat
    extra, last = tail_step(steps[-1])
    scope = head + "".join(steps[:-1]) + extra
    c = Citation(name="x", refsDecl=head + numbered(steps))
    g.ensures("scope", c.scope == scope)
    g.ensures("xpath", c.xpath == last)
    c2 = Citation(name="x", scope=scope, xpath=last)
    g.ensures("built from its parts", c2.refsDecl == c.refsDecl and c2.scope == scope and c2.xpath == last)
    g.ensures("attribute", c.attribute == ("xml:id" if "xml:id" in last else "n"))


@M.goal(of=(Citation.scope, Citation.xpath), pat=Custom(None, gen_steps), pat2=Custom(None, gen_steps), **BOUND)
def replacing_a_part(g, pat, pat2):
    c = Citation(name="x", refsDecl=pat[0] + numbered(pat[1]))
    scope, xpath = c.scope, c.xpath
    new_scope, new_xpath = tail_step(pat2[0] + "".join(pat2[1]))
    c.scope = new_scope
    g.ensures("new scope, same xpath", c.scope == new_scope and c.xpath == xpath)
    c.xpath = new_xpath
    g.ensures("new xpath, same scope", c.scope == new_scope and c.xpath == new_xpath)
    g.ensures("renumbered", c.refsDecl == pat2[0] + numbered(pat2[1]))
    c.scope = None
    c.xpath = None
    g.ensures("not replaced by nothing", c.refsDecl == pat2[0] + numbered(pat2[1]))


VALUE = ["1", "2", "12", "a", "pr", "1a", "é"]


@M.goal(of=(Citation.fill,), pat=Custom(None, gen_steps), values=Custom(None, lambda rng: [rng.choice(VALUE + [None]) for _ in range(4)]), **BOUND)
def fill(g, pat, values):
    head, steps = pat
    values = values[:len(steps)]
    c = Citation(name="x", refsDecl=head + numbered(steps))

    def put(step, v):
        quote = '"' if '"?"' in step else "'"
        return step.replace("=%s?%s" % (quote, quote), "" if v is None else "='%s'" % v)
    g.ensures("values in order", c.fill(values) == head + "".join(put(s, v) for s, v in zip(steps, values)))
    g.ensures("no value", c.fill(None) == c.fill() == head + "".join(put(s, None) for s in steps))
    last = tail_step(steps[-1])[1]
    for v in values:
        if v is not None:
            g.ensures("own step only", c.fill(v, xpath=True) == put(last, v))
    g.ensures("own step without value", c.fill(None, xpath=True) == put(last, None))
    if None not in values:
        ref = CtsReference(".".join(values))
        g.ensures("reference", c.fill(ref) == c.fill(values))
        rng_ref = CtsReference(".".join(values) + "-" + ".".join(["9"] * len(values)))
        g.ensures("start of a range", c.fill(rng_ref) == c.fill(values))
        for k in range(1, 6):
            rng_ref = CtsReference(".".join(values) + "@w-" + ".".join(["9"] * k))
            g.ensures("start of a range ending at another level", c.fill(rng_ref) == c.fill(values))
    g.ensures("filling keeps the pattern", c.refsDecl == head + numbered(steps))


def document(rng, depth):
    def level(d, path):
        if d == depth:
            return "<l>%s</l>" % ".".join(path)
        names = rng.sample(["1", "2", "3", "a", "b"], rng.randint(1, 3))
        return "".join("<div n='%s'>%s</div>" % (n, level(d + 1, path + [n])) for n in names)
    return "<TEI xmlns='http://www.tei-c.org/ns/1.0'><text><body>%s</body></text></TEI>" % level(0, [])


@M.goal(of=(Citation.fill,), doc=Custom(None, lambda rng: (lambda d: (d, document(rng, d)))(rng.randint(1, 3))),
        values=Custom(None, lambda rng: [rng.choice(["1", "2", "3", "a", None]) for _ in range(3)]), **BOUND)
def selects(g, doc, values):
    depth, xml = doc
    values = values[:depth]
    root = etree.fromstring(xml)
    c = Citation(name="x", refsDecl="/tei:TEI/tei:text/tei:body" + "".join("/tei:div[@n='$%d']" % (i + 1) for i in range(depth)))
    got = root.getroottree().xpath(c.fill(values), namespaces=XPATH_NAMESPACES)
    want = []

    def walk(node, d):
        for child in node:
            if values[d] is None or child.get("n") == values[d]:
                if d == depth - 1:
                    want.append(child)
                else:
                    walk(child, d + 1)
    walk(root[0][0], 0)
    g.ensures("exactly the passages with these values", got == want)


@M.goal(of=(Citation.__export__, Citation.ingest), pat=Custom(None, gen_steps), name=Choice("book", "line", 'a & "b" <c>', None), **BOUND)
def export_patterns(g, pat, name):
    head, steps = pat
    steps = [s for s in steps if '"' not in s] or ["//tei:l[@n='?']"]
    levels = []
    c = None
    for i in range(len(steps), 0, -1):
        c = Citation(name=None if name is None else name + str(i), refsDecl=head + numbered(steps[:i]), child=c)
    ns = "xmlns:tei='http://www.tei-c.org/ns/1.0' xmlns:ti='http://chs.harvard.edu/xmlns/cts' xmlns='http://chs.harvard.edu/xmlns/cts'"
    for level in c:
        node = etree.fromstring("<r %s>%s</r>" % (ns, level.export(Mimetypes.XML.TEI)))[0]
        back = Citation.ingest(node, ".")
        g.ensures("TEI pattern reads back", back.refsDecl == level.refsDecl and back.name == (level.name or ""))
    node = etree.fromstring("<r %s>%s</r>" % (ns, c.export(Mimetypes.XML.CTS)))
    for level in c:
        node = node[0]
        g.ensures("CTS citation carries its level", (node.get("scope"), node.get("xpath"), node.get("label")) ==
                  (level.scope, level.xpath, level.name or ""))
    g.ensures("no further level", len(node) == 0)
    g.ensures("nothing for an empty citation", Citation(name="x").export(Mimetypes.XML.CTS) == "")


@M.goal(of=(Citation.__export__, Citation.ingest), bounded=True, samples=1, name=Choice("line"))
def double_quoted_pattern(g, name):
    """Bounded: the pattern //tei:l[@n="$1"] exported to TEI (a known finding: the tests hold the text that is not XML)."""
    c = Citation(name=name, refsDecl='/tei:TEI//tei:l[@n="$1"]')
    out = g.outcome(lambda: etree.fromstring("<r xmlns:tei='http://www.tei-c.org/ns/1.0'>%s</r>" % c.export(Mimetypes.XML.TEI)))
    g.ensures("well formed", out[0] == "ok")
