"""Random TEI documents with a CTS citation scheme, and their own independent description."""
import io
from lxml import etree, objectify
from MyCapytain.common.reference import Citation
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText

LABELS = ["1", "2", "3", "4", "5", "10", "a", "b", "pr", "é", "1a"]
WORDS = ["arma", "virumque", "cano", "Troiae", "qui", "primus", "ab", "oris", "é", "&amp;", "&lt;x&gt;"]


FORMS = {"text": lambda x: x, "file": io.StringIO, "element": lambda x: objectify.fromstring(x),
         "declared": lambda x: '<?xml version="1.0" encoding="UTF-8"?>\n' + x,
         "bytes": lambda x: io.BytesIO(("<?xml version='1.0' encoding='iso-8859-1'?>" + x).encode("iso-8859-1", "xmlcharrefreplace")),
         "tree": lambda x: objectify.parse(io.StringIO(x)), "plain": lambda x: etree.fromstring(x)}


class Doc(object):
    """tree: [(label, subtree or words)]; leaves at depth `depth`."""
    def __init__(self, rng, depth=None, maxwidth=4, uneven=False, wrap=True):
        self.depth = depth or rng.randint(1, 3)
        self.rng = rng
        self.counter = 0
        plain = rng.random() < .7
        # '//' before the steps of some levels; then the tags of the levels differ, for '//' must not find other levels
        self.double = [not plain and rng.random() < .6 for _ in range(self.depth)]
        self.tags = ["div"] * (self.depth - 1) if not any(self.double[:-1]) else ["div", "p", "ab"]
        self.last_tag = rng.choice(["l", "seg", "w", "div"] if self.tags[0:2] != ["div", "p"] else ["l", "seg", "w"])
        self.wrapper = [wrap and d and rng.random() < .6 for d in self.double]
        self.noise = rng.random() < .4
        self.same = rng.choice([None, None, ["w"], ["1", "01", "w"]])     # words of repeated passages
        self.between = rng.choice(["", "", "<!-- between -->", "<?between x?>", "<pb/>", " "])
        self.given = rng.random() < .3      # the citation levels are given and not read from the document
        self.form = rng.choice(["text", "text", "text", "declared", "bytes", "file", "element", "tree", "plain"])     # what the text is made from
        self.urn = rng.choice(["urn:cts:latinLit:a.b.c", "urn:cts:latinLit:a.b.c", "urn:cts:latinLit:a.b"])
        self.tree = self.grow(0, maxwidth)
        self.xml = self.render()

    def describe(self):
        return self.xml

    def word(self):
        if self.same:
            return self.rng.choice(self.same)
        self.counter += 1
        return self.rng.choice(WORDS) + "w%d" % self.counter

    def grow(self, d, maxwidth):
        labels = self.rng.sample(LABELS, self.rng.randint(1, maxwidth))
        return [(n, self.grow(d + 1, maxwidth) if d + 1 < self.depth else self.word()) for n in labels]

    def step(self, i):
        return self.last_tag if i == self.depth - 1 else self.tags[i]

    def pattern(self, level):
        out = "/tei:TEI/tei:text/tei:body"
        for i in range(level):
            slash = "//" if self.double[i] else "/"
            out += "%stei:%s[@n='$%d']" % (slash, self.step(i), i + 1)
        return out

    def render(self):
        def walk(tree, d):
            out, close = "", []
            for n, sub in tree:
                inner = sub if isinstance(sub, str) else walk(sub, d + 1)
                if isinstance(sub, str) and self.noise:
                    inner += "<note>note%s</note>" % n
                node = "<%s n='%s'>%s</%s>" % (self.step(d), n, inner, self.step(d))
                if self.wrapper[d]:
                    # passages one by one or several together in wrappers of any depth, or in none
                    if not out or self.rng.random() < .5:
                        out, deep = out + "".join(close), self.rng.randint(0, 2)
                        out, close = out + "<lg>" * deep, ["</lg>"] * deep
                out += node + self.between
            return out + "".join(close)
        decl = "".join("<cRefPattern n='level%d' matchPattern='(.+)' replacementPattern=\"#xpath(%s)\"/>" % (i, self.pattern(i))
                       for i in range(self.depth, 0, -1))
        return ("<TEI xmlns='http://www.tei-c.org/ns/1.0'><teiHeader><encodingDesc><refsDecl n='CTS'>%s</refsDecl></encodingDesc>"
                "</teiHeader><text><body>%s</body></text></TEI>" % (decl, walk(self.tree, 0)))

    def refs(self, level, tree=None, prefix=()):
        """References at a level, in document order, as tuples of labels."""
        tree = self.tree if tree is None else tree
        out = []
        for n, sub in tree:
            if level == 1:
                out.append(prefix + (n,))
            else:
                out += self.refs(level - 1, sub, prefix + (n,))
        return out

    def node(self, ref):
        tree = self.tree
        for n in ref:
            tree = dict(tree)[n]
        return tree

    def words(self, ref=(), sub=None):
        sub = self.node(ref) if sub is None else sub
        if isinstance(sub, str):
            return [sub.replace("&amp;", "&").replace("&lt;", "<").replace("&gt;", ">")]
        return [w for n, s in sub for w in self.words((), s)]

    def text(self, urn=None):
        levels = None
        if self.given:
            for i in range(self.depth, 0, -1):
                levels = Citation(name="level%d" % i, refsDecl=self.pattern(i), child=levels)
        return CapitainsCtsText(resource=FORMS[self.form](self.xml), urn=urn, citation=levels)


def ref(parts):
    return ".".join(parts)
