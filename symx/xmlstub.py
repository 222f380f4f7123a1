"""Stand-ins for xml.etree.ElementTree, xml.dom.minidom and xml.sax at the level of the XML
infoset.

The text layer (expat, the pure string escaping of the library) is replaced by document tokens;
what the library does to the infoset is kept: attributes and text must be str, minidom writes
attribute whitespace raw so a later parse reads TAB/LF/CR as spaces, pretty printing adds
whitespace character events, CR is normalised in text, `--` is refused in comments.
"""
import io
import xml.etree.ElementTree as RealET
import xml.sax
import xml.sax.handler
import xml.sax.xmlreader

import z3
from symx import core
from symx.core import Sym, Unsupported, Or
from symx.sstr import SymStr, OpaqueStr, is_str, tname, concat, chars, mkstr, as_sym, ceq
from symx.containers import SDict


class Node:
    """kind: 'el' | 'text' | 'comment' | 'doc'"""
    def __init__(self, kind, name=None, attrs=(), data=None):
        self.kind, self.name, self.attrs, self.data = kind, name, list(attrs), data
        self.children = []


class XmlText:
    """Serialised XML text (opaque)."""
    def __init__(self, root, raw_attr, head=True):
        self.root, self.raw_attr, self.head = root, raw_attr, head

    def encode(self, *a, **k): return XmlBytes(self.root, self.raw_attr)
    def strip(self): return self

    def __add__(self, o):
        if isinstance(o, str) and not o.strip():
            return self
        if isinstance(o, bytes):
            raise TypeError('can only concatenate str (not "bytes") to str')
        raise Unsupported("editing XML text")

    def __radd__(self, o):
        if isinstance(o, str) and (not o.strip() or o.lstrip().startswith("<?xml")):
            return self
        raise Unsupported("editing XML text")

    def __bool__(self): return True
    def __str__(self): raise Unsupported("text of an XML token")
    def __getattr__(self, n): raise Unsupported("XML text .%s" % n)
    def __getitem__(self, i): raise Unsupported("slicing XML text")


class XmlBytes:
    def __init__(self, root, raw_attr):
        self.root, self.raw_attr = root, raw_attr

    def decode(self, *a, **k): return XmlText(self.root, self.raw_attr)
    def __bool__(self): return True
    def __getattr__(self, n): raise Unsupported("XML bytes .%s" % n)

    def __add__(self, o):
        if isinstance(o, bytes) and not o.strip():
            return self
        raise Unsupported("editing XML bytes")

    def __radd__(self, o):
        if isinstance(o, bytes) and (not o.strip() or o.startswith(b"<?xml")):
            return self
        raise Unsupported("editing XML bytes")


# ------------------------------------------------------------------ ElementTree
def _ser_fail(x):
    raise TypeError("cannot serialize %s (type %s)" % (tname(x), tname(x)))


class Element:
    def __init__(self, tag, attrib=None, **extra):
        if attrib is not None and not isinstance(attrib, (SDict, dict)):
            raise TypeError("attrib must be dict, not %s" % tname(attrib))
        self.tag = tag
        self.attrib = SDict(attrib or {}, **extra)
        self.text = None
        self.tail = None
        self._children = []

    def set(self, k, v): self.attrib[k] = v
    def get(self, k, default=None): return self.attrib.get(k, default)
    def keys(self): return self.attrib.keys()
    def items(self): return self.attrib.items()

    def append(self, e):
        if not isinstance(e, Element):
            raise TypeError("append() argument must be xml.etree.ElementTree.Element, not %s" % tname(e))
        self._children.append(e)

    def extend(self, es):
        for e in es:
            self.append(e)

    def insert(self, i, e): self._children.insert(i, e)
    def remove(self, e): self._children.remove(e)
    def __len__(self): return len(self._children)
    def __iter__(self): return iter(self._children)
    def __getitem__(self, i): return self._children[i]
    def __delitem__(self, i): del self._children[i]
    def __setitem__(self, i, v): self._children[i] = v
    def __bool__(self): return len(self._children) != 0
    def makeelement(self, tag, attrib): return Element(tag, attrib)

    def iter(self, tag=None):
        if tag is None or tag == "*" or bool(self.tag == tag):
            yield self
        for c in self._children:
            yield from c.iter(tag)

    def find(self, path):
        for c in self.findall(path):
            return c
        return None

    def findall(self, path):
        if path.startswith(".//"):
            return [e for c in self._children for e in c.iter(path[3:])]
        if any(ch in path for ch in "/[@."):
            raise Unsupported("element path")
        return [c for c in self._children if path == "*" or c.tag == path]

    def findtext(self, path, default=None):
        e = self.find(path)
        return default if e is None else (e.text or "")

    def itertext(self):
        if self.text:
            yield self.text
        for c in self._children:
            yield from c.itertext()
            if c.tail:
                yield c.tail

    def node(self):
        if not is_str(self.tag):
            _ser_fail(self.tag)
        tag = self.tag if isinstance(self.tag, str) else core.ENG.concretise(self.tag)
        n = Node("el", tag)
        for k, v in self.attrib.items():
            if not is_str(k):
                _ser_fail(k)
            if not is_str(v):
                _ser_fail(v)
            n.attrs.append((k, v))
        if self.text is not None and not (is_str(self.text) and not isinstance(self.text, SymStr) and not self.text):
            if not is_str(self.text):
                if self.text:
                    _ser_fail(self.text)
            elif self.text:
                n.children.append(Node("text", data=self.text))
        for c in self._children:
            n.children.append(c.node())
            if c.tail:
                if not is_str(c.tail):
                    _ser_fail(c.tail)
                n.children.append(Node("text", data=c.tail))
        return n


def element_of(n):
    e = Element(n.name)
    for k, v in n.attrs:
        e.attrib[k] = v
    last = None
    for c in n.children:
        if c.kind == "text":
            if last is None:
                e.text = c.data if e.text is None else concat(e.text, c.data)
            else:
                last.tail = c.data if last.tail is None else concat(last.tail, c.data)
        elif c.kind == "el":
            last = element_of(c)
            e._children.append(last)
    return e


class ElementTree:
    def __init__(self, element=None, file=None):
        self._root = element
        if file is not None:
            self.parse(file)

    def getroot(self): return self._root

    def parse(self, file):
        self._root = element_of(load_tree(file))
        return self._root

    def iter(self, tag=None): return self._root.iter(tag)
    def find(self, p): return self._root.find(p)
    def findall(self, p): return self._root.findall(p)

    def write(self, out, encoding=None, xml_declaration=None, default_namespace=None, method=None,
              short_empty_elements=True):
        tok = XmlText(self._root.node(), False)
        uni = encoding in ("unicode",)
        if hasattr(out, "write"):
            if uni:
                out.write(tok)
            else:
                out.write(tok.encode())
        else:
            from symx.stubs import vfs_open
            f = vfs_open(out, "wb")
            f.write(tok.encode())
            f.close()


class ETModule:
    Element, ElementTree = Element, ElementTree
    ParseError = RealET.ParseError

    def SubElement(self, parent, tag, attrib=None, **extra):
        if not isinstance(parent, Element):
            raise TypeError("SubElement() argument 1 must be xml.etree.ElementTree.Element, not %s" % tname(parent))
        e = Element(tag, attrib, **extra)
        parent.append(e)
        return e

    def tostring(self, e, encoding=None, method=None, *, xml_declaration=None, default_namespace=None,
                 short_empty_elements=True):
        t = XmlText(e.node(), False)
        return t if encoding == "unicode" else t.encode()

    def fromstring(self, text, parser=None):
        return element_of(load_tree(MemFile(text)))

    XML = fromstring

    def parse(self, file, parser=None):
        t = ElementTree()
        t.parse(file)
        return t

    def iselement(self, e): return isinstance(e, Element)

    def indent(self, tree, space="  ", level=0):
        root = tree.getroot() if isinstance(tree, ElementTree) else tree

        def rec(e, lv):
            ind = "\n" + (lv + 1) * space
            if not e.text or not e.text.strip():
                e.text = ind
            for c in e:
                if len(c):
                    rec(c, lv + 1)
                if not c.tail or not c.tail.strip():
                    c.tail = ind
            if not c.tail.strip():
                c.tail = ind[:len(ind) - len(space)]
        if len(root):
            rec(root, level)

    def Comment(self, *a): raise Unsupported("ElementTree.Comment")
    def __getattr__(self, n): raise Unsupported("ElementTree.%s" % n)


# ------------------------------------------------------------------ minidom
class DomNode:
    def __init__(self, kind, name=None, data=None):
        self.kind, self.data = kind, data
        self.nodeName = self.tagName = name
        self.attrs = []
        self.childNodes = []
        self.nodeType = {"el": 1, "text": 3, "comment": 8, "doc": 9}[kind]
        self.parentNode = None

    @property
    def documentElement(self):
        for c in self.childNodes:
            if c.kind == "el":
                return c
        return None

    @property
    def firstChild(self): return self.childNodes[0] if self.childNodes else None
    @property
    def lastChild(self): return self.childNodes[-1] if self.childNodes else None

    def createComment(self, data): return DomNode("comment", data=data)
    def createElement(self, name): return DomNode("el", name)
    def createTextNode(self, data):
        if not is_str(data):
            raise TypeError("node contents must be a string")
        return DomNode("text", data=data)

    def setAttribute(self, k, v):
        self.attrs = [(a, b) for a, b in self.attrs if not bool(a == k)] + [(k, v)]

    def getAttribute(self, k):
        for a, b in self.attrs:
            if bool(a == k):
                return b
        return ""

    def hasAttribute(self, k): return any(bool(a == k) for a, b in self.attrs)

    def getElementsByTagName(self, n):
        out = []
        for c in self.childNodes:
            if c.kind == "el":
                if n == "*" or c.nodeName == n:
                    out.append(c)
                out += c.getElementsByTagName(n)
        return out

    def appendChild(self, c):
        self.childNodes.append(c)
        return c

    def insertBefore(self, new, ref):
        i = len(self.childNodes) if ref is None else [x is ref for x in self.childNodes].index(True)
        self.childNodes.insert(i, new)
        return new

    def removeChild(self, c):
        self.childNodes.remove(c)
        return c

    def unlink(self): pass

    def _write(self, parent, indent, addindent, newl):
        def ws(s):
            if s:
                parent.children.append(Node("text", data=s))
        if self.kind == "doc":
            for c in self.childNodes:
                c._write(parent, indent, addindent, newl)
        elif self.kind == "text":
            data = concat(concat(indent, self.data), newl)
            if data:
                parent.children.append(Node("text", data=data))
        elif self.kind == "comment":
            if bool(as_sym(self.data).contains("--")) if isinstance(self.data, SymStr) else "--" in self.data:
                raise ValueError("'--' is not allowed in a comment node")
            ws(indent)
            parent.children.append(Node("comment", data=self.data))
            ws(newl)
        else:
            ws(indent)
            n = Node("el", self.nodeName)
            for k, v in self.attrs:
                if not is_str(v):
                    raise AttributeError("'%s' object has no attribute 'replace'" % tname(v))
                n.attrs.append((k, v))
            parent.children.append(n)
            if self.childNodes:
                if len(self.childNodes) == 1 and self.childNodes[0].kind == "text":
                    self.childNodes[0]._write(n, "", "", "")
                else:
                    if newl:
                        n.children.append(Node("text", data=newl))
                    for c in self.childNodes:
                        c._write(n, indent + addindent, addindent, newl)
                    if indent:
                        n.children.append(Node("text", data=indent))
            ws(newl)

    def _token(self, indent, newl):
        top = Node("doc")
        self._write(top, "", indent, newl)
        return XmlText(top, True)

    def toprettyxml(self, indent="\t", newl="\n", encoding=None, standalone=None):
        t = self._token(indent, newl)
        return t if encoding is None else t.encode()

    def toxml(self, encoding=None, standalone=None):
        return self.toprettyxml("", "", encoding)

    def writexml(self, writer, indent="", addindent="", newl="", encoding=None, standalone=None):
        writer.write(self._token(addindent, newl))


class MinidomModule:
    Document = staticmethod(lambda: DomNode("doc"))

    def parseString(self, text, parser=None):
        return self._dom(load_tree(MemFile(text)))

    def parse(self, file, parser=None, bufsize=None):
        return self._dom(load_tree(file))

    def _dom(self, root):
        def conv(n):
            d = DomNode(n.kind, n.name, n.data)
            d.attrs = list(n.attrs)
            for c in n.children:
                d.appendChild(conv(c))
            return d
        doc = DomNode("doc")
        doc.appendChild(conv(root))
        return doc

    def __getattr__(self, n): raise Unsupported("minidom.%s" % n)


# ------------------------------------------------------------------ parsing
class MemFile:
    def __init__(self, data):
        self.data = data

    def xml_content(self):
        return [self.data]


def norm_attr(v, raw):
    """What a parser reports for an attribute value."""
    if not raw or isinstance(v, OpaqueStr):
        return v
    if isinstance(v, str):
        return v.replace("\r\n", " ").replace("\r", " ").replace("\n", " ").replace("\t", " ")
    cs = chars(v)
    out = []
    i = 0
    D = core.ENG.decide
    if not any(c in (9, 10, 13) for c in cs if isinstance(c, int)):
        nows = core.ENG.hooks.get("nows", {})
        e = Or(*[ceq(c, x) for c in cs if not isinstance(c, int) and c.get_id() not in nows for x in (9, 10, 13)])
        if e is False or not D(e):
            return v
    while i < len(cs):
        c = cs[i]
        if isinstance(c, int):
            ws = c in (9, 10, 13)
        else:
            ws = D(core.Or(c == 9, c == 10, c == 13))
        if ws:
            out.append(32)
            if i + 1 < len(cs) and ((c == 13) if isinstance(c, int) else D(c == 13)):
                d = cs[i + 1]
                if (d == 10) if isinstance(d, int) else D(d == 10):
                    i += 1
        else:
            out.append(c)
        i += 1
    return mkstr(out)


def real_tree(data):
    """Infoset of concrete XML text, by the real parser."""
    if isinstance(data, str):
        data = data.encode("utf-8")
    stack = [Node("doc")]

    class H(xml.sax.handler.ContentHandler):
        def startElement(self, name, attrs):
            n = Node("el", name, [(k, attrs.getValue(k)) for k in attrs.getNames()])
            stack[-1].children.append(n)
            stack.append(n)

        def endElement(self, name):
            stack.pop()

        def characters(self, c):
            stack[-1].children.append(Node("text", data=c))
    xml.sax.parseString(data, H())
    return stack[0].children[0]


def content_of(src):
    if hasattr(src, "xml_content"):
        return src.xml_content()
    if isinstance(src, (str, bytes)):
        from symx.stubs import vfs_open
        return vfs_open(src, "rb").xml_content()
    if isinstance(src, io.IOBase) or hasattr(src, "read"):
        return [src.read()]
    raise Unsupported("XML source %s" % type(src).__name__)


def strip_ws_chunks(parts):
    return [p for p in parts if not (isinstance(p, (str, bytes)) and not p.strip())]


def load_tree(src):
    parts = strip_ws_chunks(content_of(src))
    toks = [p for p in parts if isinstance(p, (XmlText, XmlBytes))]
    if not toks:
        if any(isinstance(p, Sym) for p in parts):
            raise Unsupported("symbolic raw XML text")
        data = b"".join(p.encode("utf-8") if isinstance(p, str) else p for p in parts)
        return real_tree(data)
    rest = [p for p in parts if not isinstance(p, (XmlText, XmlBytes))]
    for p in rest:
        q = p.encode() if isinstance(p, str) else p
        if not (isinstance(q, bytes) and q.lstrip().startswith(b"<?xml")):
            raise Unsupported("mixed XML text")
    if len(toks) != 1:
        raise xml.sax.SAXParseException("junk after document element", None, _Loc())
    t = toks[0]
    root = t.root
    esc = getattr(root, "escaped_text", False)
    if root.kind == "doc":
        els = [c for c in root.children if c.kind == "el"]
        if len(els) != 1:
            raise xml.sax.SAXParseException("no element found", None, _Loc())
        root = els[0]
    return reread(root, t.raw_attr, esc)


def reread(n, raw, esc=False):
    m = Node(n.kind, n.name)
    m.data = n.data
    m.attrs = [(k, norm_attr(v, raw)) for k, v in n.attrs]
    for c in n.children:
        if c.kind == "el":
            m.children.append(reread(c, raw, esc))
        elif c.kind == "text":
            m.children.append(Node("text", data=c.data if esc else norm_text(c.data)))
        elif c.kind == "comment":
            pass
    return m


def norm_text(s):
    if isinstance(s, str):
        return s.replace("\r\n", "\n").replace("\r", "\n")
    if isinstance(s, OpaqueStr):
        return s
    cs = chars(s)
    out = []
    D = core.ENG.decide
    i = 0
    while i < len(cs):
        c = cs[i]
        if (c == 13) if isinstance(c, int) else D(c == 13):
            out.append(10)
            if i + 1 < len(cs):
                d = cs[i + 1]
                if (d == 10) if isinstance(d, int) else D(d == 10):
                    i += 1
        else:
            out.append(c)
        i += 1
    return mkstr(out)


class _Loc:
    def getColumnNumber(self): return 0
    def getLineNumber(self): return 1
    def getSystemId(self): return None
    def getPublicId(self): return None


def text_chunks(s):
    """Character events as expat delivers them: newlines and entities are separate chunks."""
    D = core.ENG.decide
    cs = chars(s)
    cur = []
    for c in cs:
        if isinstance(c, int):
            sp = c in (10, 38, 60, 62, 34)
        else:
            sp = D(core.Or(*[c == x for x in (10, 38, 60, 62, 34)]))
        if sp:
            if cur:
                yield mkstr(cur)
                cur = []
            yield mkstr([c])
        else:
            cur.append(c)
    if cur:
        yield mkstr(cur)


def walk(n, h):
    base = xml.sax.handler.ContentHandler
    h.startElement(n.name, xml.sax.xmlreader.AttributesImpl(SDict(n.attrs)))
    wants = type(h).characters is not base.characters
    for c in n.children:
        if c.kind == "el":
            walk(c, h)
        elif c.kind == "text" and wants:
            for t in text_chunks(c.data):
                h.characters(t)
    h.endElement(n.name)


def sax_run(src, handler):
    root = load_tree(src)
    if hasattr(handler, "setDocumentLocator"):
        handler.setDocumentLocator(_Loc())
    handler.startDocument()
    walk(root, handler)
    handler.endDocument()


class SaxReader:
    def __init__(self):
        self.h = xml.sax.handler.ContentHandler()

    def setContentHandler(self, h): self.h = h
    def getContentHandler(self): return self.h
    def setErrorHandler(self, h): pass
    def setFeature(self, *a): pass
    def parse(self, src): sax_run(src, self.h)


class SaxModule:
    SAXParseException, SAXException = xml.sax.SAXParseException, xml.sax.SAXException
    ContentHandler = xml.sax.handler.ContentHandler
    ErrorHandler = xml.sax.handler.ErrorHandler
    handler = xml.sax.handler
    xmlreader = xml.sax.xmlreader

    def parse(self, source, handler, errorHandler=None): sax_run(source, handler)
    def parseString(self, text, handler, errorHandler=None): sax_run(MemFile(text), handler)
    def make_parser(self, *a): return SaxReader()
    def __getattr__(self, n): raise Unsupported("xml.sax.%s" % n)
