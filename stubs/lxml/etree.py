"""Stand-in for lxml.etree on top of the Java SAX parser.  No XML schema is
applied: documents fed to the code are schema-valid by construction."""
import jarray
from java.io import ByteArrayInputStream
from javax.xml.parsers import SAXParserFactory
from org.xml.sax import SAXParseException, SAXException
from org.xml.sax.helpers import DefaultHandler


class XMLSyntaxError(SyntaxError):
    pass


class XMLSchema(object):
    def __init__(self, etree=None, file=None):
        self.file = file


class XMLParser(object):
    def __init__(self, schema=None, **kw):
        self.schema = schema


class _Element(object):
    def __init__(self, tag, attrib=None):
        self.tag = tag
        self.attrib = dict(attrib or {})
        self.text = None
        self.tail = None
        self.sourceline = None
        self._children = []
        self._parent = None

    def append(self, elem):
        elem._parent = self
        self._children.append(elem)

    def remove(self, elem):
        for i, child in enumerate(self._children):
            if child is elem:
                del self._children[i]
                elem._parent = None
                return
        raise ValueError('Element is not a child of this node.')

    def clear(self):
        self.attrib.clear()
        self.text = self.tail = None
        for child in self._children:
            child._parent = None
        self._children = []

    def get(self, name, default=None):
        return self.attrib.get(name, default)

    def set(self, name, value):
        self.attrib[name] = value

    def keys(self):
        return self.attrib.keys()

    def items(self):
        return self.attrib.items()

    def getparent(self):
        return self._parent

    def _sibling(self, delta):
        if self._parent is None:
            return None
        sibs = self._parent._children
        for i, child in enumerate(sibs):
            if child is self:
                j = i + delta
                return sibs[j] if 0 <= j < len(sibs) else None

    def getprevious(self):
        return self._sibling(-1)

    def getnext(self):
        return self._sibling(1)

    def getchildren(self):
        return list(self._children)

    def __iter__(self):
        return iter(list(self._children))

    def __len__(self):
        return len(self._children)

    def __getitem__(self, i):
        return self._children[i]

    def __nonzero__(self):
        return bool(self._children)

    def iter(self, tag=None):
        if tag is None or _match(tag, self.tag):
            yield self
        for child in list(self._children):
            for e in child.iter(tag):
                yield e

    def iterchildren(self, tag=None):
        for child in list(self._children):
            if tag is None or _match(tag, child.tag):
                yield child

    def _select(self, path):
        curr = [self]
        steps = _steps(path)
        for desc, tag in steps:
            found = []
            for e in curr:
                if tag == '.':
                    cands = [e]
                elif desc:
                    cands = [d for d in e.iter() if d is not e
                             and _match(tag, d.tag)]
                else:
                    cands = [c for c in e._children if _match(tag, c.tag)]
                for c in cands:
                    if not any(c is f for f in found):
                        found.append(c)
            curr = found
        return curr

    def findall(self, path, namespaces=None):
        return self._select(_expand(path, namespaces))

    def iterfind(self, path, namespaces=None):
        return iter(self.findall(path, namespaces))

    def find(self, path, namespaces=None):
        found = self.findall(path, namespaces)
        return found[0] if found else None

    def findtext(self, path, default=None, namespaces=None):
        found = self.find(path, namespaces)
        return default if found is None else (found.text or '')

    def xpath(self, path, namespaces=None):
        path = _expand(path, namespaces)
        if path.startswith('/'):
            root = self
            while root._parent is not None:
                root = root._parent
            top = _Element('#document')
            top._children = [root]
            return top._select(path)
        return self._select(path)

    def iterdescendants(self, tag=None):
        for d in self.iter(tag):
            if d is not self:
                yield d

    def iterancestors(self, tag=None):
        e = self._parent
        while e is not None:
            if tag is None or _match(tag, e.tag):
                yield e
            e = e._parent

    def itersiblings(self, tag=None, preceding=False):
        e = self.getprevious() if preceding else self.getnext()
        while e is not None:
            if tag is None or _match(tag, e.tag):
                yield e
            e = e.getprevious() if preceding else e.getnext()

    def index(self, child):
        for i, c in enumerate(self._children):
            if c is child:
                return i
        raise ValueError('Element is not a child of this node.')

    def insert(self, i, elem):
        elem._parent = self
        self._children.insert(i, elem)

    def extend(self, elems):
        for e in elems:
            self.append(e)

    def values(self):
        return self.attrib.values()

    def itertext(self):
        if self.text:
            yield self.text
        for c in self._children:
            for t in c.itertext():
                yield t
            if c.tail:
                yield c.tail

    def getroottree(self):
        root = self
        while root._parent is not None:
            root = root._parent
        return _ElementTree(root)


class QName(object):
    def __init__(self, text, tag=None):
        text = getattr(text, 'tag', text)
        self.text = '{%s}%s' % (text, tag) if tag else text
        self.localname = self.text.split('}')[-1]
        self.namespace = (self.text[1:].split('}')[0]
                          if self.text.startswith('{') else None)

    def __str__(self):
        return self.text


def Element(tag, attrib=None, **extra):
    dic = dict(attrib or {})
    dic.update(extra)
    return _Element(tag, dic)


def SubElement(parent, tag, attrib=None, **extra):
    e = Element(tag, attrib, **extra)
    parent.append(e)
    return e


class _ElementTree(object):
    def __init__(self, root):
        self._root = root

    def getroot(self):
        return self._root

    def xpath(self, path, namespaces=None):
        return self._root.xpath(path if path.startswith('/')
                                else path, namespaces)

    def _rel(self, path):
        return '.' + path if path.startswith('/') else path

    def findall(self, path, namespaces=None):
        return self._root.findall(self._rel(path), namespaces)

    def find(self, path, namespaces=None):
        return self._root.find(self._rel(path), namespaces)

    def iter(self, tag=None):
        return self._root.iter(tag)


def _match(pattern, tag):
    if pattern == '*' or pattern == tag:
        return True
    if pattern.endswith('}*'):
        return tag.startswith(pattern[:-1])
    return False


def _expand(path, namespaces):
    out = path
    for prefix, uri in (namespaces or {}).items():
        out = out.replace(prefix + ':', '{%s}' % uri)
    return out


def _steps(path):
    # split on '/' outside braces
    parts, buf, depth = [], '', 0
    for ch in path:
        if ch == '{':
            depth += 1
        elif ch == '}':
            depth -= 1
        if ch == '/' and depth == 0:
            parts.append(buf)
            buf = ''
        else:
            buf += ch
    parts.append(buf)
    steps, desc = [], False
    for i, part in enumerate(parts):
        if part == '':
            desc = i > 0
            continue
        steps.append((desc, part))
        desc = False
    return steps


def _text(s):
    # like lxml on Python 2: ASCII text is a bytestring
    try:
        return str(s)
    except UnicodeError:
        return s


class _Handler(DefaultHandler):
    def __init__(self):
        self.stack = []
        self.root = None
        self.last = None
        self.events = []
        self.locator = None

    def setDocumentLocator(self, locator):
        self.locator = locator

    def startElement(self, uri, local, qname, attrs):
        tag = '{%s}%s' % (_text(uri), _text(local)) if uri else _text(local)
        dic = {}
        for i in range(attrs.getLength()):
            ns, nm = attrs.getURI(i), attrs.getLocalName(i)
            dic['{%s}%s' % (_text(ns), _text(nm)) if ns else _text(nm)] = \
                _text(attrs.getValue(i))
        elem = _Element(tag, dic)
        elem.sourceline = self.locator.getLineNumber()
        if self.stack:
            self.stack[-1].append(elem)
        else:
            self.root = elem
        self.stack.append(elem)
        self.last = None

    def endElement(self, uri, local, qname):
        elem = self.stack.pop()
        self.last = elem
        self.events.append(('end', elem))

    def characters(self, chars, start, length):
        data = _text(''.join(unichr(ord(c))
                             for c in chars[start:start + length]))
        if self.last is not None:
            self.last.tail = (self.last.tail or '') + data
        elif self.stack:
            self.stack[-1].text = (self.stack[-1].text or '') + data

    def fatalError(self, exc):
        raise exc

    def error(self, exc):
        pass

    def warning(self, exc):
        pass


def _parse_bytes(data):
    if isinstance(data, unicode):
        data = data.encode('utf-8')
    factory = SAXParserFactory.newInstance()
    factory.setNamespaceAware(True)
    handler = _Handler()
    try:
        parser = factory.newSAXParser()
        parser.parse(ByteArrayInputStream(jarray.array(
            [b - 256 if b > 127 else b for b in bytearray(data)], 'b')),
            _adapter(handler))
    except SAXParseException as exc:
        raise XMLSyntaxError('%s, line %d, column %d' % (
            exc.getMessage(), exc.getLineNumber(), exc.getColumnNumber()))
    except SAXException as exc:
        raise XMLSyntaxError(exc.getMessage())
    return handler


class _Adapter(DefaultHandler):
    """SAX callbacks with Java signatures"""
    def __init__(self, h):
        self.h = h

    def setDocumentLocator(self, locator):
        self.h.setDocumentLocator(locator)

    def startElement(self, uri, local, qname, attrs):
        self.h.startElement(uri, local, qname, attrs)

    def endElement(self, uri, local, qname):
        self.h.endElement(uri, local, qname)

    def characters(self, chars, start, length):
        self.h.characters(chars, start, length)

    def fatalError(self, exc):
        raise exc


def _adapter(h):
    return _Adapter(h)


def fromstring(text, parser=None):
    return _parse_bytes(text).root


XML = fromstring


def _read(source):
    if hasattr(source, 'read'):
        return source.read()
    f = open(source, 'rb')
    try:
        return f.read()
    finally:
        f.close()


def parse(source, parser=None):
    return _ElementTree(_parse_bytes(_read(source)).root)


class iterparse(object):
    """Events are produced after the whole document was read: an ill-formed
    document raises at the first next()."""
    def __init__(self, source, events=('end',), tag=None, schema=None, **kw):
        self.source = source
        self.tag = tag
        self.it = None
        self.root = None

    def __iter__(self):
        return self

    def next(self):
        if self.it is None:
            handler = _parse_bytes(_read(self.source))
            self.root = handler.root
            self.it = iter([(ev, e) for ev, e in handler.events
                            if self.tag is None or _match(self.tag, e.tag)])
        return self.it.next()


def tostring(elem, **kw):
    from xml.sax.saxutils import escape, quoteattr
    name = elem.tag.split('}')[-1]
    attrs = ''.join(' %s=%s' % (k, quoteattr(v))
                    for k, v in sorted(elem.attrib.items()))
    inner = escape(elem.text or '') + ''.join(
        tostring(c) + escape(c.tail or '') for c in elem)
    return '<%s%s>%s</%s>' % (name, attrs, inner, name)
