"""Stand-in for openquake.nrmllib.node (Node, reading, writing)."""
from xml.sax.saxutils import escape, quoteattr
from lxml import etree
from openquake.nrmllib import NAMESPACE, GML_NAMESPACE


def striptag(tag):
    if tag.startswith('{'):
        return tag.rsplit('}', 1)[1]
    return tag


class Node(object):
    __slots__ = ('tag', 'attrib', 'text', 'nodes', 'lineno')

    def __init__(self, fulltag, attrib=None, text=None, nodes=None,
                 lineno=None):
        self.tag = striptag(fulltag)
        self.attrib = {} if attrib is None else attrib
        self.text = text
        self.nodes = [] if nodes is None else nodes
        self.lineno = lineno
        if self.nodes and self.text is not None:
            raise ValueError(
                'A branch node cannot have a value, got %r' % self.text)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        for node in self.nodes:
            if node.tag == name:
                return node
        raise NameError('No subnode named %r found in %r' % (name, self.tag))

    def getnodes(self, name):
        return [node for node in self.nodes if node.tag == name]

    def append(self, node):
        if not isinstance(node, self.__class__):
            raise TypeError('Expected %s instance, got %r' % (
                self.__class__.__name__, node))
        self.nodes.append(node)

    def __iter__(self):
        return iter(self.nodes)

    def to_str(self):
        return self.tag + '\n' + ''.join(
            '  ' + line + '\n' for n in self.nodes
            for line in n.to_str().splitlines())

    def __repr__(self):
        return '<%s %s %s %s>' % (self.tag, self.attrib, self.text,
                                  '...' if self.nodes else '')

    def __getitem__(self, i):
        if isinstance(i, basestring):
            return self.attrib[i]
        return self.nodes[i]

    def __setitem__(self, i, value):
        if isinstance(i, basestring):
            self.attrib[i] = value
        else:
            self.nodes[i] = value

    def __len__(self):
        return len(self.nodes)

    def __nonzero__(self):
        return True

    def __eq__(self, other):
        return isinstance(other, Node) and all(
            getattr(self, slot) == getattr(other, slot)
            for slot in self.__slots__)

    def __ne__(self, other):
        return not self == other

    def __getstate__(self):
        return [getattr(self, s) for s in self.__slots__]

    def __setstate__(self, state):
        for s, v in zip(self.__slots__, state):
            setattr(self, s, v)


def node_from_elem(elem, nodefactory=Node):
    children = [node_from_elem(c, nodefactory) for c in elem]
    if not children:
        return nodefactory(elem.tag, dict(elem.attrib), elem.text,
                           lineno=elem.sourceline)
    return nodefactory(elem.tag, dict(elem.attrib), nodes=children,
                       lineno=elem.sourceline)


def node_from_xml(xmlfile, nodefactory=Node):
    return node_from_elem(etree.parse(xmlfile).getroot(), nodefactory)


def node_from_nrml(xmlfile, nodefactory=Node):
    root = etree.parse(xmlfile).getroot()
    assert root.tag == '{%s}nrml' % NAMESPACE, root.tag
    return node_from_elem(root, nodefactory)


def _write(node, out, indent):
    pad = '    ' * indent
    attrs = sorted((str(k), quoteattr(str(v)))
                   for k, v in node.attrib.items())
    text = node.text if node.text is None else str(node.text)
    if not node.nodes and not text:
        out.write('%s<%s%s/>\n' % (pad, node.tag, ''.join(
            ' %s=%s' % kv for kv in attrs)))
        return
    if attrs:
        out.write('%s<%s\n' % (pad, node.tag))
        for kv in attrs:
            out.write('%s%s=%s\n' % ((pad,) + kv))
        out.write('%s>\n' % pad)
    else:
        out.write('%s<%s>\n' % (pad, node.tag))
    if text:
        out.write('%s    %s\n' % (pad, escape(text.strip())))
    for subnode in node.nodes:
        _write(subnode, out, indent + 1)
    out.write('%s</%s>\n' % (pad, node.tag))


def node_to_xml(node, output, nsmap=None):
    _write(node, output, 0)


def node_to_nrml(node, output, nsmap=None):
    if isinstance(node, Node):
        node = [node]
    output.write('<?xml version="1.0" encoding="utf-8"?>\n')
    output.write('<nrml\nxmlns="%s"\nxmlns:gml="%s"\n>\n' % (
        NAMESPACE, GML_NAMESPACE))
    for n in node:
        _write(n, output, 1)
    output.write('</nrml>\n')
