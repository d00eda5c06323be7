"""Stand-in for shapely.wkt.loads: POINT, LINESTRING and POLYGON."""
import re


class Geom(object):
    is_valid = True
    is_empty = False

    def __init__(self, coords):
        self.coords = coords
        self.geom_type = 'Point' if len(coords) == 1 else 'LineString'

    @property
    def z(self):
        return self.coords[0][2]

    @property
    def xy(self):
        return [c[0] for c in self.coords], [c[1] for c in self.coords]

    @property
    def x(self):
        return self.coords[0][0]

    @property
    def y(self):
        return self.coords[0][1]


class Polygon(object):
    geom_type = 'Polygon'
    is_valid = True
    is_empty = False
    interiors = ()

    def __init__(self, coords):
        self.exterior = Geom(coords)


def loads(text):
    mo = re.match(r'\s*(POINT|LINESTRING|POLYGON)\s*(?:Z\s*)?\((.*)\)\s*$',
                  text, re.S)
    if mo is None:
        raise ValueError('Could not create geometry from %r' % text)
    kind, body = mo.groups()
    body = body.strip()
    if kind == 'POLYGON':
        body = body.split(')')[0].strip().lstrip('(')
    coords = [tuple(float(n) for n in pair.split())
              for pair in body.split(',')]
    if kind == 'POLYGON':
        if coords[0] != coords[-1]:
            coords.append(coords[0])
        return Polygon(coords)
    if kind == 'POINT' and len(coords) != 1:
        raise ValueError('Bad point %r' % text)
    if kind == 'LINESTRING' and len(coords) < 2:
        raise ValueError('Bad line %r' % text)
    return Geom(coords)
