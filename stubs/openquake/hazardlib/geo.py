"""Stand-in for openquake.hazardlib.geo: containers with basic checks."""


class Point(object):
    def __init__(self, longitude, latitude, depth=0.0):
        if not -180 <= longitude <= 180:
            raise ValueError("longitude %.6f outside range" % longitude)
        if not -90 <= latitude <= 90:
            raise ValueError("latitude %.6f outside range" % latitude)
        self.longitude = longitude
        self.latitude = latitude
        self.depth = depth


class NodalPlane(object):
    def __init__(self, strike, dip, rake):
        if not 0 < dip <= 90:
            raise ValueError("dip %s is out of range (0, 90]" % dip)
        self.strike = strike
        self.dip = dip
        self.rake = rake


class Line(object):
    def __init__(self, points):
        self.points = list(points)
        if len(self.points) < 1:
            raise ValueError('One point needed to create a line!')

    def __iter__(self):
        return iter(self.points)

    def __len__(self):
        return len(self.points)


class Mesh(object):
    def __init__(self, lons, lats, depths=None):
        self.lons = lons
        self.lats = lats
        self.depths = depths

    def __len__(self):
        return len(self.lons)

    def __iter__(self):
        for lon, lat in zip(self.lons, self.lats):
            yield Point(lon, lat)


class Polygon(object):
    def __init__(self, points):
        self.points = list(points)
        if len(self.points) < 3:
            raise ValueError('polygon must have at least 3 unique vertices')
        self.lons = [p.longitude for p in self.points]
        self.lats = [p.latitude for p in self.points]

    def discretize(self, mesh_spacing):
        """A grid over the bounding box, `mesh_spacing` "km" per 0.01 deg"""
        step = mesh_spacing * 0.01
        w, e = min(self.lons), max(self.lons)
        s, n = min(self.lats), max(self.lats)
        lons, lats = [], []
        i = 0
        while s + i * step <= n + 1e-9:
            j = 0
            while w + j * step <= e + 1e-9:
                lons.append(w + j * step)
                lats.append(s + i * step)
                j += 1
            i += 1
        return Mesh(lons, lats)


class PlanarSurface(object):
    def __init__(self, mesh_spacing, strike, dip, top_left, top_right,
                 bottom_right, bottom_left):
        if not mesh_spacing > 0:
            raise ValueError('mesh spacing must be positive')
        self.mesh_spacing = mesh_spacing
        self.strike = strike
        self.dip = dip
        self.top_left = top_left
        self.top_right = top_right
        self.bottom_right = bottom_right
        self.bottom_left = bottom_left


class SimpleFaultSurface(object):
    def __init__(self, data):
        self.data = data

    @classmethod
    def check_fault_data(cls, fault_trace, upper, lower, dip, mesh_spacing):
        if not 0.0 < dip <= 90.0:
            raise ValueError('dip must be between 0.0 and 90.0')
        if not lower > upper:
            raise ValueError('lower seismogenic depth must be greater than '
                             'upper seismogenic depth')
        if not upper >= 0:
            raise ValueError('upper seismo depth must be non-negative')
        if not mesh_spacing > 0:
            raise ValueError('mesh spacing must be positive')

    @classmethod
    def from_fault_data(cls, fault_trace, upper_seismogenic_depth,
                        lower_seismogenic_depth, dip, mesh_spacing):
        cls.check_fault_data(fault_trace, upper_seismogenic_depth,
                             lower_seismogenic_depth, dip, mesh_spacing)
        return cls(dict(
            fault_trace=fault_trace,
            upper_seismogenic_depth=upper_seismogenic_depth,
            lower_seismogenic_depth=lower_seismogenic_depth,
            dip=dip, mesh_spacing=mesh_spacing))


class ComplexFaultSurface(object):
    def __init__(self, data):
        self.data = data

    @classmethod
    def check_fault_data(cls, edges, mesh_spacing):
        if not len(edges) > 1:
            raise ValueError("at least two edges are required")
        if not mesh_spacing > 0:
            raise ValueError("mesh spacing must be positive")

    @classmethod
    def from_fault_data(cls, edges, mesh_spacing):
        cls.check_fault_data(edges, mesh_spacing)
        return cls(dict(edges=edges, mesh_spacing=mesh_spacing))


class MultiSurface(object):
    def __init__(self, surfaces):
        self.surfaces = surfaces
