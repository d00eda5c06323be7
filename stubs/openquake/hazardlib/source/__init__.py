"""Stand-in for openquake.hazardlib.source: the constructors keep their
arguments; count_ruptures follows the magnitude bins (and, for point-like
sources, the nodal planes and depths)."""
from openquake.hazardlib import geo
from openquake.hazardlib.source.rupture import Rupture


class BaseSeismicSource(object):
    def __init__(self, source_id, name, tectonic_region_type):
        self.source_id = source_id
        self.name = name
        self.tectonic_region_type = tectonic_region_type


class ParametricSeismicSource(BaseSeismicSource):
    def __init__(self, source_id, name, tectonic_region_type, mfd,
                 rupture_mesh_spacing, magnitude_scaling_relationship,
                 rupture_aspect_ratio, temporal_occurrence_model=None):
        super(ParametricSeismicSource, self).__init__(
            source_id, name, tectonic_region_type)
        if rupture_mesh_spacing is not None and not rupture_mesh_spacing > 0:
            raise ValueError('rupture mesh spacing must be positive')
        if rupture_aspect_ratio is not None and not rupture_aspect_ratio > 0:
            raise ValueError('rupture aspect ratio must be positive')
        self.mfd = mfd
        self.rupture_mesh_spacing = rupture_mesh_spacing
        self.magnitude_scaling_relationship = magnitude_scaling_relationship
        self.rupture_aspect_ratio = rupture_aspect_ratio
        self.temporal_occurrence_model = temporal_occurrence_model

    def _nbins(self):
        return len([r for m, r in self.mfd.get_annual_occurrence_rates()
                    if r])

    def count_ruptures(self):
        return self._nbins()


class PointSource(ParametricSeismicSource):
    def __init__(self, source_id, name, tectonic_region_type, mfd,
                 rupture_mesh_spacing, magnitude_scaling_relationship,
                 rupture_aspect_ratio, upper_seismogenic_depth,
                 lower_seismogenic_depth, location, nodal_plane_distribution,
                 hypocenter_distribution, temporal_occurrence_model=None):
        super(PointSource, self).__init__(
            source_id, name, tectonic_region_type, mfd, rupture_mesh_spacing,
            magnitude_scaling_relationship, rupture_aspect_ratio,
            temporal_occurrence_model)
        if not lower_seismogenic_depth > upper_seismogenic_depth:
            raise ValueError('lower seismogenic depth must be below '
                             'upper seismogenic depth')
        self.upper_seismogenic_depth = upper_seismogenic_depth
        self.lower_seismogenic_depth = lower_seismogenic_depth
        self.location = location
        self.nodal_plane_distribution = nodal_plane_distribution
        self.hypocenter_distribution = hypocenter_distribution

    def count_ruptures(self):
        return (self._nbins() * len(self.nodal_plane_distribution.data)
                * len(self.hypocenter_distribution.data))


class AreaSource(PointSource):
    def __init__(self, source_id, name, tectonic_region_type, mfd,
                 rupture_mesh_spacing, magnitude_scaling_relationship,
                 rupture_aspect_ratio, upper_seismogenic_depth,
                 lower_seismogenic_depth, nodal_plane_distribution,
                 hypocenter_distribution, polygon, area_discretization,
                 temporal_occurrence_model=None):
        super(AreaSource, self).__init__(
            source_id, name, tectonic_region_type, mfd, rupture_mesh_spacing,
            magnitude_scaling_relationship, rupture_aspect_ratio,
            upper_seismogenic_depth, lower_seismogenic_depth,
            None, nodal_plane_distribution, hypocenter_distribution,
            temporal_occurrence_model)
        self.polygon = polygon
        self.area_discretization = area_discretization

    def count_ruptures(self):
        return (super(AreaSource, self).count_ruptures()
                * len(self.polygon.discretize(self.area_discretization)))


class SimpleFaultSource(ParametricSeismicSource):
    def __init__(self, source_id, name, tectonic_region_type, mfd,
                 rupture_mesh_spacing, magnitude_scaling_relationship,
                 rupture_aspect_ratio, upper_seismogenic_depth,
                 lower_seismogenic_depth, fault_trace, dip, rake,
                 temporal_occurrence_model=None):
        super(SimpleFaultSource, self).__init__(
            source_id, name, tectonic_region_type, mfd, rupture_mesh_spacing,
            magnitude_scaling_relationship, rupture_aspect_ratio,
            temporal_occurrence_model)
        geo.SimpleFaultSurface.check_fault_data(
            fault_trace, upper_seismogenic_depth, lower_seismogenic_depth,
            dip, rupture_mesh_spacing)
        self.fault_trace = fault_trace
        self.upper_seismogenic_depth = upper_seismogenic_depth
        self.lower_seismogenic_depth = lower_seismogenic_depth
        self.dip = dip
        self.rake = rake


class ComplexFaultSource(ParametricSeismicSource):
    def __init__(self, source_id, name, tectonic_region_type, mfd,
                 rupture_mesh_spacing, magnitude_scaling_relationship,
                 rupture_aspect_ratio, edges, rake,
                 temporal_occurrence_model=None):
        super(ComplexFaultSource, self).__init__(
            source_id, name, tectonic_region_type, mfd, rupture_mesh_spacing,
            magnitude_scaling_relationship, rupture_aspect_ratio,
            temporal_occurrence_model)
        geo.ComplexFaultSurface.check_fault_data(edges, rupture_mesh_spacing)
        self.edges = edges
        self.rake = rake


class CharacteristicFaultSource(ParametricSeismicSource):
    def __init__(self, source_id, name, tectonic_region_type, mfd, surface,
                 rake, temporal_occurrence_model=None):
        super(CharacteristicFaultSource, self).__init__(
            source_id, name, tectonic_region_type, mfd, None, None, None,
            temporal_occurrence_model)
        self.surface = surface
        self.rake = rake
