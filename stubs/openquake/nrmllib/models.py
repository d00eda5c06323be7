"""Stand-in for openquake.nrmllib.models: plain containers."""


class _Model(object):
    _fields = ()

    def __init__(self, **kw):
        for f in self._fields:
            setattr(self, f, kw.pop(f, None))
        if kw:
            raise TypeError('Unexpected %s' % sorted(kw))

    def __eq__(self, other):
        return self.__class__ is other.__class__ and \
            self.__dict__ == other.__dict__

    def __ne__(self, other):
        return not self == other


class SourceModel(object):
    def __init__(self, name=None, sources=None):
        self.name = name
        self.sources = sources

    def __iter__(self):
        return iter(self.sources)


class SeismicSource(_Model):
    _fields = 'id name trt'.split()


class PointSource(SeismicSource):
    _fields = SeismicSource._fields + (
        'geometry mag_scale_rel rupt_aspect_ratio mfd nodal_plane_dist '
        'hypo_depth_dist').split()


class PointGeometry(_Model):
    _fields = 'wkt upper_seismo_depth lower_seismo_depth'.split()


class AreaSource(PointSource):
    pass


class AreaGeometry(PointGeometry):
    pass


class SimpleFaultSource(SeismicSource):
    _fields = SeismicSource._fields + (
        'geometry mag_scale_rel rupt_aspect_ratio mfd rake').split()


class SimpleFaultGeometry(PointGeometry):
    _fields = 'wkt dip upper_seismo_depth lower_seismo_depth'.split()


class ComplexFaultSource(SimpleFaultSource):
    pass


class ComplexFaultGeometry(_Model):
    _fields = 'top_edge_wkt bottom_edge_wkt int_edges'.split()

    def __init__(self, **kw):
        super(ComplexFaultGeometry, self).__init__(**kw)
        if self.int_edges is None:
            self.int_edges = []


class CharacteristicSource(SeismicSource):
    _fields = SeismicSource._fields + 'rake mfd surface'.split()


class PlanarSurface(_Model):
    _fields = ('strike dip top_left top_right bottom_left '
               'bottom_right').split()


class Point(_Model):
    _fields = 'longitude latitude depth'.split()


class IncrementalMFD(_Model):
    _fields = 'min_mag bin_width occur_rates'.split()


class TGRMFD(_Model):
    _fields = 'a_val b_val min_mag max_mag'.split()


class NodalPlane(_Model):
    _fields = 'probability strike dip rake'.split()


class HypocentralDepth(_Model):
    _fields = 'probability depth'.split()


class SimpleFaultRuptureModel(_Model):
    _fields = 'magnitude rake hypocenter geometry'.split()


class ComplexFaultRuptureModel(SimpleFaultRuptureModel):
    pass
