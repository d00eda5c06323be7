from openquake.hazardlib.gsim.base import GroundShakingIntensityModel


def _mk(name):
    return type(name, (GroundShakingIntensityModel,), {})

_NAMES = ('AkkarBommer2010 BooreAtkinson2008 CauzziFaccioli2008 '
          'ChiouYoungs2008 Campbell2003SHARE ToroEtAl2002SHARE '
          'ZhaoEtAl2006Asc ZhaoEtAl2006SInter ZhaoEtAl2006SSlab '
          'AtkinsonBoore2003SInter AtkinsonBoore2003SSlab '
          'LinLee2008SInter LinLee2008SSlab YoungsEtAl1997SInter '
          'YoungsEtAl1997SSlab FaccioliEtAl2010 SadighEtAl1997 '
          'AbrahamsonSilva2008').split()
_AVAILABLE = dict((n, _mk(n)) for n in _NAMES)


def get_available_gsims():
    return dict(_AVAILABLE)
