"""Stand-in for the NRML risk parsers."""
from lxml import etree
from openquake.nrmllib import NAMESPACE

NS = '{%s}' % NAMESPACE


class VulnerabilityModelParser(object):
    """Yield one dictionary per vulnerability function"""
    def __init__(self, source, validate=True):
        self.source = source

    def __iter__(self):
        root = etree.parse(self.source).getroot()
        for vset in root.iter(NS + 'discreteVulnerabilitySet'):
            iml = vset.find(NS + 'IML')
            imls = map(float, iml.text.split())
            for vf in vset.findall(NS + 'discreteVulnerability'):
                yield dict(
                    ID=vf.get('vulnerabilityFunctionID'),
                    IMT=iml.get('IMT'), IML=imls,
                    lossRatio=map(
                        float, vf.find(NS + 'lossRatio').text.split()),
                    coefficientsVariation=map(
                        float, vf.find(
                            NS + 'coefficientsVariation').text.split()),
                    probabilisticDistribution=vf.get(
                        'probabilisticDistribution'))


class FragilityModelParser(object):
    """Yield (format, limit_states) and then
    (taxonomy, iml, params, no_damage_limit) for each set"""
    def __init__(self, source, validate=True):
        self.source = source

    def __iter__(self):
        root = etree.parse(self.source).getroot()
        model = root.find(NS + 'fragilityModel')
        fmt = model.get('format')
        yield fmt, model.find(NS + 'limitStates').text.split()
        for ffs in model.findall(NS + 'ffs'):
            iml = ffs.find(NS + 'IML')
            ndl = ffs.get('noDamageLimit')
            taxonomy = ffs.find(NS + 'taxonomy').text.strip()
            ndl = None if ndl is None else float(ndl)
            if fmt == 'discrete':
                dic = dict(IMT=iml.get('IMT'),
                           imls=map(float, iml.text.split()))
                params = [map(float, ffd.find(NS + 'poEs').text.split())
                          for ffd in ffs.findall(NS + 'ffd')]
            else:
                dic = dict(IMT=iml.get('IMT'), imls=None)
                params = []
                for ffc in ffs.findall(NS + 'ffc'):
                    p = ffc.find(NS + 'params')
                    params.append((float(p.get('mean')),
                                   float(p.get('stddev'))))
            yield taxonomy, dic, params, ndl
