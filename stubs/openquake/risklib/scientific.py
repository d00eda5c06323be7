"""Stand-in for openquake.risklib.scientific: the constructors check their
arguments like the originals and keep them."""


class VulnerabilityFunction(object):
    def __init__(self, imt, imls, mean_loss_ratios, covs=None,
                 distribution="LN"):
        self.imt = imt
        self.imls = list(imls)
        self.mean_loss_ratios = list(mean_loss_ratios)
        self.covs = list(covs) if covs is not None else [
            0.0] * len(self.imls)
        self.distribution_name = distribution
        if not self.imls:
            raise ValueError('no IMLs')
        if not (len(self.imls) == len(self.mean_loss_ratios)
                == len(self.covs)):
            raise ValueError('length mismatch')
        if any(a >= b for a, b in zip(self.imls, self.imls[1:])):
            raise ValueError('the IMLs are not strictly increasing')
        if any(i <= 0 for i in self.imls):
            raise ValueError('non positive IML')
        for r, c in zip(self.mean_loss_ratios, self.covs):
            if r == 0.0 and c > 0.0:
                raise ValueError("It is not valid to define a loss ratio = "
                                 "0.0 with a corresponding coeff. of "
                                 "varation > 0.0")
            if r < 0 or c < 0:
                raise ValueError('negative value')


class FragilityFunctionContinuous(object):
    def __init__(self, mean, stddev):
        self.mean = mean
        self.stddev = stddev


class FragilityFunctionDiscrete(object):
    def __init__(self, imls, poes, no_damage_limit=None):
        self.imls = list(imls)
        self.poes = list(poes)
        self.no_damage_limit = no_damage_limit
        if len(self.imls) != len(self.poes):
            raise ValueError('length mismatch')
