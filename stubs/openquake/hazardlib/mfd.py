"""Stand-in for openquake.hazardlib.mfd"""


class BaseMFD(object):
    MODIFICATIONS = set()

    def modify(self, modification, parameters):
        if not modification in self.MODIFICATIONS:
            raise ValueError('Modification %s is not supported by %s' % (
                modification, type(self).__name__))
        getattr(self, 'modify_%s' % modification)(**parameters)
        self.check_constraints()


class TruncatedGRMFD(BaseMFD):
    MODIFICATIONS = set(('increment_max_mag', 'set_max_mag', 'increment_b',
                         'set_ab'))

    def __init__(self, min_mag, max_mag, bin_width, a_val, b_val):
        self.min_mag = min_mag
        self.max_mag = max_mag
        self.bin_width = bin_width
        self.a_val = a_val
        self.b_val = b_val
        self.check_constraints()

    def check_constraints(self):
        if not self.bin_width > 0:
            raise ValueError('bin width must be positive')
        if not self.min_mag >= 0:
            raise ValueError('minimum magnitude must be non-negative')
        if not self.max_mag >= self.min_mag + self.bin_width:
            raise ValueError('maximum magnitude must be higher than minimum '
                             'magnitude by bin width at least')
        if not 0 < self.b_val:
            raise ValueError('b value must be non-negative')

    def _rounded(self):
        lo = round(self.min_mag / self.bin_width) * self.bin_width
        hi = round(self.max_mag / self.bin_width) * self.bin_width
        if lo != hi:
            lo += self.bin_width / 2.0
            hi -= self.bin_width / 2.0
        n = int(round((hi - lo) / self.bin_width)) + 1
        return lo, hi, n

    def get_min_max_mag(self):
        lo, hi, n = self._rounded()
        return lo, lo + (n - 1) * self.bin_width

    def get_annual_occurrence_rates(self):
        lo, hi, n = self._rounded()
        rates = []
        mag = lo
        for i in range(n):
            m_lo, m_hi = mag - self.bin_width / 2., mag + self.bin_width / 2.
            rates.append((mag, 10 ** (self.a_val - self.b_val * m_lo)
                          - 10 ** (self.a_val - self.b_val * m_hi)))
            mag += self.bin_width
        return rates

    def modify_increment_max_mag(self, value):
        self.max_mag += value

    def modify_set_max_mag(self, value):
        self.max_mag = value

    def modify_increment_b(self, value):
        """Shift b keeping the total moment rate: a moves with b"""
        self.b_val += value
        self.a_val += value * (self.max_mag)

    def modify_set_ab(self, a_val, b_val):
        self.b_val = b_val
        self.a_val = a_val


class EvenlyDiscretizedMFD(BaseMFD):
    MODIFICATIONS = set()

    def __init__(self, min_mag, bin_width, occurrence_rates):
        self.min_mag = min_mag
        self.bin_width = bin_width
        self.occurrence_rates = occurrence_rates
        self.check_constraints()

    def check_constraints(self):
        if not self.bin_width > 0:
            raise ValueError('bin width must be positive')
        if not self.occurrence_rates:
            raise ValueError('at least one bin must be specified')
        if not all(value >= 0.0 for value in self.occurrence_rates):
            raise ValueError('all occurrence rates must not be negative')
        if not self.min_mag >= 0:
            raise ValueError('minimum magnitude must be non-negative')

    def get_min_max_mag(self):
        return self.min_mag, self.min_mag + self.bin_width * (
            len(self.occurrence_rates) - 1)

    def get_annual_occurrence_rates(self):
        return [(self.min_mag + i * self.bin_width, rate)
                for i, rate in enumerate(self.occurrence_rates)]
