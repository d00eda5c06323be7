class PMF(object):
    def __init__(self, data):
        self.data = list(data)
        if not self.data or abs(sum(float(p) for p, _ in self.data)
                                - 1.0) > 1e-9:
            raise ValueError('values do not sum to 1.0')
