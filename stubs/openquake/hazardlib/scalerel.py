class WC1994(object):
    pass


class PeerMSR(object):
    pass


class PointMSR(object):
    pass


def get_available_magnitude_scalerel():
    return dict((c.__name__, c) for c in (WC1994, PeerMSR, PointMSR))
