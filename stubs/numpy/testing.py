# numpy.testing.assert_almost_equal for scalars (numpy 1.8 semantics)


def _isnan(x):
    return x != x


def _isinf(x):
    return x in (float('inf'), float('-inf'))


def assert_almost_equal(actual, desired, decimal=7, err_msg='', verbose=True):
    msg = ('\nArrays are not almost equal to %d decimals\n ACTUAL: %r\n '
           'DESIRED: %r' % (decimal, actual, desired))
    if isinstance(actual, complex) or isinstance(desired, complex):
        try:
            assert_almost_equal(actual.real, desired.real, decimal)
            assert_almost_equal(actual.imag, desired.imag, decimal)
        except AssertionError:
            raise AssertionError(msg)
        return
    if isinstance(actual, (tuple, list)) or isinstance(desired,
                                                       (tuple, list)):
        # numpy broadcasts here: shapes () and (n,) are compared elementwise
        acts = actual if isinstance(actual, (tuple, list)) else \
            [actual] * len(desired)
        dess = desired if isinstance(desired, (tuple, list)) else \
            [desired] * len(actual)
        if len(acts) != len(dess):
            raise AssertionError(msg)
        for a, d in zip(acts, dess):
            assert_almost_equal(a, d, decimal)
        return
    if _isnan(actual) or _isnan(desired):
        if not (_isnan(actual) and _isnan(desired)):
            raise AssertionError(msg)
        return
    if _isinf(actual) or _isinf(desired):
        if not actual == desired:
            raise AssertionError(msg)
        return
    if round(abs(desired - actual), decimal) != 0:
        raise AssertionError(msg)
