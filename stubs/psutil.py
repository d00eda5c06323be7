"""Stand-in for psutil: the numbers come from module level hooks that a
driver may replace."""


class AccessDenied(Exception):
    pass


class NoSuchProcess(Exception):
    pass


class _Rec(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def mem_percent():
    return 10.0


def rss_of(pid):
    """May raise AccessDenied"""
    return 1000


def phymem_usage():
    return _Rec(percent=mem_percent())


class Process(object):
    def __init__(self, pid):
        self.pid = pid

    def get_memory_info(self):
        return _Rec(rss=rss_of(self.pid))

    def __eq__(self, other):
        return self.pid == other.pid

    def __ne__(self, other):
        return self.pid != other.pid
