"""Stand-in for the NRML source model parser.  The sources of a "file" are
registered by name in `MODELS` (name -> list of nrml model objects)."""
MODELS = {}


class SourceModelParser(object):
    def __init__(self, source):
        self.source = source

    def parse(self, validate=True):
        for src in MODELS[self.source]:
            yield src
