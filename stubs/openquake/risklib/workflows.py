"""Stand-in for openquake.risklib.workflows: containers."""


class Scenario(object):
    def __init__(self, vulnerability_functions, insured_losses=False):
        self.vulnerability_functions = vulnerability_functions
        self.insured_losses = insured_losses


class Damage(object):
    def __init__(self, fragility_functions):
        self.fragility_functions = fragility_functions


class RiskModel(object):
    def __init__(self, taxonomy, workflow):
        self.taxonomy = taxonomy
        self.workflow = workflow
