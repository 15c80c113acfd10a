"""Scenario registration."""


class Scenario(object):
    def __init__(self, name, fn, params, tier, conf):
        self.name = name
        self.fn = fn
        self.params = params
        self.tier = tier
        self.conf = conf


class Registry(dict):
    def add(self, name, fn, /, tier="quick", conf=None, **params):
        if name in self:
            raise ValueError("scenario %s registered twice" % name)
        self[name] = Scenario(name, fn, params, tier, conf or {})
