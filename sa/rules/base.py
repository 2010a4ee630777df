class Finding:
    def __init__(self, where, construct, message, through=()):
        self.where, self.construct, self.message, self.through = where, construct, message, list(through)


class RuleResult:
    def __init__(self, name, text):
        self.name, self.text = name, text
        self.findings, self.undecided, self.samples = [], [], []
        self.instances = 0
        self.counts = {}

    def hit(self, where, construct, message, through=()):
        self.findings.append(Finding(where, construct, message, through))


RULES = {}


def rule(*props, scope='relnet'):
    def deco(fn):
        fn.scope = scope
        for p in props:
            RULES.setdefault(p, []).append(fn)
        return fn
    return deco
