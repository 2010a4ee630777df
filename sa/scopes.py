"""Which source files a rule analyses."""
from .model import Program, RELNET, DEMO


def load(scope):
    if scope == 'relnet':
        return Program((RELNET,))
    if scope == 'demo':
        return Program((DEMO,))
    if scope == 'both':
        return Program((RELNET, DEMO))
    raise KeyError(scope)
