"""Shared by check.py and the rules."""
class Broken(Exception): pass

class Finding:
    """rule + instance. key() identifies it independent of line numbers."""
    def __init__(self, rule, where, what, loc="", path=None, extra=None):
        self.rule, self.where, self.what, self.loc, self.path, self.extra = rule, where, what, loc, path or [], extra
    def key(self): return "%s | %s | %s" % (self.rule, self.where, self.what)
