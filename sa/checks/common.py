"""What the checks share: building the model, reporting."""
import os

HERE = os.path.dirname(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))))


class Ctx:

    def __init__(self, pid, root, tier):
        self.pid = pid
        self.root = root
        self.tier = tier
        self.violations = []
        self.coverage = {}
        self.M = None

    def violation(self, key, where, what, **more):
        self.violations.append(dict(key=key.replace(' ', '_'),
                                    where=where, what=what, **more))

    def cover(self, **kw):
        for k, v in kw.items():
            if isinstance(v, int) and not isinstance(v, bool) and \
                    isinstance(self.coverage.get(k), int):
                self.coverage[k] += v
            else:
                self.coverage[k] = v

    def model(self, **kw):
        from ..model import Model
        if self.M is None:
            self.M = Model(self.root, **kw)
        return self.M

    def spec(self, name):
        return os.path.join(HERE, 'spec', name)
