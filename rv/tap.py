"""Interposition: observe calls of public functions wherever the package refers to them."""
import sys
from rv import core


class Tap(object):
    """Within the block, every reference to the named public functions held by a segeval
    module (or in a module-level dict of one) is replaced by a recording wrapper."""

    def __init__(self, names):
        self.names = names
        self.events = []
        self.undo = []

    def wrap(self, name, fn):
        events = self.events

        def recorder(*args, **kwargs):
            result = fn(*args, **kwargs)
            events.append((name, args, kwargs, result))
            return result
        recorder.__name__ = name
        return recorder

    def __enter__(self):
        api = core.api()
        targets = dict((id(api[n]), self.wrap(n, api[n])) for n in self.names)
        keep = [api[n] for n in self.names]
        for modname, mod in list(sys.modules.items()):
            if mod is None or not (modname == 'segeval' or modname.startswith('segeval.')):
                continue
            space = getattr(mod, '__dict__', {})
            for k, v in list(space.items()):
                if id(v) in targets and any(v is x for x in keep):
                    self.undo.append((space, k, v))
                    space[k] = targets[id(v)]
                elif isinstance(v, dict) and k != '__builtins__' and not k.startswith('all_by'):
                    for kk, vv in list(v.items()):
                        if callable(vv) and id(vv) in targets and any(vv is x for x in keep):
                            self.undo.append((v, kk, vv))
                            v[kk] = targets[id(vv)]
        return self

    def __exit__(self, *exc):
        for space, k, v in reversed(self.undo):
            space[k] = v
        self.undo = []
        return False
