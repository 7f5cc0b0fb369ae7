"""Subclasses of the package's classes and other mappings than dictionaries (importable, so that they can be pickled)."""
from collections import OrderedDict, UserDict, defaultdict
from types import MappingProxyType
from rv.core import api


class ListOf(list):
    note = 'a list of the user'


class TupleOf(tuple):
    note = 'a tuple of the user'


CONTAINERS = {'list': list, 'tuple': tuple, 'listof': ListOf, 'tupleof': TupleOf}
OTHER = {'list': 'tuple', 'tuple': 'list', 'listof': 'tuple', 'tupleof': 'list'}
MAPPINGS = ['dict', 'ordered', 'default', 'proxy', 'user']


def __getattr__(name):
    # made on first use: nothing of the package is imported before
    bases = {'Corpus': 'Dataset', 'NamedMatrix': 'ConfusionMatrix'}
    if name not in bases:
        raise AttributeError(name)
    cls = type(name, (api()[bases[name]],), {'__module__': __name__, 'note': 'a class of the user'})
    globals()[name] = cls
    return cls


def corpus():
    return globals().get('Corpus') or __getattr__('Corpus')


def matrix():
    return globals().get('NamedMatrix') or __getattr__('NamedMatrix')


def mapping(kind, d):
    if kind == 'ordered':
        return OrderedDict(d)
    if kind == 'default':
        return defaultdict(dict, d)
    if kind == 'proxy':
        return MappingProxyType(dict(d))
    if kind == 'user':
        return UserDict(d)
    return dict(d)


def nested(kinds, d):
    """every level of nested dictionaries as another kind of mapping"""
    return mapping(kinds[0], dict((k, nested(kinds[1:] + kinds[:1], v) if isinstance(v, dict) else v) for k, v in d.items()))
