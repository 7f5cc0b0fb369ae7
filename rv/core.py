"""Shared pieces of the monitors: context, verdicts, event counting, access to the API."""
import hashlib
import json
import os
import random
import signal
import sys
import traceback
from collections import Counter

REPO = os.environ.get('RV_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_SECONDS = 60


class Violation(Exception):
    """The oracle refuted an observed execution."""

    def __init__(self, message, **details):
        Exception.__init__(self, message)
        self.message = message
        self.details = details


class NoAnswer(BaseException):
    """CPU budget of one case used up (BaseException: library code must not swallow it)."""


def _on_alarm(signum, frame):
    raise NoAnswer()


class Ctx(object):
    """What one worker observes: calls, features, distinct non-trivial cases, samples."""

    def __init__(self, prop, tier, seed, worker, workers, interp):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.worker = worker
        self.workers = workers
        self.interp = interp
        self.rng = random.Random('%s/%s/%s' % (prop, seed, worker))
        self.events = Counter()
        self.features = Counter()
        self.sigs = set()
        self.samples = []
        self.evaluations = 0
        self.is_nontrivial = False
        self.extra = {}
        self.factor = 1         # of the quick tier's number of cases
        self.explicit = None    # a generator, in the cases that spell out defaults

    # -- monitored calls -------------------------------------------------
    def call(self, fn, *args, **kwargs):
        """Call into the code under test; an exception there is a violation."""
        name = getattr(fn, '__name__', str(fn))
        self.events[name] += 1
        if self.explicit is not None:
            kwargs = self.spelled_out(name, args, kwargs)
        try:
            return fn(*args, **kwargs)
        except Violation:
            raise
        except NoAnswer:
            raise
        except Exception as exc:
            raise Violation('%s raised %s: %s on valid input' % (name, type(exc).__name__, str(exc)[:200]),
                            call=describe_call(name, args, kwargs),
                            traceback=traceback.format_exc()[-1500:])

    def outcome(self, fn, *args, **kwargs):
        """('ok', value) or ('error', exception); for calls that may be refused."""
        self.events[getattr(fn, '__name__', str(fn))] += 1
        try:
            return 'ok', fn(*args, **kwargs)
        except (Violation, NoAnswer):
            raise
        except Exception as exc:
            return 'error', exc

    def spelled_out(self, name, args, kwargs):
        """the same call with some of the defaults it leaves out given explicitly"""
        rng = self.explicit
        out = dict(kwargs)
        for option, value in defaults_of(name, args, kwargs):
            if option not in kwargs and rng.random() < 0.5:
                out[option] = value
                self.features['explicit_' + option] += 1
        return out

    def feature(self, *names):
        for n in names:
            self.features[n] += 1

    def nontrivial(self):
        self.is_nontrivial = True

    def expect(self, cond, message, **details):
        self.features['assertions'] += 1
        if not cond:
            raise Violation(message, **details)

    def quick(self):
        return self.tier == 'quick'

    def scale(self, quick, thorough):
        return quick * self.factor if self.tier == 'quick' else thorough


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


def describe_call(name, args, kwargs):
    return '%s(%s)' % (name, ', '.join([short(a, 300) for a in args] +
                                       ['%s=%s' % (k, short(v, 200)) for k, v in sorted(kwargs.items())]))


def sig(case):
    return hashlib.md5(json.dumps(case, sort_keys=True, default=str).encode('utf-8')).hexdigest()[:16]


# ------------------------------------------------------------------ API access
API_MODULES = {
    'segeval.agreement': ['actual_agreement_linear'],
    'segeval.agreement.bias': ['artstein_poesio_bias_linear'],
    'segeval.agreement.kappa': ['fleiss_kappa_linear'],
    'segeval.agreement.pi': ['fleiss_pi_linear'],
    'segeval.data': ['Dataset', 'load_nested_folders_dict', 'DataIOError'],
    'segeval.data.jsonutils': ['input_linear_mass_json', 'output_linear_mass_json'],
    'segeval.data.tsv': ['input_linear_mass_tsv', 'input_linear_positions_tsv'],
    'segeval.data.samples': ['KAZANTSEVA2012_G5', 'KAZANTSEVA2012_G2', 'COMPLETE_AGREEMENT',
                             'LARGE_DISAGREEMENT', 'HEARST_1997_STARGAZER', 'HYPOTHESIS_STARGAZER'],
    'segeval.ml': ['Average', 'precision', 'recall', 'fmeasure', 'ConfusionMatrix'],
    'segeval.similarity': ['boundary_confusion_matrix', 'boundary_statistics'],
    'segeval.similarity.boundary': ['boundary_similarity'],
    'segeval.similarity.segmentation': ['segmentation_similarity'],
    'segeval.similarity.distance.multipleboundary': ['boundary_edit_distance'],
    'segeval.similarity.weight': ['weight_a', 'weight_s', 'weight_s_scale', 'weight_t', 'weight_t_scale'],
    'segeval.window': ['compute_window_size'],
    'segeval.window.pk': ['pk'],
    'segeval.window.windowdiff': ['window_diff'],
    'segeval.compute': ['summarize'],
    'segeval.format': ['BoundaryFormat', 'boundary_string_from_masses', 'convert_positions_to_masses',
                       'convert_masses_to_positions', 'convert_nltk_to_masses'],
    'segeval.util': ['SegmentationMetricError'],
}
SAMPLES = API_MODULES['segeval.data.samples']


class Api(dict):
    def __getattr__(self, name):
        try:
            return self[name]
        except KeyError:
            raise AttributeError(name)


_api = None


def api():
    """The public functions, from their home modules (import order fixed here)."""
    global _api
    if _api is None:
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        import importlib
        importlib.import_module('segeval')
        out = Api()
        for mod in ['segeval.format', 'segeval.util', 'segeval.data'] + sorted(API_MODULES):
            m = importlib.import_module(mod)
            for n in API_MODULES[mod]:
                out[n] = getattr(m, n) if hasattr(m, n) else getattr(sys.modules['segeval'], n)
        where = getattr(sys.modules['segeval.format'], '__file__', '')
        if not os.path.realpath(where).startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError('segeval was imported from %s, not from %s' % (where, REPO))
        _api = out
    return _api


SIMILARITIES = ('boundary_similarity', 'segmentation_similarity', 'boundary_statistics', 'boundary_confusion_matrix')
WINDOWS = ('pk', 'window_diff')
AGREEMENTS = ('actual_agreement_linear', 'fleiss_pi_linear', 'fleiss_kappa_linear', 'artstein_poesio_bias_linear')


def defaults_of(name, args, kwargs):
    """the documented defaults of a metric's options, and options that cannot matter to this call"""
    A = api()
    if name not in SIMILARITIES + WINDOWS + AGREEMENTS:
        return
    if name not in ('boundary_statistics', 'boundary_confusion_matrix'):
        yield 'one_minus', False
        yield 'return_parts', False
    one = len(args) == 1 or 'dataset' in kwargs
    if name in WINDOWS:
        if not one or 'permuted' not in kwargs:
            yield 'permuted', True
        if 'window_size' in kwargs:
            # nothing is left to round
            yield 'fnc_round', lambda x: 7
        else:
            yield 'window_size', None
            yield 'fnc_round', round
        if name == 'window_diff':
            yield 'lamprier_et_al_2007_fix', False
        return
    yield 'n_t', 2
    yield 'weight', (A.weight_a, A.weight_s_scale, A.weight_t_scale)
    if name in AGREEMENTS:
        yield 'fnc_compare', A.boundary_similarity
    else:
        yield 'permuted', False
    if name in SIMILARITIES[:2] and not one and kwargs.get('boundary_format', A.BoundaryFormat.mass) != A.BoundaryFormat.sets:
        # the boundaries of masses, positions and NLTK strings are of the one type
        yield 'boundary_types', set([1])


# --------------------------------------------------------------------- worker
def run_cases(module, ctx, cases, on_violation, deadline=None, stop_after=3):
    """Drive one stream of cases through the monitor of a property."""
    import time
    from rv import gen
    signal.signal(signal.SIGVTALRM, _on_alarm)
    found = 0
    index = -1
    truncated = False
    cpu = getattr(module, 'CASE_CPU_SECONDS', CASE_CPU_SECONDS)
    for index, case in enumerate(cases):
        if deadline is not None and time.time() > deadline:
            truncated = True
            break
        ctx.is_nontrivial = False
        try:
            if getattr(module, 'SHARING', False) and int(sig(case), 16) % 4 == 0:
                # a quarter of the cases: equal parts of the arguments are the same objects
                gen.SHARED, gen.SHARED_USES[0] = {}, 0
            if getattr(module, 'EXPLICIT', False) and int(sig(case), 16) // 4 % 4 == 0:
                # and, independently, a quarter: defaults left out of calls are given explicitly
                ctx.explicit = random.Random(sig(case))
            signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
            try:
                module.run(case, ctx)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                ctx.explicit = None
                if gen.SHARED is not None:
                    if gen.SHARED_USES[0]:
                        ctx.feature('shared_objects')
                    gen.SHARED = None
        except Violation as v:
            found += 1
            on_violation(index, case, v)
            if found >= stop_after:
                break
            continue
        except NoAnswer:
            found += 1
            on_violation(index, case, Violation('no answer within %d s of processor time' % cpu))
            if found >= stop_after:
                break
            continue
        ctx.evaluations += 1
        if ctx.is_nontrivial:
            s = sig(case)
            if s not in ctx.sigs:
                ctx.sigs.add(s)
                if len(ctx.samples) < 3 and len(json.dumps(case, default=str)) < 900:
                    ctx.samples.append(case)
    return truncated
