"""Sanity of the oracles, on their own (the package under test is not imported)."""
from fractions import Fraction
from itertools import product
import random
import sys
from rv import gen, oracle


def main():
    n = 0
    # format models against each other
    for size in range(2, 8):
        for m in gen.compositions(size):
            assert list(oracle.positions_to_masses(oracle.masses_to_positions(m))) == list(m)
            assert len(oracle.masses_to_string(m)) == size - 1
            assert sum(1 for x in oracle.masses_to_string(m) if x) == len(m) - 1
            assert oracle.masses_to_nltk(m).count('1') == len(m) - 1
            n += 1
    # the two edit-distance oracles agree: the direct one produces what the checker explains
    rng = random.Random(5)
    for _ in range(300):
        a, b = gen.string_pair(rng, rng.randint(1, 8))
        a, b = list(gen.as_sets(a)), list(gen.as_sets(b))
        k = rng.randint(1, 4)
        s = oracle.bed_summary(a, b, k)
        assert 2 * s['T'] + 2 * s['S'] + s['A'] == sum(len(x ^ y) for x, y in zip(a, b)), (a, b, k, s)
        assert oracle.boundary_similarity(a, a, k)[2] == 1
        n += 1
    # Pk and WindowDiff by their laws
    for _ in range(300):
        a, b = gen.mass_pair(rng, rng.randint(2, 25))
        k = rng.randint(1, 6)
        p, w = oracle.pk(a, b, k), oracle.window_diff(a, b, k)
        assert p[0] <= w[0] <= max(w[1], 0) or w[1] <= 0
        assert oracle.pk(a, a, k)[0] == 0 == oracle.window_diff(b, b, k)[0]
        n += 1
    assert oracle.pk([5], [1] * 5, 2) == (3, 3)
    assert oracle.window_size([5, 5, 5]) == 2 and oracle.window_size([7, 7]) == 4
    assert oracle.close(0.5, Fraction(1, 2)) and not oracle.close(0.51, Fraction(1, 2))
    print('selftest ok (%s): %d oracle checks' % (sys.version.split()[0], n))
    return 0


if __name__ == '__main__':
    sys.exit(main())
