"""Numeric constants of the code under test, as a dictionary for the generators
(the same idea as the dictionary of a fuzzer): a behaviour that depends on a
particular size or value names that value somewhere.  It only biases inputs;
no verdict depends on it.
"""
import json
import os
import types

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'constants.json')


def collect(src):
    ints, floats = set(), set()

    def num(c):
        if isinstance(c, bool):
            return
        if isinstance(c, int):
            ints.add(abs(c))
        elif isinstance(c, float):
            floats.add(abs(c))
        elif isinstance(c, tuple):
            for x in c:
                num(x)

    def walk(code):
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                walk(c)
            else:
                num(c)

    for root, _d, files in os.walk(os.path.join(src, 'emva1288')):
        for n in sorted(files):
            if n.endswith('.py'):
                try:
                    with open(os.path.join(root, n), encoding='utf-8') as f:
                        walk(compile(f.read(), n, 'exec'))
                except (OSError, SyntaxError, ValueError):
                    pass
    return ints, floats


class Constants(object):
    def __init__(self, src):
        i, f = collect(src)
        try:
            with open(BASE) as fh:
                b = json.load(fh)
        except (OSError, ValueError):
            b = {'ints': [], 'floats': []}
        self.new_ints = sorted(i - set(b['ints']))
        self.old_ints = sorted(i & set(b['ints']))
        self.new_floats = sorted(f - set(b['floats']))
        self.all_floats = sorted(f)
        self._cache = {}

    def ints(self, lo, hi):
        """Candidates in [lo, hi]; constants that are not in the reference list come first."""
        k = (lo, hi)
        if k not in self._cache:
            def around(src):
                out = set()
                for c in src:
                    for d in (-1, 0, 1, 2):
                        out.add(c + d)
                    out.update((2 * c, c // 2, 2 ** c if c <= 62 else 0))
                return sorted(v for v in out if lo <= v <= hi)
            # round figures that thresholds like to use
            usual = [3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 25, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101,
                     127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025,
                     2000, 2048, 4095, 4096, 5000, 10000, 32767, 32768, 65535]
            fl = [int(round(x)) for x in self.new_floats if x < 1e9]
            news = around(self.new_ints + fl)
            olds = [v for v in around(self.old_ints) + usual if lo <= v <= hi]
            self._cache[k] = (news * max(1, (len(olds) // max(1, len(news))) * 2) + olds) if news else olds
        return self._cache[k]


if __name__ == '__main__':
    i, f = collect('/repo/src')
    with open(BASE, 'w') as fh:
        json.dump({'ints': sorted(i), 'floats': sorted(f)}, fh)
