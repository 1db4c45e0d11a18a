from itertools import product


class ParameterGrid:
    """All combinations, keys in sorted order, last key varying fastest."""

    def __init__(self, param_grid):
        self.param_grid = param_grid

    def __iter__(self):
        items = sorted(self.param_grid.items())
        if not items:
            yield {}
            return
        keys, values = zip(*items)
        for v in product(*values):
            yield dict(zip(keys, v))

    def __len__(self):
        n = 1
        for v in self.param_grid.values():
            n *= len(v)
        return n
