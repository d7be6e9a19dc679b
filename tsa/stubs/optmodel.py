"""Model and population of an optimization as the user and pygmo supply
them.  Interpreted by tsa.interp, never run."""


class Model:
    def solve_model(self, **kwargs):
        _solved(kwargs)

    def get_objective(self, name):
        return _objective(name)

    def get_param(self, obj, label, parameter):
        return _param(obj, label, parameter)


class Population:
    def __init__(self, xs, fs, bx, bf):
        self.x = xs
        self.f = fs
        self.champion_x = bx
        self.champion_f = bf

    def get_x(self):
        return self.x

    def get_f(self):
        return self.f


class Algorithm:
    def __init__(self, pops):
        self.pops = pops
        self.seen = []

    def evolve(self, pop):
        self.seen.append(pop)
        return self.pops[len(self.seen) - 1]


def _solved(kwargs):
    raise NotImplementedError


def _objective(name):
    raise NotImplementedError


def _param(obj, label, parameter):
    raise NotImplementedError
