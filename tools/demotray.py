"""A reconstruction module of which everything is known."""
from demolib import *
from egenerator.manager.reconstruction import modules
from egenerator.manager.reconstruction.tray import (FunctionCache,
                                                    ReconstructionTray)

SEEN = []


class Scripted(object):

    def __init__(self, manager, loss_module, function_cache, value,
                 broken=False, fails=()):
        if broken:
            raise ValueError('broken')
        self.value, self.fails, self.calls = value, fails, 0

    def execute(self, data_batch, results):
        SEEN.append(list(results))
        self.calls += 1
        if self.calls - 1 in self.fails:
            raise RuntimeError('fails')
        return {'value': self.value}


modules.Scripted = Scripted


def add(tray, name, **settings):
    tray.add_module('Scripted', name=name, **settings)
