import importlib
import os
import pkgutil


def load_all():
    for m in pkgutil.iter_modules([os.path.dirname(__file__)]):
        importlib.import_module('sa.rules.' + m.name)
