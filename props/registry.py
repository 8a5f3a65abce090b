"""The property checks, by id."""
import importlib

MODULES = ('reader_props', 'names_props', 'seq_props', 'csv_props', 'equal_props', 'rules_props', 'config_props')
CHECKS = {}


def prop(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def load(pid):
    for m in MODULES:
        importlib.import_module('props.' + m)
    return CHECKS[pid]
