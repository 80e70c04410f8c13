"""all contract modules"""
import importlib
MODULES = ["filemap", "copy", "parse", "bdev", "create", "helpers", "contrib", "trans", "cli", "assumptions"]


def load():
    for m in MODULES:
        importlib.import_module("contracts." + m)
