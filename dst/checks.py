import importlib
import os

NAMES = sorted(n[:-3] for n in os.listdir(os.path.dirname(os.path.abspath(__file__))) if n.startswith("c") and n[1:3].isdigit() and n.endswith(".py"))


def load(prop):
    return importlib.import_module("dst." + prop.lower()).CHECK
