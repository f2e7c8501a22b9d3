from core import core


def main():
    core("C35", "expand", 16000, 400000,
         "random elements over random registries of named types (chains, mixins, references, cycles through members) expanded by the library "
         "and by a plain model; distinct: pairs of registry and element")
