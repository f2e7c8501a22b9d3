from core import core


def main():
    core("C31", "equal", 8000, 200000,
         "random trees against a copy with one random tweak, against independent trees of the same kind, and families of trees for transitivity; "
         "expected verdict from a plain model of the tree; distinct: pairs of dumps")
