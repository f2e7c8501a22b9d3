from core import core


def main():
    core("C36", "merge", 16000, 400000,
         "random extend elements merged by the library and by a plain model of the merge, the inputs read again afterwards; "
         "distinct: dumps of the extend element")
