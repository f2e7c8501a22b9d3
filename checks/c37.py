from core import core


def main():
    core("C37", "size", 12000, 400000,
         "number of values admitted by random types against a saturating 128-bit model, arithmetic of counts over boundary values, and the "
         "type questions it rests on; distinct: dumps of types and pairs of counts")
