from core import core


def main():
    core("C22", "lines", 20000, 400000,
         "random texts (empty lines, no final newline, multi-byte characters) with ranges at every place and beyond, whose lines and columns are counted in the plain text; "
         "and reports printed for parse results with random annotations; distinct: text and range, or report",
         require={"positions": 3000, "hostile_positions": 1000, "annotations": 3000})
