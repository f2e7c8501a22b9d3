from core import core


def main():
    core("C21", "ranges", 20000, 400000,
         "random texts of one- to four-byte characters with ranges of bytes aligned to characters, hostile ranges (past the end, inside characters, huge, empty, "
         "overlapping), maps of ranges through ranges and appended ranges, compared with a plain list of characters; distinct: text and ranges",
         require={"ranges": 5000, "hostile_ranges": 5000, "mapped": 1000, "appended": 1000})
