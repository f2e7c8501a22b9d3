from core import core


def main():
    core("C38", "traverse", 16000, 400000,
         "random trees walked whole and by direct children by a recording visitor, filtered by name and by condition, and printed, against the "
         "order, selection and text a plain model expects; distinct: dumps of trees", require={"visited": 10000, "selected": 500})
