from core import core


def main():
    core("C39", "lookup", 20000, 600000,
         "random elements of each kind asked for their type, value, sample, default, literalness, description and members by key; the answer must "
         "be the very element a plain model points to; distinct: dumps of elements", require={"members_found": 1000, "substitute": 300})
