from core import core


def main():
    core("C33", "contain", 9000, 250000,
         "random histories of insertions, removals, copies, moves and swaps on two containers of each kind against a plain sequence, compared "
         "after each step; distinct: operation sequence and resulting contents", require={"states_checked": 20000, "found": 300})
