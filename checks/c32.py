from core import core


def main():
    core("C32", "info", 5000, 120000,
         "random histories of set/erase/claim/clone/assign/move/swap/clear on two collections against a list of pairs, the contents and every "
         "lookup compared after each step; distinct: operation sequences", require={"states_checked": 20000})
