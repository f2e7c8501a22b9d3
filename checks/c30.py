from core import core


def main():
    core("C30", "clone", 5000, 120000,
         "random trees of all element kinds (depth 4, meta and attributes, custom names) are cloned with every kind of flag, copied, moved, "
         "assigned and then changed on one side; distinct: dumps of trees with more than two nodes",
         require={"node_pairs_disjoint": 1000, "nodes": 5000})
