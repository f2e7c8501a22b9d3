from core import core


def main():
    core("C23", "mdnode", 40000, 600000,
         "random histories of building, copying, assigning (also of a node below to a node above) and destroying markdown trees, compared with plain trees, heap balanced; "
         "and trees made by the markdown parser from random documents, checked for parents, order and source maps; distinct: trees or documents",
         require={"trees": 5000, "leak_checked": 1000, "parsed_nodes": 10000, "list_items": 500, "texts_mapped": 500})
