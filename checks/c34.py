from core import core


def main():
    core("C34", "registry", 8000, 300000,
         "random histories of adding, finding, removing and clearing named types against a plain map, with every refused operation judged; "
         "questions about the root ancestor of random types; reserved names against a list; distinct: histories and questions")
