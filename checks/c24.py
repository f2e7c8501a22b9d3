from core import core


def main():
    core("C24", "text", 60000, 900000,
         "expressions and targets made together so that the match and its groups are known, refused expressions, tables of sections and status codes, trimming, splitting, "
         "case folding, escaping and newline helpers on random texts against plain models, heap balanced; distinct: expression and target, or text",
         require={"matches": 3000, "mismatches": 500, "refused": 500, "texts": 5000, "escaped": 1000, "links": 1000, "table_lookups": 1000})
