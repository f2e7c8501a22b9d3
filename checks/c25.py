from core import core


def main():
    core("C25", "media", 100000, 1500000,
         "random media types written and compared with the expected text, read back and compared, texts made from them with every optional space, separator and quoting, "
         "hostile changes of them, and classification as JSON or JSON Schema; distinct: media type or text",
         require={"written": 5000, "round_trips": 5000, "parsed": 5000, "hostile": 5000, "json": 200, "schema": 50})
