from core import core


def main():
    core("C20", "utf8", 13056, 200000,
         "every code point encoded and decoded (exhaustively), every truncation of it, every sequence of two bytes, and random hostile sequences "
         "in buffers that end where the sequence ends, against a reference decoder; distinct: blocks of 256 characters, first bytes, hostile sequences",
         require={"decoded": 1000000, "replaced": 5000})
