"""The alphabet of symbolic characters (no z3 needed)."""
ALPHABET = [9, 10] + list(range(32, 127)) + [0xA0, 0xAE, 0xC9, 0xE9, 0x17F, 0x2013, 0x2019, 0x2026, 0x2028]
ALL = "".join(map(chr, ALPHABET))
DIGITS = "0123456789"
UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOWER = UPPER.lower()
LETTERS = UPPER + LOWER
WORD = LETTERS + DIGITS + "_"
SPACE = " \t\n\xa0\u2028"
NOSPACE = "".join(c for c in ALL if not c.isspace())
PRINT = "".join(c for c in ALL if c not in "\t\n\u2028")
