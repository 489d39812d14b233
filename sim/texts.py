"""Seeded texts and edits of texts."""

WORDS = "the quick brown fox jumps over lazy dog near riverbank if else return x y z $a b-c _d 0 12".split()
RANGES = ((0x20, 0x7E), (0x20, 0x7E), (0, 0x1F), (0x7F, 0xFF), (0x100, 0x24F), (0x300, 0x36F), (0x370, 0x5FF), (0x600, 0x1FFF),
          (0x2000, 0x206F), (0x2070, 0x214F), (0x2190, 0x2BFF), (0x3000, 0x30FF), (0x4E00, 0x9FFF), (0xAC00, 0xD7A3),
          (0xE000, 0xF8FF), (0xFE00, 0xFFFF), (0x10000, 0x1F2FF), (0x1F300, 0x1FAFF), (0x20000, 0x10FFFF))
ATOMS = ("a", "b", "x_1", "$x", "a-b", "x--y", "-", "7", "9.5e-3", "1,000", "++", "->", "f(x)", "été", "naïve-té", "don't", "a.b.c", "<<", "=", "==", "x=1", "\u00a7", "__init__", "\\n", "#", "@")
JOINTS = (" ", " ", "\n", "", "", "-", ".", "\t", "  ", "\r\n", "(", "=")
STYLES = ("ab", "words", "lines", "unicode", "binary", "code", "tokens")


def piece(rng, style, n):
    """About n characters."""
    if n <= 0:
        return ""
    if style == "ab":
        return "".join(rng.choices("ab", k=n))
    if style == "words":
        out = []
        size = 0
        while size < n:
            w = rng.choice(WORDS)
            out.append(w)
            size += len(w) + 1
        return " ".join(out)[:n]
    if style == "lines":
        out = []
        size = 0
        while size < n:
            w = rng.choice(("", "a", "b", "alpha beta", "gamma", "if (x) {", "}", "a b c"))
            out.append(w)
            size += len(w) + 1
        if rng.random() < 0.15:  # other line ends, mixed
            return "".join(w + rng.choice(("\n", "\r\n", "\r", "\r\n", "\x0b", "\x0c")) for w in out)[:n]
        return "\n".join(out)[:n]
    if style == "unicode":
        if n < 400 and rng.random() < 0.06:
            return "\ufeff" + piece(rng, style, n - 1)  # a byte order mark
        if rng.random() < 0.5:
            return "".join(rng.choices("aé漢\n \U0001f600ß\u2028z\x85", k=n))
        pool = "a \n"
        for _ in range(rng.choice((2, 5, 12))):
            first, last = rng.choice(RANGES)
            pool += chr(rng.randrange(first, last + 1))
        return "".join(rng.choices(pool, k=n))
    if style == "tokens":
        return "".join(rng.choice(ATOMS) + rng.choice(JOINTS) for _ in range(n // 3 + 1))[:n]
    if style == "binary":
        return "".join(chr(rng.choice((0, 1, 10, 13, 65, 127, 128, 240, 241, 249, 250, 255, rng.randrange(256)))) for _ in range(n))
    return "".join(rng.choices("{}();= \nabcxyz", k=n))


def size(rng, cap=3000):
    r = rng.random()
    if r < 0.06:
        n = 0
    elif r < 0.36:
        n = rng.randrange(1, 9)
    elif r < 0.74:
        n = rng.randrange(9, 70)
    elif r < 0.94:
        n = rng.randrange(70, 420)
    else:
        n = rng.randrange(420, 2900)
    return min(n, cap)


def fresh(rng, style, cap=3000):
    return piece(rng, style, size(rng, cap))


def evolve(rng, s, style, cap=3000):
    """A new version of s by a few edits, sometimes none, sometimes all new."""
    r = rng.random()
    if r < 0.04:
        return s
    if r < 0.09:
        return fresh(rng, style, cap)
    if r < 0.11:
        return ""
    for _ in range(rng.choice((1, 1, 1, 2, 2, 3, 5))):
        k = rng.randrange(8)
        n = len(s)
        a = rng.randrange(n + 1)
        b = min(n, a + rng.choice((1, 1, 2, 5, 20, max(1, n // 3))))
        if k == 0:
            s = s[:a] + piece(rng, style, rng.choice((1, 1, 2, 7, 30, 250))) + s[a:]
        elif k == 1:
            s = s[:a] + s[b:]
        elif k == 2:
            s = s[:a] + piece(rng, style, max(1, b - a)) + s[b:]
        elif k == 3:
            s = s + piece(rng, style, rng.choice((1, 3, 12)))
        elif k == 4:
            s = piece(rng, style, rng.choice((1, 3, 12))) + s
        elif k == 5:
            s = s[:b] + s[a:b] + s[b:]
        elif k == 6:
            s = s[b:] + s[:a]
        else:
            s = s[:a] + "\n" + s[a:]
        if len(s) > cap:
            s = s[: cap // 2] + s[-cap // 4 :]
    return s


BOUNDS = (240, 241, 242, 247, 495, 496, 497, 2031, 2032, 2033, 2286, 2287, 2288, 2289, 2543, 2544)


def boundary_line(rng):
    """Versions whose deltas have positions or lengths of exactly such sizes."""

    def some(alphabet, n):
        if n > 5000:
            block = "".join(rng.choices(alphabet, k=rng.choice((7, 300))))
            return (block * (n // len(block) + 1))[:n]
        return "".join(rng.choices(alphabet, k=n))

    contents = []
    huge = rng.random() < 0.1
    for _ in range(1 if huge else rng.choice((1, 2, 4))):
        n = rng.choice((65535, 65536, 67822, 67823, 67824, 67825)) if huge else rng.choice(BOUNDS)
        old, new, both = some("abcdefgh", n), some("ABCDEFGH", rng.randrange(1, 9)), some("4567", rng.randrange(1, 300))
        shape = rng.randrange(4)
        if shape == 0:  # a common part that ends at n
            common = some("0123", n)
            contents += [common + old[: rng.randrange(9)] + both, common + new + both[::-1]]
        elif shape == 1:  # a common part that starts at n
            contents += [new + both, some("ABCDEFGH", n) + both]
        elif shape == 2:  # text of length n that the newer version lacks
            contents += [both[:50] + old + both[50:], both]
        else:  # a common part in the middle, of length n
            common = some("0123", n)
            contents += [old[:9] + common + old[9:20], new * rng.randrange(1, 40) + common + new]
    return contents


TAG_STYLES = ("plain", "odd", "numeric", "path", "alike")
ALIKE = ("", "a", "A", " a", "a ", "aA", "Aa", "AA", "aa", "é", "É", "e\u0301", "0", "00", "1", "1.0", "01", "+1", " 1", "1e0", "0x1", "NULL", "null",
         "'", "''", '"', "%", "_", "a%", "a_", "a*", "?", "a\x00", "a\x00b", "a\n", "a\r\n", "a\t", "ß", "ss", "SS", "ﬁ", "fi", "x" * 40, "x" * 41, "X" * 40,
         "-1", "None", "tag", "rowid", "\ufeffa", "a\u200b", "\U0001f600", "[a]", "a/../a", "a/./a", "a//a", "a/a")


def tags(rng, n):
    """n distinct tags of one style."""
    style = rng.choice(TAG_STYLES)
    out = []
    if style == "alike":
        out = rng.sample(ALIKE, min(n, len(ALIKE)))
        while len(out) < n:
            out.append(out[len(out) % len(ALIKE)] + "~" * (len(out) // len(ALIKE)))
        return out
    for i in range(n):
        if style == "plain":
            t = f"v{i}"
        elif style == "numeric":
            t = rng.choice(("", "0", "00", "-", "1e")) + str(i)
        elif style == "path":
            t = f"src/dir {i % 3}/file-{i}.txt"
        else:
            t = rng.choice(("'", '"', "%", ";", "é", "A", "a", " ", "漢")) + str(i) + rng.choice(("", " ", "'", "--"))
        if t in out:
            t = f"{t}#{i}"
        out.append(t)
    # insertion order must not follow alphabetical order
    if rng.random() < 0.7:
        rng.shuffle(out)
    return out


HASHABLES = (0, 1, -1, 1.5, -2, 2**61 - 1, 2 * (2**61 - 1), 10**30, "", "0", "1", "-1", "1.5", "None", "()", "a", "A", ["bytes", ""], ["bytes", "1"], ["bytes", "a"],
             ["tuple", []], ["tuple", [1]], ["tuple", ["1"]], ["tuple", ["a", 1]], ["tuple", [1, "a"]], ["tuple", [["tuple", []]]], ["tuple", [None]],
             ["set", []], ["set", [1]], ["set", ["1"]], ["set", [1, 2]], ["set", [["tuple", [1]]]], 0.25, -0.5, 1e300, "\x00")


def hashables(rng, n):
    """n distinct tags of many types, as sim.props_store.unpack reads them."""
    if rng.random() < 0.4:
        out = list(range(n))
    else:
        out = rng.sample(HASHABLES, min(n, len(HASHABLES)))
        while len(out) < n:
            out.append(["tuple", [len(out), rng.choice((None, "", "x"))]])
    rng.shuffle(out)
    return out
