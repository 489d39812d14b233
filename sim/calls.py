"""Calls of the library's functions as plain data, and what they answer.

A call is {"f": function, "t": type of its texts, "a": texts, ...}.  start()
makes the call the way a user would and returns an iterator over its answer,
item by item; whatever the function computes lazily is computed lazily.
"""

from __future__ import annotations

import copy
import os
import pickle
import signal
import struct

from sim import texts
from sim.core import HarnessError, Violation

TYPES = ("str", "utf8", "latin", "ints", "words", "mix", "list", "lines")
TOKENIZERS = ("null", "char", "line", "symbol")
SOLO_TIMEOUT = 40


def fresh(s, t):
    """The text as a new object of the wanted type."""
    if t == "str":
        return s.encode("utf-8", "surrogatepass").decode("utf-8", "surrogatepass")
    if t == "utf8":
        return s.encode("utf-8", "replace")
    if t == "latin":
        return s.encode("latin-1", "replace")
    if t == "ints":
        return tuple(ord(c) for c in s)
    if t == "list":
        return [ord(c) + 1000 for c in s]
    if t == "words":
        return tuple(s.split(" ")) if s else ()
    if t == "lines":
        return tuple(s.splitlines(True))
    if t == "mix":  # tokens that are equal but not the same
        return tuple(MIX[ord(c) % len(MIX)] for c in s)
    if t == "twin":  # equal to mix
        return tuple(TWIN[ord(c) % len(TWIN)] for c in s)
    if t == "floats":  # equal to ints
        return tuple(float(ord(c)) for c in s)
    if t == "bad":
        return tuple([c] for c in s)
    raise ValueError(t)


MIX = (1, 1.0, True, 0, False, "1", b"1", 2, 2.0, None)
TWIN = (True, 1, 1.0, False, 0.0, "1", b"1", 2.0, 2, None)
TWINS = {"mix": "twin", "twin": "mix", "ints": "floats", "floats": "ints"}


def twin(rng, call):
    """A call like another, of equal tokens, sometimes of other types."""
    call = copy.deepcopy(call)
    if rng.random() < 0.7:
        call["t"] = TWINS.get(call["t"], call["t"])
    return call


def tokenizer(name):
    import gaspra.tokenizers as t

    return {None: lambda: None, "null": t.NullTokenizer, "char": t.CharTokenizer,
            "line": t.LineTokenizer, "symbol": t.SymbolTokenizer}[name]()


def norm(x):
    """An answer as data that compares exactly, types included."""
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return [type(x).__name__, *(norm(v) for v in x)]
    if isinstance(x, slice):
        return ["slice", repr(x.start), repr(x.stop), repr(x.step)]
    if isinstance(x, (str, bytes, int, float, bool)) or x is None:
        return type(x).__name__ + ":" + repr(x)
    if isinstance(x, (tuple, list)):
        return [type(x).__name__, *(norm(v) for v in x)]
    if isinstance(x, (set, frozenset)):  # no order of their own
        return [type(x).__name__, *sorted((norm(v) for v in x), key=repr)]
    if isinstance(x, dict):
        return [type(x).__name__, *([norm(k), norm(v)] for k, v in x.items())]
    if hasattr(x, "__dataclass_fields__"):
        return [type(x).__name__, *(norm(getattr(x, f)) for f in x.__dataclass_fields__)]
    return "object:" + type(x).__name__


def same(x):
    return x


SLOTS = {}  # lists that are used again, with other contents, by later calls
BUSY = set()


def refilled(slot, a):
    """The texts in lists that earlier calls were given, too."""
    lists = SLOTS.setdefault(slot, [])
    for i, new in enumerate(a):
        if i == len(lists):
            lists.append([])
        lists[i][:] = new
    return lists[: len(a)]


def spoil(x):
    """What a caller may do with an answer that is its own."""
    if isinstance(x, (tuple, list)):
        for v in x:
            spoil(v)
    if type(x) is list:
        x.reverse()
        x.append("spoiled")
    elif type(x) is dict:
        x.clear()


def start(call, tok=None, pipe=same):
    """Make the call; an iterator over what it answers."""
    slot = call.get("slot")
    if slot is None or slot in BUSY:
        a = [fresh(s, call["t"]) for s in call["a"]]
        return untouched(call, a, begin(call, a, tok, pipe)) if call["t"] == "list" else begin(call, a, tok, pipe)
    # consumed at once, as the lists will change
    BUSY.add(slot)
    try:
        a = refilled(slot, [fresh(s, call["t"]) for s in call["a"]])
        items = list(untouched(call, a, begin(call, a, tok, pipe)))
    finally:
        BUSY.discard(slot)
    return iter(items)


def untouched(call, a, items):
    """The items; the lists the call was given are not changed meanwhile."""
    yield from items
    for i, (x, s) in enumerate(zip(a, call["a"])):
        if x != fresh(s, "list"):
            raise Violation("argument", f"{call['f']} changed the list it was given as argument {i + 1}")


def given(x):
    """An iterator over an answer, which the caller spoils if it is a list."""
    if type(x) is not list:
        return iter(x)

    def items():
        yield from tuple(x)
        x.reverse()
        x.append("spoiled")

    return items()


def begin(call, a, tok, pipe):
    """Make the call with these texts.

    tok is the tokenizer to use (else a new one of the call's kind); pipe is
    put around every lazy result that is handed to another function.
    """
    import gaspra
    from gaspra import changesets, diff_to_lines, merge, multiple_strings, serialize, suffix_automaton, tokenizers, wrappers

    f = call["f"]
    if tok is None and f in WITH_TOKENIZER:
        tok = tokenizer(call.get("tok"))
    if f == "diff":
        return given(tokenizers.diff(a[0], a[1], tok) if tok is not None else tokenizers.diff(a[0], a[1]))
    if f == "merged":
        return given(tokenizers.merged(a[0], a[1], a[2], tok) if tok is not None else tokenizers.merged(a[0], a[1], a[2]))
    if f == "merged_lines":
        return given(tokenizers.merged(a[0], a[1], a[2], tok, diff_to_lines.to_line_diff))
    if f == "dts":
        return given(gaspra.diff_token_sequences(a[0], a[1]))
    if f == "mts":
        return given(gaspra.merge_token_sequence(a[0], a[1], a[2]))
    if f == "line_diff":
        return given(diff_to_lines.to_line_diff(pipe(tokenizers.diff(a[0], a[1], tok))))
    if f == "con_diff":
        return given(diff_to_lines.consolidated_line_diff(pipe(tokenizers.diff(a[0], a[1], tok))))
    if f == "con_merge":
        return given(diff_to_lines.consolidated_line_diff(pipe(tokenizers.merged(a[0], a[1], a[2], tok))))
    if f == "decode_lines":
        tok = tok or tokenizer("null")
        return given(tokenizers.decode_and_line_diff_changes(
            pipe(changesets.diff_token_sequences(tok.encode(a[0]), tok.encode(a[1]))), tok))
    if f == "decode_changes":
        tok = tok or tokenizer("null")
        return given(tokenizers.decode_changes(
            pipe(merge.merge_token_sequence(tok.encode(a[0]), tok.encode(a[1]), tok.encode(a[2]))), tok))
    if f == "changes":
        return given(changesets.find_changeset(a[0], a[1]).as_change_stream())
    if f == "diff_stream":
        return given(changesets.find_changeset(a[0], a[1]).as_diff_stream(a[0]))
    if f == "streams":
        return streams(lambda: changesets.find_changeset(a[0], a[1]), a[0])
    if f == "strip_forward":
        return given(changesets.strip_forward(pipe(changesets.find_changeset(a[0], a[1]).as_change_stream())))
    if f == "strip_reverse":
        return given(changesets.strip_reverse(pipe(changesets.find_changeset(a[0], a[1]).as_change_stream())))
    if f == "deserialize":
        changes = changesets.strip_forward(pipe(changesets.find_changeset(a[0], a[1]).as_change_stream()))
        return given(serialize.deserialize_changeset(serialize.serialize_changeset(changes)))
    if f == "serialize":
        changes = changesets.strip_forward(pipe(changesets.find_changeset(a[0], a[1]).as_change_stream()))
        return given([serialize.serialize_changeset(changes)])
    if f == "apply_forward":
        return given([changesets.apply_forward(pipe(changesets.find_changeset(a[0], a[1]).as_change_stream()), a[0])])
    if f == "apply_reverse":
        return given([changesets.apply_reverse(pipe(changesets.find_changeset(a[0], a[1]).as_change_stream()), a[1])])
    if f == "old_apply":
        changeset = changesets.find_changeset(a[0], a[1])
        return given([changesets.old_apply_forward(changeset, a[0]), changesets.old_apply_reverse(changeset, a[1])])
    if f == "marked":
        return given(marked(call, pipe(tokenizers.diff(a[0], a[1], tok) if len(a) == 2 else tokenizers.merged(a[0], a[1], a[2], tok))))
    if f == "documents":
        from gaspra import manifest

        names = {s: s[::-1] for s in a}
        doc = manifest.manifest_to_doc(names)
        return given([doc, manifest.doc_to_manifest(doc), manifest.doc_to_manifest(doc)])
    if f == "kept":
        return given([kept(list(changesets.find_changeset(a[0], a[1]).as_change_stream()),
                           lambda c: changesets.apply_forward(c, a[0]), lambda c: changesets.apply_reverse(c, a[1]),
                           lambda c: tuple(changesets.strip_forward(c)), lambda c: tuple(changesets.strip_reverse(c)))])
    if f == "kept_patch":
        return given([kept(list(changesets.strip_forward(changesets.find_changeset(a[0], a[1]).as_change_stream())),
                           lambda c: changesets.apply(c, a[0]), serialize.serialize_changeset)])
    if f == "kept_lines":
        return given([kept(list(tokenizers.diff(a[0], a[1], tok) if len(a) == 2 else tokenizers.merged(a[0], a[1], a[2], tok)),
                           lambda c: tuple(diff_to_lines.to_line_diff(c)), lambda c: tuple(diff_to_lines.consolidated_line_diff(c)))])
    if f == "find":
        return given(wrappers.find_substring(a[0], a[1]))
    if f == "find_first":
        return given([suffix_automaton.find_substring(suffix_automaton.build(a[0]), a[1])])
    if f == "lcs":
        return given([wrappers.find_lcs(a[0], a[1])])
    if f == "lcs_many":
        return given([multiple_strings.find_lcs(*a)])
    if f == "suffixes":
        return given(suffix_automaton.all_suffixes(suffix_automaton.build(a[0])))
    if f == "one_automaton":  # one automaton used for several searches
        return given(searches(suffix_automaton, call, a))
    if f == "tokens":
        tok = tokenizer(call["tok"])
        return given([tok.encode(s) for s in a])
    if f == "decoded":
        tok = tok or tokenizer("null")
        codes = [tok.encode(s) for s in a]
        return given([tok.decode(c) for c in codes])
    if f == "encode_lines":
        return given(tokenizers.line_encode_strings(*a))
    if f == "store":
        return given(store(call, a))
    raise ValueError(f)


def searches(suffix_automaton, call, a):
    """What several searches find in one automaton, as each does in a new one."""
    def search(root, f, i):
        try:
            if f == "lcs":
                return suffix_automaton.find_lcs(root, a[i])
            if f == "all":
                found = suffix_automaton.find_substring_all(root, a[i])
                return found, tuple(found)
            if f == "first":
                return suffix_automaton.find_substring(root, a[i])
            return sorted(map(repr, suffix_automaton.all_suffixes(root)))
        except (Violation, HarnessError):
            raise
        except Exception as e:
            return ["raised", type(e).__name__]

    root = suffix_automaton.build(a[0])
    out = []
    for k, (f, i) in enumerate(call["ops"]):
        i = min(i, len(a) - 1)
        got = search(root, f, i)
        if f == "all" and got[0] != "raised":
            out.append(got[1])
            spoil(got[0])
            got = got[1]
        else:
            out.append(got)
        want = search(suffix_automaton.build(a[0]), f, i)
        if f == "all" and want[0] != "raised":
            want = want[1]
        if norm(got) != norm(want):
            raise Violation("differs", f"search {k} in one automaton of {a[0]!r:.100}, {f} {a[i]!r:.60}, answers {got!r:.100}"
                                       f" instead of {want!r:.100} (after {call['ops'][:k]})")
    return out


def kept(items, *uses):
    """What each use makes of the items, which stay as they are."""
    before = norm(items)
    out = []
    for use in uses * 2:
        try:
            out.append(use(items))
        except Exception as e:
            out.append(type(e).__name__)
        if norm(items) != before:
            raise Violation("argument", f"a list given to a function changed from {before!r:.150} to {norm(items)!r:.150}")
    for i, (x, y) in enumerate(zip(out, out[len(uses) :])):
        if norm(x) != norm(y):
            raise Violation("differs", f"use {i} of the same list answers {x!r:.150}, then {y!r:.150}")
    return [items, *out]


def marked(call, changes):
    """The pieces that a marked-up display consists of."""
    from gaspra import diff_to_lines, markup

    level0, level1, escape = {
        "git": (markup.GIT_MARKUP_LEVEL0, markup.PLAIN_LEVEL1, same),
        "plain": (markup.COLORED_LEVEL0, markup.PLAIN_LEVEL1, same),
        "colored": (markup.COLORED_LEVEL0, markup.COLORED_LEVEL1, markup.rich_escape),
        "own": ({"into": {"prefix": lambda s: f"<{s}|", "suffix": lambda s: f"|{s}>"},
                 "from": {"prefix": lambda s: f"({s}|", "suffix": lambda s: f"|{s})"}, "separator": "~"}, None, same),
    }[call["style"]]
    if call.get("flat"):
        level1 = {}
    before = tables(level0), tables(level1)
    if call["lines"]:
        changes = diff_to_lines.consolidated_line_diff(changes)
    pieces = []
    markup.markup_changes(pieces.append, changes, markup0=level0, markup1=level1, name_into="into", name_from="from",
                          header=call["style"] if call["lines"] else None, escape=escape)
    if (tables(level0), tables(level1)) != before:
        raise Violation("argument", f"a markup table given to markup_changes changed to {sorted(level0)}, {sorted(level1 or ())}")
    return pieces


def tables(x):
    """A markup table and the tables in it, to compare."""
    return {k: tables(v) for k, v in x.items()} if isinstance(x, dict) else x


def streams(find, original):
    """One changeset that several lazy results are taken from."""
    changeset = find()
    want = [list(find().as_change_stream()), list(find().as_diff_stream(original))]
    one, two = changeset.as_change_stream(), changeset.as_diff_stream(original)
    found = [[x for _, x in zip(range(2), one)]]
    yield from found[0]
    three = changeset.as_diff_stream(original)
    found.append([x for _, x in zip(range(1), three)])
    for stream in (two, changeset.as_change_stream(), one, three):
        mine = found[0] if stream is one else found[1] if stream is three else []
        for x in stream:
            mine.append(x)
            yield x
        if norm(mine) != norm(want[0]) and norm(mine) != norm(want[1]):
            raise Violation("differs", f"a stream of a changeset of which others were taken gives {mine!r:.200}")


def store(call, a):
    """A version store of the call's own, in memory."""
    from gaspra.versions import Versions

    from sim.store import tokenizer_class

    v = Versions(tokenizer_factory=tokenizer_class(call["tok"]))
    for i, data in enumerate(a):
        base = call["bases"][i] if i < len(call["bases"]) else None
        if base is not None and base >= i:
            base = None
        if base is None:
            v.add(f"v{i}", data)
        else:
            v.add(f"v{i}", data, f"v{base}")
    out = []
    for i in range(len(a)):
        out.append(v.get(f"v{i}"))
        out.append(v.version_info(f"v{i}"))
        out.append(tuple(v.tree.path_to(f"v{i}")))
    return out


WITH_TOKENIZER = ("diff", "merged", "merged_lines", "line_diff", "con_diff", "con_merge", "decode_lines", "decode_changes", "decoded", "kept_lines", "marked")
STR_ONLY = ("marked", "documents", "kept_lines", "merged_lines", "line_diff", "con_diff", "con_merge", "decode_lines", "encode_lines")
PIPED = ("line_diff", "con_diff", "con_merge", "decode_lines", "decode_changes", "strip_forward", "strip_reverse", "deserialize",
         "serialize", "apply_forward", "apply_reverse", "marked")
LAZY = ("diff", "merged", "merged_lines", "dts", "mts", "line_diff", "con_diff", "con_merge", "decode_lines", "decode_changes",
        "changes", "diff_stream", "streams", "strip_forward", "strip_reverse", "deserialize", "suffixes")
EAGER = ("serialize", "apply_forward", "apply_reverse", "find", "find_first", "lcs", "lcs_many", "one_automaton", "tokens", "decoded",
         "encode_lines", "store", "kept", "kept_patch", "kept_lines", "old_apply", "marked", "documents")
ALL = LAZY + EAGER
THREE = ("merged", "merged_lines", "mts", "con_merge", "decode_changes")
ANY_SEQUENCE = ("dts", "mts", "changes", "diff_stream", "streams", "strip_forward", "strip_reverse", "apply_forward", "apply_reverse", "find",
                "find_first", "lcs", "lcs_many", "one_automaton", "kept", "old_apply")


LISTABLE = [f for f in ANY_SEQUENCE if f not in ("find", "find_first", "lcs_many", "one_automaton")]


def in_lists(rng, todo):
    """Some of the calls get their texts in lists that are used again."""
    for call in todo:
        if call["f"] in LISTABLE and rng.random() < 0.8:
            call["t"] = "list"
            call["slot"] = rng.choice((0, 0, 0, 1))


def generate(rng, cap=120, functions=None, style=None, base=None):
    """A random call; base is a text to vary, so that calls resemble each other."""
    f = rng.choice(functions or ALL)
    style = style or rng.choice(texts.STYLES)
    call = {"f": f}
    tok = None
    if f in STR_ONLY:
        t = "str"
    elif f in ANY_SEQUENCE:
        t = rng.choice(("str", "str", "utf8", "latin", "ints", "words", "mix", "mix", "list", "lines"))
        if f in ("find", "find_first", "lcs_many", "one_automaton") and t == "list":
            t = "ints"
    elif f == "suffixes":
        t = rng.choice(("str", "utf8", "ints"))
        cap = min(cap, 30)
    elif f in ("serialize", "deserialize", "kept_patch"):
        t = rng.choice(("utf8", "latin"))
    else:
        t = rng.choice(("str", "str", "utf8", "latin"))
    if f in WITH_TOKENIZER or f in ("tokens", "store"):
        tok = rng.choice(TOKENIZERS if f in ("store", "tokens") else (None, *TOKENIZERS))
        if tok in ("char", "symbol") and t == "latin" and rng.random() < 0.7:
            t = "utf8"
        if f == "store" and t == "str":
            t = "utf8"
        if tok is None and f in ("merged_lines", "line_diff", "con_diff", "con_merge", "kept_lines", "marked"):
            tok = rng.choice((None, "null"))
        call["tok"] = tok
    call["t"] = t
    n = 3 if f in THREE else 2
    if f == "marked":
        call["style"], call["lines"] = rng.choice(("git", "plain", "colored", "own")), rng.random() < 0.5
        call["flat"] = rng.random() < 0.3
    if f in ("kept_lines", "marked"):
        n = rng.choice((2, 3))
    if f == "one_automaton":
        n = rng.choice((2, 3, 4))
        cap = min(cap, rng.choice((8, 30, cap)))
        call["ops"] = [[rng.choice(("lcs", "all", "all", "first") + (("suffixes",) if cap <= 30 else ())), rng.randrange(1, n)]
                       for _ in range(rng.randrange(2, 7))]
    if f == "lcs_many":
        n = rng.choice((0, 1, 2, 3, 4))
    elif f in ("suffixes",):
        n = 1
    elif f in ("tokens", "decoded", "encode_lines", "documents"):
        n = rng.choice((1, 2, 3))
    elif f == "store":
        n = rng.randrange(1, 7)
        call["bases"] = [rng.choice((None, i - 1, i - 1, i - 1, i - 1, rng.randrange(max(1, i)))) if i else None for i in range(n)]
        call["bases"] = [None if b is not None and b < 0 else b for b in call["bases"]]
    first = base if base is not None and rng.random() < 0.7 else texts.fresh(rng, style, cap)
    first = first[:cap]
    a = [first]
    while len(a) < n:
        a.append(texts.evolve(rng, rng.choice((a[0], a[-1])), style, cap)[:cap])
    if f in ("find", "find_first", "one_automaton"):
        for k in range(1, n):
            if rng.random() < 0.8:
                i = rng.randrange(len(first) + 1)
                a[k] = first[i : i + rng.choice((1, 1, 2, 3, 8))]
    call["a"] = a[:n]
    return call


def answer(call, tok=None, pipe=same):
    """The whole normalised answer, an exception included."""
    items = []
    try:
        for x in start(call, tok, pipe):
            items.append(norm(x))
            if call["f"] in EAGER:
                spoil(x)
    except (Violation, HarnessError):
        raise
    except Exception as e:
        items.append(["raised", type(e).__name__])
    return items


def solo(calls):
    """What each call answers as the only one of its process."""
    out = []
    memo = {}
    for call in calls:
        key = repr(sorted(call.items(), key=str))
        if key not in memo:
            memo[key] = forked(lambda: answer(call))
        out.append(memo[key])
    return out


class Found:
    """A violation found in a process of its own."""

    def __init__(self, args):
        self.args = args


def forked(f):
    """The value of f() computed in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(SOLO_TIMEOUT)
            try:
                value = f()
            except Violation as e:
                value = Found((e.kind, e.msg))
            data = pickle.dumps(value)
            view = memoryview(struct.pack("<Q", len(data)) + data)
            while view:
                view = view[os.write(w, view) :]
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    while True:
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        chunks.append(chunk)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    data = b"".join(chunks)
    if len(data) < 8 or len(data) - 8 != struct.unpack("<Q", data[:8])[0]:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
            return [["never ended"]]
        raise RuntimeError(f"solo run ended with status {status}")
    value = pickle.loads(data[8:])
    if type(value) is Found:
        raise Violation(*value.args)
    return value


def shrink(call):
    """Simpler variants of a call."""
    for i, s in enumerate(call["a"]):
        step = max(1, len(s) // 2)
        while step:
            if step * 16 >= len(s):
                for k in range(0, len(s), step):
                    c = dict(call, a=list(call["a"]))
                    c["a"][i] = s[:k] + s[k + step :]
                    yield c
            step //= 2
