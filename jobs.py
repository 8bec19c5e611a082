"""What each check runs: harness, parameters and bounds, per property and tier."""
ASSUME = [
    'the compiled LLVM IR of rustc (stable toolchain, opt-level 1, overflow and debug assertions on) means what rustc compiles it to; '
    'sampled paths are re-run on a native build of the same sources each time and must give the same observations',
    'malloc never fails; core::slice::memchr is replaced by a byte loop with the same contract; if the code should call them: '
    'the clock stands still, no environment variable is set, what is printed is ignored, hash maps have fixed keys and one bucket',
    'z3 4.8 verdicts; single-byte decisions are made on 256-entry tables and confirmed by z3',
]


def text(maxlen, shapes=(0,), minlen=0):
    """every byte string of a length; shapes: plain, cfg(T), cfg(T, T)"""
    return [('h_text', [n, s]) for s in shapes for n in range(minlen, maxlen + 1)]


def toks(alphabet, maxk, mink=1, wrap=0, p4=0):
    """every sequence of that many tokens of the alphabet"""
    return [('h_tokens', [k, alphabet, wrap, p4]) for k in range(mink, maxk + 1)]


def edit(*wm):
    """18 realistic texts with a window of arbitrary bytes: (width, 0 replace / 1 insert / 2 delete)"""
    return [('h_edit', [99, w, m]) for w, m in wm]


EDITQ = edit((1, 0), (1, 1), (1, 2), (2, 0), (2, 2))
EDITT = edit((2, 1), (3, 0), (3, 2), (4, 2), (5, 2))
STEPS = {'steps': 2000000000}


def wide(n, pats=(99,), anys=(0, 1), ends=(0,)):
    return [('h_wide', [n, p, a, e], STEPS) for p in pats for a in anys for e in ends]


def deep(d, shapes=(0, 1, 2), ends=(0,)):
    return [('h_deep', [d, s, e], STEPS) for s in shapes for e in ends]


def far(kinds, n, texts):
    """arbitrary text behind, between or around a long stretch; texts: (0 any bytes / 1 in a value / 2 realistic text with a byte replaced, bytes or which text)"""
    return [('h_far', [k, n, m, w], STEPS) for k in kinds for m, w in texts]


def long(ns, ws=(1, 2)):
    """names and values of that many characters with a window of arbitrary bytes"""
    return [('h_long', [k, n, w, c], STEPS) for k in range(5) for n in ns for w in ws for c in (0, 1)]


FAR = far(range(9), 300, ((0, 2), (1, 2))) + far((0, 2, 3, 4, 7), 66000, ((0, 2), (1, 2))) + far((6,), 70, ((0, 3), (2, 2))) + long((300, 66000))
FARQ = far((0, 2, 4, 6, 8), 300, ((0, 2), (1, 1))) + far((0, 4, 7), 66000, ((0, 2), (1, 1))) + long((300, 66000), (1,))


def option(modes, places, vals, keylens=(0,)):
    """one option: how the name is perturbed, where it stands, bytes of its value (99: none)"""
    return [('h_option', [m, p, v, k]) for m in modes for p in places for v in vals for k in keylens]


LONGVAL = option((0,), (9,), [100 + n for n in list(range(4, 25)) + [32, 40]])
NAMES = option((4,), (9,), (99, 103), (6, 7, 8, 9, 10, 12, 14, 16))
ODD = option((4,), (10,), (99,), (2, 6, 7, 8, 10, 12))
LARGE = wide(300) + wide(300, ends=(4, 5)) + wide(66000, (1,), (0,)) + deep(300)
B_NAMES = 'option names of 6-16 letters, digits and _ in 6 places where an option may stand and 8 where none may, or cut short; values of 4-24, 32 and 40 printable ASCII characters for the names of other jobs (no atomics or pointer widths)'
B_TEXT = 'every string of up to %d arbitrary bytes that is UTF-8 (thorough: %d)'
B_EDIT = 'each of 18 realistic expressions (up to 90 bytes) with any window of 1-2 bytes (thorough 3) replaced by, or 1 byte (thorough 2) inserted from, all byte values at every position, and every 1-2 (thorough 1-5) byte deletion'
B_TOK = 'every sequence of up to %s'
B_LARGE = 'lists of %s items, nesting of %s levels'

B_FAR = '%s arbitrary bytes behind, between or around stretches of 300 and 66000 characters (white space, a long name, a long value, a list, nesting of 300), and inside a name or value of that length'
PROPS = {}


def prop(id, **kw):
    PROPS[id] = kw


prop('C01',
     quick=text(5) + text(4, (1, 2, 3)) + EDITQ + toks(2, 5) + option((0,), (9,), (99, 0, 1, 3)) + option((1,), (9,), (99, 1))
     + wide(300, ends=(0, 1, 2, 3, 4, 5)) + wide(66000, (1, 0), (0,), (0, 3)) + deep(300, ends=(0, 1, 2)) + deep(20000) + NAMES + ODD + LONGVAL,
     thorough=text(7, minlen=6) + text(6, (1, 2, 3), 5) + EDITT + toks(2, 6, 6) + toks(0, 12, 11) + option((2, 3, 4), (9,), (99, 0, 4), (7, 15))
     + wide(66000, (2, 4, 5), (0, 1), (0, 1, 2)) + deep(70000, ends=(0, 1, 2)),
     covers=[1, 2], checks=[1, 2, 3],
     bounds=[B_NAMES, B_TEXT % (5, 7), B_EDIT, B_TOK % '5 (6) tokens of a mixed alphabet', B_LARGE % ('300 and 66000', '300 and 20000 (thorough 70000)')])
prop('C02',
     quick=text(5) + EDITQ + toks(0, 9) + toks(1, 8) + toks(2, 5) + toks(0, 7, 7, wrap=1) + option((0,), (9,), (99, 0, 1, 3)) + option((1,), (9,), (99, 1))
     + wide(300, ends=(0, 1, 2, 3, 4, 5)) + wide(66000, (1,), (0,), (0, 3)) + deep(300, ends=(0, 1, 2)) + FARQ + NAMES + ODD + LONGVAL,
     thorough=text(7, minlen=6) + text(5, (1, 2, 3)) + EDITT + toks(0, 13, 10) + toks(1, 12, 9) + toks(2, 7, 6) + option((2, 3, 4), (9,), (99, 0, 2), (7, 15)) + FAR,
     covers=[1, 2, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20], checks=[1, 2],
     bounds=[B_NAMES, B_TEXT % (5, 7), B_EDIT, B_TOK % '9 (13) structural, 8 (12) structural and value, 5 (7) mixed tokens', B_LARGE % ('300 and 66000', '300'), B_FAR % '1-2'])
prop('C03',
     quick=[('h_logic', [])] + text(4) + EDITQ + toks(0, 11, p4=4) + toks(1, 8, p4=3) + toks(0, 7, 7, wrap=1, p4=3)
     + wide(300, (0, 6), (0,)) + wide(300, (9,), (1,)) + deep(300) + FARQ + NAMES + ODD + LONGVAL,
     thorough=wide(66000, (1,), (0,), (0,)) + text(6, minlen=5) + EDITT + toks(0, 14, 12, p4=5) + toks(1, 11, 9, p4=5) + wide(300) + wide(66000, (2, 5), (1,), (0, 4)) + deep(3000) + FAR,
     covers=[1, 2, 6], checks=[1, 2, 3, 4, 5, 6, 7, 20, 21, 22, 23, 24, 32, 33, 34, 35, 36],
     bounds=[B_NAMES, 'four logics at once: bit vectors and a 256-valued lattice (min, max, complement) with all values symbolic, a Heyting chain (not(not(x)) is not x), a leaf counter, and bool for up to 4 (5) options',
             B_TEXT % (4, 6), B_EDIT, B_TOK % '11 (14) structural, 8 (11) structural and value tokens',
             B_LARGE % ('300 (66000)', '300 (3000)') + ' with up to 9 symbolic places, the neutral value elsewhere', B_FAR % '1-2'])
prop('C04',
     quick=[('h_logic', [])] + text(4) + EDITQ + toks(0, 10, p4=5) + toks(1, 8, p4=4) + FARQ + LARGE + NAMES + ODD + LONGVAL,
     thorough=text(6, minlen=5) + EDITT + toks(0, 13, 11, p4=6) + toks(1, 11, 9, p4=6) + FAR,
     covers=[1, 2, 3, 4, 5], checks=[1, 2, 3, 4, 20, 21, 22, 23, 24],
     bounds=[B_NAMES, B_LARGE % ('300 and 66000', '300'), 'every assignment of true, false and unknown to up to 5 (6) options, every resolution of the unknowns, every single unknown learnt',
             B_TEXT % (4, 6), B_EDIT, B_TOK % '10 (13) structural, 8 (11) structural and value tokens', B_FAR % '1-2'])
prop('C05',
     quick=text(4) + EDITQ + toks(0, 8) + toks(1, 8) + toks(2, 5) + option((0,), (9,), (99, 0, 1, 3)) + option((1,), (9,), (99, 1)) + option((2,), (9,), (99, 1))
     + [('h_pair', [n, m]) for n in (0, 1, 2) for m in (0, 1, 2)] + FARQ + LONGVAL + LARGE + NAMES + ODD,
     thorough=text(6, minlen=5) + EDITT + toks(0, 12, 9) + toks(1, 11, 9) + toks(2, 7, 6) + option((2, 3, 4), (9,), (99, 0, 2, 5), (7, 15)) + [('h_pair', [3, 3])] + FAR,
     covers=[1, 2, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 47], checks=[10, 11, 12, 13],
     bounds=[B_NAMES, B_LARGE % ('300 and 66000', '300'), B_TEXT % (4, 6), B_EDIT, B_TOK % '8 (12) structural, 8 (11) structural and value, 5 (7) mixed tokens',
             '35 option names, each with any one byte replaced (thorough also inserted, removed, all), values of up to 3 (5) bytes, and of 4-24, 32 and 40 printable ASCII characters, in 6 places of an expression; two options with equal or different values of up to 2 (3) bytes', B_FAR % '1-2'])
prop('C06',
     quick=text(4) + EDITQ + option((0,), (9,), (99, 0, 1, 2, 3, 4)) + option((1,), (9,), (99, 0, 1)) + option((2, 3), (9,), (99, 1)) + option((4,), (0,), (99, 0), (1, 2, 3, 4, 7, 9, 10, 14, 15, 18, 20))
     + [('h_option', [0, p, n, 0, k]) for p in (0,) for n in (5, 6) for k in (7, 10, 14, 16)] + FARQ + LONGVAL + NAMES + ODD,
     thorough=text(6, minlen=5) + EDITT + option((2, 3), (9,), (0, 2, 3)) + option((4,), (9,), (99, 0, 2), (5, 6, 8, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24))
     + [('h_option', [0, 9, n, 0, k]) for n in (5, 6, 7) for k in range(1, 19)] + FAR,
     covers=[1, 2] + list(range(30, 46)) + [47, 60, 61, 62, 63, 64, 65], checks=[1, 2, 10, 11, 12, 13],
     bounds=[B_NAMES, B_TEXT % (4, 6), B_EDIT,
             '35 option names, each also with any byte replaced, inserted or removed, and arbitrary names of up to 4 (5) bytes and names of up to 20 (24) arbitrary letters, digits and _; values of up to 4 arbitrary bytes for all names and 6 (7) for panic, endian, atomics and pointer width (thorough: all target options), of 4-24, 32 and 40 printable ASCII characters for all but atomics and pointer width; 6 places of an expression', B_FAR % '1-2'])
prop('C07',
     quick=text(5) + text(4, (1, 2)) + EDITQ + toks(2, 5) + option((0,), (9,), (99, 0, 1, 3)) + option((1,), (9,), (99, 1)) + wide(300, (1,), (0,), (1, 2, 3)) + deep(300, (2,), (1, 2)) + FARQ + NAMES + ODD + LONGVAL,
     thorough=text(7, minlen=6) + text(6, (1, 2, 3), 5) + EDITT + toks(0, 11) + toks(2, 7, 6) + option((1, 2, 3, 4), (9,), (99, 0, 2), (7, 15)) + FAR,
     covers=[2], checks=[1, 2, 3, 4, 5, 6],
     bounds=[B_NAMES, B_TEXT % (5, 7), B_EDIT, B_TOK % '5 (7) mixed tokens', '35 option names with values of up to 3 bytes in 6 places', B_FAR % '1-2'])
prop('C08',
     quick=text(5) + EDITQ + toks(0, 9) + toks(1, 8) + toks(2, 5) + option((0,), (9,), (99, 0, 1, 3)) + option((1,), (9,), (99, 1)) + wide(300, (1, 2, 6), ends=(1, 2, 3, 5)) + deep(300, ends=(1, 2)) + FARQ + NAMES + ODD + LONGVAL,
     thorough=text(7, minlen=6) + text(5, (1, 2, 3)) + EDITT + toks(0, 13, 10) + toks(1, 12, 9) + toks(2, 7, 6) + option((2, 3, 4), (9,), (99, 0, 2), (7, 15)) + FAR,
     covers=[2, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20], checks=[1],
     bounds=[B_NAMES, B_TEXT % (5, 7), B_EDIT, B_TOK % '9 (13) structural, 8 (12) structural and value, 5 (7) mixed tokens', '35 option names (also perturbed) with values of up to 3 bytes in 6 places', B_LARGE % ('300', '300'), B_FAR % '1-2'])
prop('C09',
     quick=text(5) + text(4, (1, 2, 3)) + EDITQ + toks(2, 4) + option((0, 1), (9,), (99, 2)) + FARQ + wide(300, (1, 2, 4, 6), (0,), (0, 3)) + deep(300) + wide(66000, (1,), (0,)) + NAMES + ODD + LONGVAL,
     thorough=text(7, minlen=6) + text(6, (1, 2, 3), 5) + EDITT + toks(2, 6, 5) + FAR,
     covers=[1, 2], checks=[1, 2, 3, 4, 5, 6, 7],
     bounds=[B_NAMES, B_LARGE % ('300 and 66000', '300'), B_TEXT % (5, 7), B_EDIT, B_TOK % '4 (6) mixed tokens', B_FAR % '1-2'])
prop('C10',
     quick=[('h_wrap', [n, 0]) for n in range(0, 6)] + [('h_wrap', [n, s]) for s in (1, 2, 3, 4) for n in range(0, 5)]
     + [('h_wrap', [n, s]) for s in (5, 6, 7) for n in (0, 1, 2)] + EDITQ + toks(0, 8) + toks(1, 7) + toks(2, 5) + option((0,), (0,), (99, 0, 1, 3)) + FARQ + wide(300, ends=(0, 1, 2, 3, 4, 5)) + deep(300, ends=(0, 1, 2)) + wide(66000, (1,), (0,), (0, 2)) + NAMES + ODD + LONGVAL,
     thorough=[('h_wrap', [6, 0]), ('h_wrap', [5, 1]), ('h_wrap', [5, 2]), ('h_wrap', [5, 3]), ('h_wrap', [5, 4]), ('h_wrap', [6, 3]), ('h_wrap', [6, 4])]
     + EDITT + toks(0, 12, 9) + toks(1, 10, 8) + toks(2, 7, 6) + option((1, 2), (9,), (99, 0, 1)) + FAR,
     covers=[1, 2, 3], checks=list(range(1, 9)) + [10, 11, 12, 13, 14, 21],
     bounds=[B_NAMES, B_LARGE % ('300 and 66000', '300'), 'T: every string of up to 5 (6) bytes; `cfg(`, `cfg`, `)` around up to 4 (6) arbitrary bytes; `cfg(a)` with bytes replaced, inserted, removed', B_EDIT,
             B_TOK % '8 (12) structural, 7 (10) structural and value, 5 (7) mixed tokens', B_FAR % '1-2'])
prop('C11',
     quick=[('h_gaps', [99, n, 0]) for n in (1, 2, 3)] + [('h_gaps', [99, n, 1]) for n in (0, 1, 2, 3)] + [('h_gaps', [99, 0, 2]), ('h_gaps', [99, 0, 3]), ('h_gaps', [99, 1, 0, 300], STEPS), ('h_gaps', [99, 1, 1, 70], STEPS)]
     + toks(0, 6) + toks(1, 6) + toks(0, 8, 7, p4=1) + toks(1, 8, 7, p4=1)
     + wide(300, (1, 2, 3, 9), ends=(0, 1, 2, 3)) + deep(300, ends=(0, 1, 2)) + wide(20000, (1,), (0,)),
     thorough=[('h_gaps', [99, 4, 0]), ('h_gaps', [99, 5, 0]), ('h_gaps', [99, 4, 1]), ('h_gaps', [99, 5, 1])] + toks(0, 8, 7) + toks(1, 8, 7)
     + toks(0, 12, 9, p4=1) + toks(1, 10, 9, p4=1),
     covers=[1, 2, 3, 4, 5, 6, 7, 8], checks=[1, 2, 3, 4, 5, 11, 12, 13, 14, 15, 21, 22, 23, 24, 25, 41, 42, 43, 44, 45],
     bounds=[B_LARGE % ('300 and 20000', '300') + ' with white space in a gap near either end or the middle, or in all of them, or with a trailing comma', 'any Unicode white space of up to 3 (5) bytes inserted at, or replacing the white space of, every gap of 18 realistic texts; gaps of 1 arbitrary and 70 and 300 further white spaces; trailing commas added to and removed from each list',
             'token sequences of up to 6 (8) structural/value tokens, 8 (12) for accepted ones, with one gap filled by any of 14 white space strings, no white space at all, or a trailing comma added'])
prop('C12',
     quick=text(5) + EDITQ + toks(0, 8) + toks(1, 7)
     + [('h_equal', [n, m, s]) for s in (0, 1, 2, 7) for n, m in ((1, 1), (2, 2), (2, 3), (3, 3))] + [('h_equal', [2, 2, s]) for s in (3, 4, 6)] + [('h_equal', [1, 3, 5]), ('h_equal', [2, 2, 5])] + [('h_equal', [1, 1, s, n], STEPS) for s in (8, 9) for n in (20, 300)] + [('h_equal', [c, 0, 10, 0]) for c in range(18)] + FARQ + LARGE + NAMES + ODD + LONGVAL,
     thorough=text(7, minlen=6) + text(6, (1,), 0) + EDITT + toks(0, 12, 9) + toks(1, 10, 8)
     + [('h_equal', [n, m, s]) for s in (0, 1, 2, 7) for n, m in ((3, 4), (2, 5), (4, 4))] + [('h_equal', [3, 3, s]) for s in (3, 4, 5, 6)] + [('h_equal', [2, 2, s, 20], STEPS) for s in (8, 9)] + [('h_equal', [1, 1, s, 6000], STEPS) for s in (8, 9)] + FAR,
     covers=[1, 2, 3, 4], checks=[1, 2, 3, 4, 5, 6, 8, 9, 10, 20, 21, 22, 23],
     bounds=[B_NAMES, B_LARGE % ('300 and 66000', '300'), B_TEXT % (5, 7), B_EDIT, 'pairs of texts with up to 3+3 (4+4) arbitrary bytes, plain, wrapped, or inside values and lists; with 1 (2) arbitrary bytes before or behind lists of 20 and 300 (6000) items; each of 18 realistic texts and itself with any byte replaced', B_TOK % '8 (12) structural, 7 (10) structural and value tokens', B_FAR % '1-2'])


def each(h, *params, **o):
    """the product of the parameter lists"""
    import itertools
    ps = [p if isinstance(p, (list, tuple, range)) else [p] for p in params]
    return [(h, list(x)) + ((o,) if o else ()) for x in itertools.product(*ps)]


prop('C13',
     quick=each('h_lookup', range(0, 49), 0) + each('h_lookup', (2, 9, 18, 25), 1) + [('h_unique', [])],
     thorough=each('h_lookup', list(range(49, 73)) + [100, 200, 300], 0) + each('h_lookup', [n for n in range(3, 49) if n not in (9, 18, 25)], 1),
     covers=[1, 2, 3], checks=[1, 2, 3, 4, 5, 6],
     bounds=['every ASCII string of up to 48 bytes (thorough: 72, and 100, 200 and 300), every UTF-8 string of up to 4 bytes, every string of 2, 9, 18 and 25 (up to 48) bytes with one two-byte character and otherwise ASCII; all 287 listed targets'])
prop('C14',
     quick=each('h_info', range(0, 6), 97, 97, 0, 0, 8) + each('h_info', range(0, 6), 97, 97, 1, 1, 3) + each('h_info', range(0, 6), 98, range(0, 14), 2, 0)
     + each('h_info', (6, 7), (0, 98), 0, 2) + each('h_info', 8, (0, 1, 2), (1, 2, 4), (0, 1), (0, 1)) + each('h_info', 8, 98, range(0, 9), 2) + each('h_info', 9, (0, 1, 2, 3, 98), 0, (0, 2))
     + each('h_info', range(0, 6), (20001, 300011, 66000021), (20001, 300001, 300011, 66000021), 0, (0, 1)) + each('h_info', 8, 2, (20001, 300001), 0),
     thorough=each('h_info', range(0, 6), 97, 97, 0, 0, 14) + each('h_info', range(0, 6), 97, 97, 2, 0, 7) + each('h_info', range(0, 6), 98, range(14, 24), 2, 1)
     + each('h_info', 8, 3, (1, 2, 4, 7), 1) + each('h_info', 9, (4, 5), 0, 0),
     covers=[1, 2], checks=[1, 2],
     bounds=['field and value: every pair of strings of up to 8 (14) bytes (any UTF-8 up to 4 bytes, ASCII beyond), the field also absent; the other fields those of one or 8 (thorough: all 287) built-in targets; '
             'all 287 built-in targets against values of up to 13 (23) bytes; every pointer width, both endiannesses; up to 2 (3) families of up to 5 (8) bytes, up to 3 (5) atomics of any size; texts of 20, 300 and 66000 letters with 1 arbitrary byte at either end or amid them'])
prop('C15',
     quick=each('h_agree', range(0, 5), range(0, 15)) + each('h_agree', (5, 6), 0),
     thorough=[],
     covers=[1, 2, 9], checks=[1, 2, 3],
     bounds=['each of the 250 built-in triples target-lexicon parses, every value of up to 14 bytes that rustc uses for the kind or the description has (all of them), every pointer width, both endiannesses'])
prop('C16',
     quick=each('h_total', range(0, 7), range(0, 9), (98,)) + each('h_total', (0, 2, 4), range(0, 11), 99) + each('h_total', (1, 3), range(0, 9), 99) + each('h_total', (7, 8, 9, 10, 11, 14), 0, (98, 99)) + each('h_total', (0, 1, 2, 3, 4, 10, 14), (3, 7), (0, 3, 5)),
     thorough=each('h_total', (0, 2, 4, 5, 6), range(9, 15), (98, 99)) + each('h_total', (1, 3), (9, 10), 99) + each('h_total', (1, 3), (11, 12), 98) + each('h_total', (0, 1, 2, 3, 4), range(0, 10), (1, 2, 4, 6)) + each('h_total', (7, 8, 9, 10, 11, 14), 0, (0, 1, 2, 3, 4, 5, 6)),
     covers=[1, 2, 3], checks=[1, 2, 3, 4, 5, 6, 7, 8],
     bounds=['every combination of the architectures, operating systems, environments and binary formats of target-lexicon 0.13.2 (deployment targets: absent and one version) with each vendor or a custom vendor of up to 5 (6) bytes; '
             'predicate values of up to 8 (10; arch, env, family 14) bytes'])
prop('C17',
     quick=each('h_atomic', range(0, 8)) + each('h_atomic', (1, 2, 3), (1, 2, 40)) + each('h_atomic', (20001, 20011, 300001, 300021)) + each('h_atomic_show', (0, 256)),
     thorough=each('h_atomic', range(8, 13)),
     covers=[1, 2, 3, 4], checks=[1, 2, 4, 5, 6, 7],
     bounds=['every UTF-8 text of up to 4 bytes and ASCII text of up to 7 (12) bytes; up to 3 bytes behind 1, 2 and 40 zeros, and 1 byte in texts of 20 and 300 letters; every size'])
prop('C18',
     quick=each('h_families', (0, 1, 2, 3), 0, (1, 2), 0, (0, 1, 2)) + each('h_families', 4, 0, 1, 0, (0, 1)) + each('h_families', (0, 1, 2), (0, 1, 2), 2, 0, 3) + each('h_families', 3, (2, 3), 1, 0, 3)
     + each('h_families', (1, 2), 0, 1, (7, 24), (0, 1)) + each('h_atomics', (0, 1, 2, 3), 0, 0, 0, (0, 1)) + each('h_atomics', (0, 1, 2), (0, 1, 2), 0, 0, 3) + each('h_atomics', (1,), 0, 0, (7, 24), (0, 1)) + each('h_atomics', 2, 0, 0, 7, 0)
     + [('h_atomics', [3, 3, 0, 0, 3])] + each('h_families', (1, 2), 0, (20001, 20011, 300001), 0, (0, 1, 2)) + each('h_families', 2, (1, 2), (20001, 300011), 0, 3),
     thorough=each('h_families', 3, 0, 3, 0, (0, 1, 2)) + each('h_families', (1, 2), 0, 2, (7, 24, 40), (0, 1, 2)) + each('h_families', 5, 0, 1, 0, (1,)) + each('h_families', 3, 3, 2, 0, 3)
     + each('h_atomics', 4, 0, 0, 0, (0, 1)) + each('h_atomics', 2, 0, 0, (24, 40), (0, 1)),
     covers=[1, 2, 3, 4, 5], checks=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18],
     bounds=['lists of up to 4 families of up to 2 (3) bytes and up to 3 (4) atomics of any size, in every order, and of 1-2 arbitrary elements among 7 or 24 (40) fixed ones in 4 orders; membership of any element; pairs of lists of up to 3 elements each; families of 20 and 300 letters with an arbitrary byte at either end'])
prop('C19',
     quick=each('h_names', range(0, 8), 97, 97, 5) + each('h_names', range(0, 8), (7, 12), (7, 12)) + each('h_names', range(0, 8), (20001, 300001, 66000021), (20001, 20011, 300001)) + each('h_endian', (20001, 300011)) + each('h_endian', range(0, 9)),
     thorough=each('h_names', range(0, 8), 97, 97, 9) + each('h_names', range(0, 8), (16, 24, 33), (16, 24, 33)) + each('h_endian', range(9, 33)),
     covers=[1, 2, 3, 4, 5], checks=list(range(1, 14)),
     bounds=['each of the 8 types with pairs of texts of up to 4 (8), and of 7 and 12 (16, 24, 33) bytes, owned and static; endianness texts of up to 8 (32) bytes; any UTF-8 up to 4 bytes, ASCII beyond; texts of 20, 300 and 66000 letters with 1 arbitrary byte at either end or amid them'])
prop('C20',
     quick=each('h_facts', range(0, 7), range(0, 14)) + each('h_facts', (7, 8), 0) + [('h_coherent', []), ('h_constants', [])],
     thorough=each('h_facts', range(0, 7), range(14, 25)),
     covers=[1, 2, 3, 4, 5], checks=[1, 2, 3, 4, 5, 6, 7, 10, 11, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22],
     bounds=['each of the 287 targets against a snapshot of what the installed rustc prints (5 targets it no longer has, and 29 facts that changed since 1.86, are only checked for coherence); every value of up to 13 (24) bytes, every atomic size and pointer width; 123 named constants'])
prop('C21', gen=True,
     quick=each('h_generate', 0, 4, 0, 0) + each('h_generate', (1, 2, 3, 4, 5), 2, 5, (0, 1, 2)) + each('h_generate', 6, 2, 5, 0) + each('h_generate', (1, 2, 3, 4, 5, 6), 3, 2, (0, 1)) + each('h_generate', 7, 2, 4, 0)
     + each('h_generate', 8, 1, 5, (0, 1)) + each('h_generate', 8, 2, 1, 0) + each('h_generate', 9, (1, 2), 0, (0, 1)) + each('h_generate', 10, 1, 1, 0) + each('h_generate', 10, 2, 1, 1) + each('h_generate', 11, 2, 0, 0)
     + each('h_generate', 12, 2, 20, 0) + each('h_generate', 12, 2, 12, 2) + each('h_generate', 13, 2, 1, 0) + each('h_generate', 14, 1, 9, 0),
     thorough=each('h_generate', (1, 2, 3, 4, 5, 6), 3, 4, (0, 1, 2, 3)) + each('h_generate', (1, 2, 3, 4, 5, 6), 4, 2, 0) + each('h_generate', 7, 3, 5, 0) + each('h_generate', 8, 1, 9, (0, 1)) + each('h_generate', 8, 2, 2, 0)
     + each('h_generate', 9, 3, 0, 1) + each('h_generate', 10, 1, 2, 0) + each('h_generate', 12, 3, 12, 1) + each('h_generate', 13, 3, 1, 0) + each('h_generate', 14, 1, 24, 0),
     covers=[1], checks=[3, 4, 5, 6, 7, 8, 11, 13, 16, 17, 18, 19],
     bounds=['listings of up to 4 targets with one field of every target undetermined: values of up to 5 (2 for 3 targets; thorough: 4 for 3 targets) bytes of lower-case letters, digits, _ and -; up to 2 families per target; every sublist of 4 atomic sizes and sizes of 1 (2) digits; '
             'every pointer width and endianness; 20 arrangements of the lines with and without the keys the table does not use; versions of up to 9 (24) bytes'])
prop('C22', gen=True,
     quick=each('h_update', 0, (1, 2, 4), 0) + each('h_update', 1, (1, 2), 12) + each('h_update', 2, 1, 8) + each('h_update', 3, (1, 2), 0) + each('h_update', 4, 1, 8) + each('h_update', 5, 1, 0),
     thorough=each('h_update', 0, 12, 0) + each('h_update', 1, 2, 24) + each('h_update', 2, 2, 16) + each('h_update', 4, 2, 16),
     covers=[1, 2, 3, 4], checks=[1, 2, 5, 6, 7, 8, 9],
     bounds=['each single call of an update of 1, 2 and 4 (12) targets that fails to start, fails having printed nothing, half or all of its answer, or prints nothing or an arbitrary byte above 127 before, amid or behind its answer; one extra line in a listing with any unknown key of up to 12 (24) letters, digits and _, or a known key with any character replaced or up to 8 (16) more behind it, or with any printable atomic size of up to 8 (16) characters other than quotes; each required line missing; six READMEs without a version link; a panic counts as an unsuccessful end'])
prop('C23',
     quick=each('h_variant', (0, 2, 4), range(0, 11), (3, 5, 97, 98, 99)) + each('h_variant', 1, range(0, 11), (3, 5, 97, 98, 99)) + each('h_variant', 3, range(0, 8), (1, 3, 4, 5, 97, 98, 99)) + each('h_variant', (5, 6), 0, (1, 3, 5, 6, 97, 98, 99))
     + each('h_variant', (3,), (20001, 300011), (20001, 300001)) + each('h_variant', (1,), (4,), (20001,)) + each('h_variant', 7, 0, 0),
     thorough=each('h_variant', (0, 2, 4), range(11, 16), (4, 6, 97, 98, 99)) + each('h_variant', (0, 1, 2, 4), range(0, 9), (1, 2, 4, 6, 7)) + each('h_variant', 1, range(11, 15), (5, 6, 97, 98, 99)) + each('h_variant', 3, range(0, 8), (2, 6, 7)),
     covers=[1, 2, 3, 4, 5, 6], checks=[1, 2],
     bounds=['each built-in triple target-lexicon parses (but for the vendors nuttx and rtems, which decide the os) with its vendor replaced by unknown, by the vendors target-lexicon knows (two of them per triple; all for the vendor predicate) or by any custom vendor of 3 and 5 (1-7) bytes, or with any version of an Apple os; every vendor with a meaning with any one byte replaced, inserted or removed, or cut; predicate values of up to 10 (15) bytes, vendor up to 7, an os with a version only up to 5'])
prop('C24',
     quick=[('h_descriptions', [j, k, 1, d]) for j in range(11) for k in range(j, 11) for d in (2, 3)] + each('h_descriptions', range(0, 11), (3,), (0, 3), 2) + each('h_descriptions', (0, 1, 5), 3, (20001, 300011), 2)
     + each('h_parts', 0, (0, 1, 2), (1, 2)) + each('h_parts', (1, 2), (0, 1, 2, 4), (0, 2, 4)) + each('h_parts', (0, 1, 2), (300001, 20021), (300001, 20021)),
     thorough=[('h_descriptions', [j, k, 2, d]) for j in range(11) for k in range(j, 11) for d in (2, 3)] + each('h_descriptions', range(0, 11), (5,), (4, 5, 9), 2) + each('h_parts', (0, 1, 2), (3, 4, 6), (3, 4, 6)),
     covers=[1, 2, 3, 4, 5], checks=list(range(1, 10)) + [11, 12, 13, 14, 15],
     bounds=['two descriptions and triples of them that differ from a built-in one in any one or two fields, texts of up to 3 (9) bytes there or missing, up to one family, two atomic sizes, any pointer width; target predicates, predicates, errors and tokens of every kind in pairs with texts of up to 4 (6) bytes, and long ones with 1 arbitrary byte'])
W25 = {0: (5, 7), 1: (3, 4), 2: (0, 3), 3: (5, 2), 4: (6, 7), 5: (5,), 6: (4, 7), 7: (2,), 8: (0,), 9: (0, 2), 10: (0,), 11: (0,)}
prop('C25',
     quick=each('h_whole', range(0, 7), range(0, 13), (0, 3, 4), 0, 0) + each('h_whole', 7, range(1, 4), range(0, 5), 0, 0) + each('h_whole', 9, range(0, 4), range(0, 5), 0, 0) + each('h_whole', (8, 10, 11), 0, range(0, 5), 0, 0)
     + each('h_whole', range(0, 7), (5,), (1, 2), 0, 0) + [('h_whole', [k, W25[k][0], s, l, W25[l][-1]]) for k in range(12) for l in range(12) for s in ((5, 6, 7, 8)[(k + l) % 4],)],
     thorough=each('h_whole', range(0, 7), range(13, 33), (0, 3, 4), 0, 0) + [('h_whole', [k, n, s, l, m]) for k in range(12) for l in range(12) for n in W25[k] for m in W25[l] for s in (5, 6, 7, 8)],
     covers=[1, 2, 3], checks=[4, 5],
     bounds=['each of the 282 targets the installed rustc still has; one option of each of 12 kinds with any value of up to 12 (32) bytes (widths up to 3 digits, atomic sizes up to 3), alone and in 5 surroundings; two options in 4 formulas with values of one length (two lengths) each; bool and Option<bool>'])
prop('C26',
     quick=each('h_messages', 0, (0, 1, 2, 3), (0, 1, 2)) + each('h_messages', 0, (4, 10), 1) + each('h_messages', 0, 2, (8, 20021)) + each('h_messages', 1, 0, 0) + each('h_messages', 1, 1, (0, 3, 39, 390, 3906, 39062500, (1 << 56) - 1)) + each('h_messages', 2, 0, 0) + each('h_messages', 3, (0, 3, 4, 6), 0) + each('h_messages', 4, (0, 1, 2, 3, 4, 5, 6, 7, 10, 13), 0),
     thorough=each('h_messages', 0, (1, 2, 3), (3, 4, 6)) + each('h_messages', 0, (5, 20), 2) + each('h_messages', 1, 2, 0) + each('h_messages', 3, (1, 2, 5, 7), 0) + each('h_messages', 4, (8, 9, 11, 12, 16, 20), 0),
     covers=[1, 2, 3, 4, 5], checks=list(range(1, 13)),
     bounds=['up to 3 items of up to 2 (6) arbitrary bytes other than a back-tick and a line break, up to 10 (20) of 1 (2) bytes, and long ones; counts below 256 and in six more such ranges up to 2^64 - 1 (all below 65536); every pair of 14 reasons; endianness names of up to 6 (7) bytes; unknown options of up to 13 (20) letters, digits and _ behind target_'])
prop('C27',
     quick=each('h_separate', (0, 2, 4), range(0, 11), (98,), 0) + each('h_separate', 1, range(0, 9), (98,), (0, 1, 2)) + each('h_separate', 3, range(0, 8), 98, 0) + each('h_separate', (0, 2, 4), (3, 7), (3, 97), 0) + each('h_separate', (0, 2, 4), (3, 7), 98, (1, 2)) + each('h_separate', (1, 3), (3, 6), (3, 5, 97), 0) + each('h_separate', (5, 6), 0, (3, 97, 98), (0, 1, 2)),
     thorough=each('h_separate', (0, 2, 4), range(11, 16), 98, 0) + each('h_separate', (0, 2, 4), range(0, 11), (97, 98), (1, 2)) + each('h_separate', 1, (9, 10), 98, (0, 1, 2)) + each('h_separate', 3, (8, 9, 10), 98, 0) + each('h_separate', (0, 1, 2, 4), range(0, 8), (3, 5, 97), 0) + each('h_separate', 3, range(0, 8), (1, 3, 5, 97), 0) + each('h_separate', (5, 6), 0, (1, 4, 5, 6, 7), (0, 1, 2)),
     covers=[1, 2], checks=[1],
     bounds=['pairs of triples with any of target-lexicon\'s architectures, systems, environments and formats, vendor unknown, nuttx, rtems, each listed one or any custom one of 3 or 5 (1-7) bytes; values of up to 10 (15) bytes, os up to 8 (10), vendor up to 7 (10)'])
