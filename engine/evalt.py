"""Value of a numeric term under an assignment of its atoms; None if some atom is unassigned."""
from terms import *
M64 = (1 << 64) - 1
MASK = {"u8": 0xff, "u16": 0xffff, "u32": 0xffffffff, "u64": M64, "usize": M64, "u128": (1 << 128) - 1}

OPS = {"Eq": lambda a, b: int(a == b), "Ne": lambda a, b: int(a != b), "Lt": lambda a, b: int(a < b), "Le": lambda a, b: int(a <= b),
       "Gt": lambda a, b: int(a > b), "Ge": lambda a, b: int(a >= b), "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b,
       "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b, "Shl": lambda a, b: a << b if b < 200 else None,
       "Shr": lambda a, b: a >> b, "Mul": lambda a, b: a * b, "Div": lambda a, b: a // b if b else None, "Rem": lambda a, b: a % b if b else None,
       "Not": lambda a: int(not a), "Neg": lambda a: -a}
PS = {"satsub": lambda a, b: max(a - b, 0), "satadd": lambda a, b: min(a + b, M64), "min": min, "max": max, "abs_diff": lambda a, b: abs(a - b),
      "div_ceil": lambda a, b: -(-a // b) if b else None, "wrapping_add": lambda a, b: (a + b) & M64, "wrapping_sub": lambda a, b: (a - b) & M64,
      "wrapping_mul": lambda a, b: (a * b) & M64, "is_multiple_of": lambda a, b: int(a % b == 0 if b else a == 0),
      "next_multiple_of": lambda a, b: -(-a // b) * b if b else None, "saturating_mul": lambda a, b: min(a * b, M64), "saturating_add": lambda a, b: min(a + b, M64)}

ASCII = {"is_ascii_hexdigit": b"0123456789abcdefABCDEF", "is_ascii_digit": b"0123456789", "is_ascii_lowercase": bytes(range(97, 123)), "is_ascii_uppercase": bytes(range(65, 91)),
         "is_ascii_alphabetic": bytes(range(97, 123)) + bytes(range(65, 91)), "is_ascii_alphanumeric": b"0123456789" + bytes(range(97, 123)) + bytes(range(65, 91)),
         "is_ascii_whitespace": b" \t\n\x0c\r", "is_ascii_control": bytes(range(32)) + b"\x7f", "is_ascii_graphic": bytes(range(33, 127)), "is_ascii": bytes(range(128)),
         "is_ascii_punctuation": bytes(x for x in range(33, 127) if not chr(x).isalnum())}

def num(t, env):
    if t in env: return env[t]
    k = t.k
    if k in ("int", "bool"): return t.a[0]
    if k == "cast":
        x = num(t.a[1], env)
        return None if x is None else x & MASK[t.a[0]] if t.a[0] in MASK else x
    if k == "op":
        xs = [num(y, env) for y in t.a[1:]]
        if t.a[0] == "BitAnd" and 0 in xs: return 0
        if None in xs: return None
        f = OPS.get(t.a[0])
        try: return None if f is None else f(*xs)
        except Exception: return None
    if k == "ovf":
        x = num(t.a[1], env); y = num(t.a[2], env)
        if x is None or y is None: return None
        z = {"Add": x + y, "Sub": x - y, "Mul": x * y}.get(t.a[0])
        return None if z is None else int(not 0 <= z <= MASK.get(t.a[3], M64))
    if k == "p" and t.a[0].split("::")[-1] in PS and len(t.a[1]) == 2:
        xs = [num(y, env) for y in t.a[1]]
        if None in xs: return None
        return PS[t.a[0].split("::")[-1]](*xs)
    if k == "p" and t.a[0].split("::")[-1] in ASCII and len(t.a[1]) == 1:
        x = num(t.a[1][0], env)
        return None if x is None or not 0 <= x <= 255 and t.a[0].startswith("u8") else int(0 <= x <= 127 and x in ASCII[t.a[0].split("::")[-1]])
    if k == "p" and t.a[0].split("::")[-1] in ("to_ascii_lowercase", "to_ascii_uppercase") and len(t.a[1]) == 1:
        x = num(t.a[1][0], env)
        return None if x is None else x + 32 if 65 <= x <= 90 and "lower" in t.a[0] else x - 32 if 97 <= x <= 122 and "upper" in t.a[0] else x
    return None

def holds(t, v, env):
    """does fact t == v hold? None if unknown"""
    if t.k == "ne":
        x = num(t.a[0], env)
        return None if x is None else x not in v
    x = num(t, env)
    return None if x is None else x == v

# ---------------------------------------------------------------- comparators, evaluated on pairs of names
NAMES = [b"a", b"b", b"B", b"Z", b"ab", b"aa", b"a.b", b"a-b", b"a0", b"10", b"9", b"_", b"a b", b"a\xff", b"\xc3\xa9", b"\xff", b"\xfe", b"\xed\xa0\x80", b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab",
         b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", b"a\n", b".a", b"..a", b"A", b"caf\xc3\xa9", b"cafe", b"a\x01", b"\xe2\x84\xaa"]

def val(t, env):
    """number, bytes, tuple or ('ord', -1/0/1) of a term; None if unknown"""
    if t in env: return env[t]
    k = t.k
    if k in ("int", "bool"): return t.a[0]
    if k == "bytes": return t.a[0]
    if k == "agg":
        if t.a[0].endswith("cmp::Ordering"): return ("ord", t.a[1] - 1)
        xs = [val(y, env) for y in t.a[2]]
        return None if None in xs else (t.a[1],) + tuple(xs)
    if k == "len":
        x = val(t.a[0], env)
        return len(x) if isinstance(x, bytes) else None
    if k == "p":
        n = t.a[0]; xs = [val(y, env) for y in t.a[1]]
        if n == "entry_name" and len(xs) == 1: return env.get(t.a[1][0]) if xs[0] is None else xs[0]
        if None in xs: return None
        if n == "lossy" and isinstance(xs[0], bytes): return xs[0].decode("utf8", "replace").encode()
        if n in ("lower", "to_lowercase", "make_ascii_lowercase", "to_ascii_lowercase") and isinstance(xs[0], bytes): return xs[0].lower()
        if n in ("upper", "to_uppercase", "to_ascii_uppercase") and isinstance(xs[0], bytes): return xs[0].upper()
        if n == "utf8" and isinstance(xs[0], bytes):
            try: xs[0].decode("utf8"); return 1
            except UnicodeDecodeError: return 0
        if n.startswith("cmp:") and len(xs) == 2 and type(xs[0]) == type(xs[1]):
            return ("ord", (xs[0] > xs[1]) - (xs[0] < xs[1]))
        return num(t, env)
    if k == "disc":
        x = val(t.a[0], env)
        return x[1] % 256 if isinstance(x, tuple) and x[0] == "ord" else x[0] if isinstance(x, tuple) and isinstance(x[0], int) else None
    if k == "op" and len(t.a) == 3:
        xs = [val(y, env) for y in t.a[1:]]
        if None in xs or type(xs[0]) != type(xs[1]): return None
        if t.a[0] == "Cmp": return ("ord", (xs[0] > xs[1]) - (xs[0] < xs[1]))
        if t.a[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"): return OPS[t.a[0]](xs[0], xs[1])
        return num(t, env) if isinstance(xs[0], int) else None
    if k == "op" and t.a[0] == "Not":
        x = val(t.a[1], env)
        return None if x is None else int(not x)
    if k == "cat":
        xs = [val(y, env) for y in t.a[0]]
        return None if None in xs or not all(isinstance(x, bytes) for x in xs) else b"".join(xs)
    return num(t, env)

def fact(t, v, env):
    if t.k == "ne":
        x = val(t.a[0], env)
        return None if x is None else x not in v and not (isinstance(x, int) and x < 0 and x % 256 in v)
    x = val(t, env)
    return None if x is None else x == v or isinstance(x, int) and x < 0 and x % 256 == v

def order_of(rs, pa, pb):
    """'asc' / 'desc' / (a, b) two names compared otherwise / None when not understood.  rs: [(facts, value)] of a
    comparator over the elements pa and pb; the names are those of one pair of corresponding components"""
    got = []
    rest = []
    for facts, v in rs:
        for t in list(facts) + [v]:
            for x in find(t, lambda z: z.k == "param" and z.a[0] in ("A", "B")):
                if x not in pa and x not in pb and x not in rest: rest.append(x)
    if len(rest) > 4: return None
    for i, na in enumerate(NAMES):
        for nb in NAMES:
          for bits in (range(1 << len(rest)) if i < 3 else (0,)):
            env = {x: na for x in pa}; env.update({x: nb for x in pb})
            env.update({x: bits >> j & 1 for j, x in enumerate(rest)})
            res = None
            for facts, v in rs:
                hs = [fact(t, x, env) for t, x in facts.items()]
                if False in hs: continue
                if None in hs: return None
                r = val(v, env)
                if not (isinstance(r, tuple) and r[0] == "ord"): return None
                res = r[1]; break
            if res is None: return None
            if na == nb and rest: continue
            got.append((na, nb, res))
    if all(r == (a > b) - (a < b) for a, b, r in got): return "asc"
    if all(r == (b > a) - (b < a) for a, b, r in got): return "desc"
    if all(r == 0 for a, b, r in got): return (b"a", b"b")
    for d in (1, -1):
        bad = [(a, b) for a, b, r in got if r != d * ((a > b) - (a < b))]
        if d == 1: b1 = bad
        elif len(bad) < len(b1): b1 = bad
    return b1[0]
