"""Independent reference model of the KATCP line syntax (written from the
specification, sharing nothing with katcp.core)."""

ESC = {0x5c: b'\\\\', 0x20: b'\\_', 0x00: b'\\0', 0x0a: b'\\n', 0x0d: b'\\r',
       0x1b: b'\\e', 0x09: b'\\t'}
UNESC = {ord('\\'): b'\\', ord('_'): b' ', ord('0'): b'\x00', ord('n'): b'\n',
         ord('r'): b'\r', ord('e'): b'\x1b', ord('t'): b'\t', ord('@'): b''}
TYPES = {ord('?'): 'request', ord('!'): 'reply', ord('#'): 'inform'}
SYM = {'request': b'?', 'reply': b'!', 'inform': b'#'}
ALPHA = frozenset(range(65, 91)) | frozenset(range(97, 123))
DIGIT = frozenset(range(48, 58))
NAMECH = ALPHA | DIGIT | frozenset([ord('-')])


class Bad(Exception):
    pass


def escape(arg):
    if not arg:
        return b'\\@'
    out = bytearray()
    for c in arg:
        if c in ESC:
            out += ESC[c]
        else:
            out.append(c)
    return bytes(out)


def encode(mtype, name, mid, args):
    out = SYM[mtype] + name.encode('ascii')
    if mid is not None:
        out += b'[' + mid + b']'
    for a in args:
        out += b' ' + escape(a)
    return out


def unescape(raw):
    out = bytearray()
    i, n = 0, len(raw)
    while i < n:
        c = raw[i]
        if c == 0x5c:
            i += 1
            if i >= n or raw[i] not in UNESC:
                raise Bad('escape')
            out += UNESC[raw[i]]
        elif c in ESC:
            raise Bad('special')
        else:
            out.append(c)
        i += 1
    return bytes(out)


def decode(line):
    """(mtype, name, mid, args) of a line, or raise Bad."""
    if not line:
        raise Bad('empty')
    if line[0] not in TYPES:
        raise Bad('type')
    words, cur = [], bytearray()
    i = 0
    n = len(line)
    # split into words on runs of blank / tab
    word_open = True
    while i < n:
        c = line[i]
        if c in (0x20, 0x09):
            words.append(bytes(cur))
            cur = bytearray()
            while i < n and line[i] in (0x20, 0x09):
                i += 1
            word_open = i < n
            continue
        cur.append(c)
        i += 1
    if word_open:
        words.append(bytes(cur))
    head = words[0][1:]
    mid = None
    j = 0
    if not head or head[0] not in ALPHA:
        raise Bad('name')
    while j < len(head) and head[j] in NAMECH:
        j += 1
    name = head[:j]
    rest = head[j:]
    if rest:
        if rest[0] != ord('[') or rest[-1] != ord(']') or len(rest) < 3:
            raise Bad('id')
        mid = rest[1:-1]
        if any(c not in DIGIT for c in mid):
            raise Bad('id')
    return (TYPES[line[0]], name.decode('ascii'), mid, [unescape(w) for w in words[1:]])


# ---- generators -----------------------------------------------------------
SPECIALS = [b'', b' ', b'\\', b'\\@', b'\\_', b'_', b'@', b'\x00', b'\n', b'\r', b'\r\n',
            b'\x1b', b'\t', b'\\n', b'\\\\', b' \\', b'\\ ', b'  ', b'[1]', b'?x', b'!', b'#',
            b'\xff', b'\xc3\xa9', b'\xe2\x82\xac', b'\xc3', b'\x80', b'\x85', b'\xa0', b'\x0b',
            b'\x0c', b'\x1c', b'\x7f', b'e', b'n', b'0', b't', b'r']


def gen_arg(rng, maxlen=24):
    k = rng.random()
    if k < 0.15:
        return rng.choice(SPECIALS)
    if k < 0.55:
        return b''.join(rng.choice(SPECIALS) for _ in range(rng.randrange(1, 7)))
    if k < 0.75:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(0, maxlen)))
    if k < 0.97:
        return bytes(rng.randrange(33, 127) for _ in range(rng.randrange(1, maxlen)))
    return bytes([rng.choice([0x5c, 0x20, 0x0a, 0x61, 0xff, 0x00])]) * rng.randrange(100, 3000)


NAME_FIRST = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
NAME_REST = NAME_FIRST + '0123456789--'


def gen_name(rng):
    return rng.choice(NAME_FIRST) + ''.join(
        rng.choice(NAME_REST) for _ in range(rng.choice([0, 1, 2, 5, 12, 60])))


def gen_mid(rng):
    k = rng.random()
    if k < 0.35:
        return None
    return str(rng.choice([0, 1, 7, 10, 99, 2**31 - 1, 2**31, 2**64, rng.randrange(10**9),
                           10**30])).encode() if k < 0.9 else b'00' + str(rng.randrange(100)).encode()


def gen_msg(rng, maxargs=6):
    return (rng.choice(['request', 'reply', 'inform']), gen_name(rng), gen_mid(rng),
            [gen_arg(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, maxargs]))])
