"""Data format parameters from ELF files."""
import io
from detools import create
from detools.data_format.elf import from_file
from detools.errors import Error
from .h_df import le, plan, scramble

TYPES = ['STT_FUNC', 'STT_OBJECT', 'STT_NOTYPE']


def section(name, addr, size, offset, data=None, kind='SHT_PROGBITS', **kw):
    return dict(name=name, addr=addr, size=size, offset=offset, data=data, type=kind, **kw)


def tables(symbols):
    """The symbol table and its strings."""
    return [dict(name='.symtab', addr=0, size=16 * len(symbols), offset=0, type='SHT_SYMTAB', entsize=16, link=0, symbols=symbols),
            dict(name='.strtab', addr=0, size=0, offset=0, type='SHT_STRTAB')]


def link(sections):
    for d in sections:
        if 'symbols' in d:
            d['link'] = [x['name'] for x in sections].index('.strtab')
    return sections


def runs(symbols, begin, end):
    """(type, begin, end) of consecutive symbols of one type in a section."""
    inside = [x for x in symbols if begin <= x['value'] < end and x['type'] != 'STT_NOTYPE' and x['size'] != 0]
    left = list(inside)
    order = []
    while left:
        low = left[0]
        for x in left:
            if x['value'] < low['value']:
                low = x
        order.append(low)
        left = [x for x in left if x is not low]
    r = []
    for x in order:
        if r and r[-1][0] == x['type']:
            r[-1][2] = x['value'] + x['size']
        else:
            r.append([x['type'], x['value'], x['value'] + x['size']])
    return r


def ranges(S, N, SECTIONS, WHERE):
    """Symbols anywhere that do not overlap: the code and data ranges found."""
    secs = S.choice('sections', SECTIONS)
    areas = [(a, a + n) for a, n in secs]
    symbols = []
    for k in range(N):
        a, b = areas[S.choice('in%d' % k, WHERE)]
        v = S.int('v%d' % k, a, b - 1)
        n = S.int('n%d' % k, 0, 40)
        S.assume(v + n <= b)
        symbols.append(dict(name='s%d' % k, value=v, size=n, type=S.choice('t%d' % k, TYPES)))
    for k, x in enumerate(symbols):
        for y in symbols[:k]:
            S.assume((x['value'] + x['size'] <= y['value']) | (y['value'] + y['size'] <= x['value']))
            S.assume(x['value'] != y['value'])
    f = S.elf(link([section('', 0, 0, 0, kind='SHT_NULL')]
                   + [section('.s%d' % k, a, b - a, 64, kind='SHT_NOBITS') for k, (a, b) in enumerate(areas)] + tables(symbols)))
    code, data = from_file(f)
    codes, datas = [], []
    for k, (a, b) in enumerate(areas):
        r = runs(symbols, a, b)
        fs = [x for x in r if x[0] == 'STT_FUNC']
        if fs:
            codes.append((fs[0][1], fs[-1][2], k + 1))
        datas += [(x[1], x[2], k + 1) for x in r if x[0] == 'STT_OBJECT']
    for got, cand, what in ((code, codes, 'code'), (data, datas, 'data')):
        if not cand:
            S.check(got.size == 0, 'no %s range without symbols' % what)
            continue
        S.check(any(got.begin == x[0] and got.end == x[1] and got.section_index == x[2] for x in cand),
                'the %s range is one of a section' % what)
        for x in cand:
            S.check(got.size >= x[1] - x[0], 'the %s range is the largest' % what)
    S.reach('%d code, %d data' % (min(len(codes), 1), min(len(datas), 1)))
    S.note(code.begin, code.end, data.begin, data.end)


def straddle(S):
    """An object that has code inside: its larger part outside the code is the data."""
    a, n = S.int('a', 0x1000, 0x1020), S.int('n', 1, 200)
    v, m = S.int('v', 0x1000, 0x10ff), S.int('m', 1, 200)
    S.assume((a + n <= 0x1100) & (v + m <= 0x1100) & (v >= a) & (v + m <= a + n) & (m < n))
    symbols = [dict(name='d', value=a, size=n, type='STT_OBJECT'), dict(name='f', value=v, size=m, type='STT_FUNC')]
    if S.choice('swap', [False, True]):
        symbols = symbols[::-1]
    empty = [dict(name='.symtab0', addr=0, size=0, offset=0, type='SHT_SYMTAB', entsize=16, link=0, symbols=[])]
    f = S.elf(link([section('', 0, 0, 0, kind='SHT_NULL'), section('.s', 0x1000, 0x100, 64, kind='SHT_NOBITS')]
                   + (empty if S.choice('empty', [False, True]) else []) + tables(symbols)))
    code, data = from_file(f)
    S.check((code.begin == v) & (code.end == v + m), 'the code range is one of a section')
    left, right = v - a, a + n - v - m
    if left > right:
        S.check((data.begin == a) & (data.end == v), 'the data range is the larger part outside the code')
        S.reach('before')
    elif left < right:
        S.check((data.begin == v + m) & (data.end == a + n), 'the data range is the larger part outside the code')
        S.reach('after')
    else:
        S.check(data.size == left, 'the data range is the larger part outside the code')
        S.reach('alike')
    S.note(code.begin, code.end, data.size)


def outside(S):
    """A symbol that is in no section that is loaded is noticed."""
    v = S.int('v', 0, 0xffff)
    f = S.elf(link([section('', 0, 0, 0, kind='SHT_NULL'), section('.text', 0x1000, 0x100, 64, kind='SHT_NOBITS'),
                    section('.debug', 0, 0x2000, 64, kind='SHT_NOBITS')]
                   + tables([dict(name='x', value=v, size=4, type=S.choice('t', TYPES))])))
    try:
        code, data = from_file(f)
        S.check((v >= 0x1000) & (v < 0x1100) | (code.size + data.size == 0), 'symbols in no section are noticed')
        S.reach('inside')
        S.note(code.size, data.size)
    except Error:
        S.check((v < 0x1000) | (v >= 0x1100), 'symbols in sections are accepted')
        S.reach('outside')


def offsets(S):
    """The command line finds the data segment in the binary file, or takes its offset."""
    n = 10
    pos = S.choice('pos', [0, 12, 64])
    where = S.choice('where', [0, 4])       # of the objects in their section
    give = S.choice('give', [False, True])
    out = S.choice('absent', [False, True])
    # Code that ends where the data section begins, and data after the objects that is not in the file.
    near = S.choice('near', [False, True])
    behind = bytes([0xdd] * 5) if near else b''
    fill, tail = bytes(64), S.bytes('x', 1) + bytes(3)
    debug = [section('.debug', 0, 0x4000, 0x3000, kind='SHT_NOBITS')] if S.choice('debug', [False, True]) else []
    S.plan(plan)
    args = []
    files, want = [], []
    for tag, salt in (('from', 0), ('to', 9)):
        seg = b''.join([le(0x2000 + (scramble(k + salt) & 31), 4) for k in range(n)])
        seg = le(S.int('p' + tag, 0x2000, 0x2000 + 4 * n - 1), 4) + seg[4:]
        file_offset = 0x40
        secdata = bytes([0xee] * where) + seg + behind
        text = 0x2000 - where - 64 if near else 0x1000
        S.put_elf(tag + '.elf', link([
            section('', 0, 0, 0, kind='SHT_NULL'), section('.text', text, 64, 0x100, bytes(64)),
            section('.data', 0x2000 - where, len(secdata), file_offset - where, secdata)]
            + debug + tables([dict(name='f', value=text + 8, size=16, type='STT_FUNC'), dict(name='g', value=text + 24, size=8, type='STT_FUNC'),
                      dict(name='d', value=0x2000, size=4 * n, type='STT_OBJECT')])))
        binary = fill[:pos] + seg + tail
        if out and tag == 'to':
            binary = binary[:pos] + b'\xff' + binary[pos + 1:]
        files.append(binary)
        S.put(tag, binary)
        args += ['--%s-elf-file' % tag, tag + '.elf']
        if give:
            args += ['--%s-elf-offset' % tag, hex(file_offset - pos)]
        want += [('%s data offsets' % tag.capitalize(), pos, pos + 4 * n), ('%s code addresses' % tag.capitalize(), text + 8, text + 32),
                 ('%s data addresses' % tag.capitalize(), 0x2000, 0x2000 + 4 * n)]
    lines, code = S.cli('create_patch', '-c', 'none', '--data-format', 'arm-cortex-m4', *args, 'from', 'to', 'patch')
    if out and not give:
        S.check(code is not None and str(code).startswith('error: '), 'data that is not in the file is noticed')
        S.reach('absent')
        return
    S.check(code is None, 'a patch is created')
    got = dict(x.split(':', 1) for x in lines if ':' in x)
    for k, a, b in want:
        x, y = got[k].strip().split('-')
        S.check(int(x, 0) == a and int(y, 0) == b, 'the ranges found are those of the data')
    fp = io.BytesIO()
    n4 = 4 * n
    create.create_patch(S.file(files[0]), S.file(files[1]), fp, 'none', data_format='arm-cortex-m4',
                        from_data_offset_begin=pos, from_data_offset_end=pos + n4, from_data_begin=0x2000,
                        from_data_end=0x2000 + n4, from_code_begin=text + 8, from_code_end=text + 32,
                        to_data_offset_begin=pos, to_data_offset_end=pos + n4, to_data_begin=0x2000,
                        to_data_end=0x2000 + n4, to_code_begin=text + 8, to_code_end=text + 32)
    S.check(S.get('patch') == fp.getvalue(), 'the patch is the one created with the ranges found')
    S.reach('given' if give else 'found')
    S.note(pos)
