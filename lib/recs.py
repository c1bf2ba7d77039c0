# -*- coding: utf-8 -*-
"""concrete side of spec/RecordStream.tla"""
import struct

from . import docs

_pat = bytes((i * 89 + (i >> 8) * 31 + 7) & 0xff for i in range(1 << 17))


def payload(i, size, salt=0):
    o = (i * 4099 + salt * 257) % 5000
    return _pat[o:o + size]


def build(h, w):
    """the spec's header words + payloads -> (bytes, [payload])"""
    out, ps = [], []
    for i, (lo, hi, ext, slo, shi) in enumerate(h):
        out.append(struct.pack('<HH', lo, hi))
        if ext:
            out.append(struct.pack('<HH', slo, shi))
        p = payload(i, w[i][2])
        ps.append(p)
        out.append(p)
    return b''.join(out), ps


def proj(r):
    """projection of a record of the real code"""
    return (r['seqno'], r['tagid'], r['level'], r['size'], bytes(r['payload']))


def expected(w, ps, idx):
    return [(i, w[i][0], w[i][1], w[i][2], ps[i]) for i in idx]


def record_run(id, data, read, encode):
    """record a run of the real reader over `data`.  read(data) is an iterator of
    records; encode(record) -> bytes"""
    evs = []
    end = 'end'
    # offsets come from an independent parse; the specification re-derives them
    table, rest = docs.parse_recs(data)
    offs = [t[0] for t in table]
    it = iter(read(data))
    pos = 0
    n = 0
    while True:
        try:
            r = next(it)
        except StopIteration:
            break
        except Exception as e:
            end = 'error'
            break
        p = bytes(r['payload'])
        off = offs[n] if n < len(offs) else rest
        hl = table[n][1] if n < len(table) else 4
        size = r['size']
        b = list(data[off:off + 8])
        b += [0] * (8 - len(b))
        try:
            again = encode(r)
        except Exception:
            again = None
        evs.append(dict(off=off, b=b, tag=r['tagid'], level=r['level'], size=size,
                        n=len(p), seq=r.get('seqno', -1),
                        same=(p == data[off + hl:off + hl + len(p)]),
                        again=(again == data[off:off + hl + len(p)])))
        n += 1
        if n > 200000:
            break
    tail = list(data[rest:rest + 8])
    tail += [0] * (8 - len(tail))
    return dict(id=id, total=len(data), evs=evs, tail=tail, end=end)
