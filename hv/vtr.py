"""Minimal reader of VTK RectilinearGrid files (appended raw or inline ascii),
written from the VTK file format description."""
import re
import numpy as np

T = {'Float64': '<f8', 'Float32': '<f4', 'Int32': '<i4', 'Int64': '<i8', 'UInt8': 'u1', 'Int8': 'i1', 'Int16': '<i2', 'UInt32': '<u4',
     'UInt16': '<u2', 'UInt64': '<u8'}


def read(fn):
    """((x, y, z) coordinates, {name: array of shape (nx, ny, nz)})"""
    raw = open(fn, 'rb').read()
    i = raw.find(b'<AppendedData')
    head = raw[:i].decode('latin1')
    j = raw.find(b'_', raw.find(b'>', i)) + 1
    big = 'byte_order="BigEndian"' in head
    hdr = re.search(r'header_type="(\w+)"', head)
    hs = np.dtype(T[hdr.group(1)] if hdr else '<u4')
    ext = [int(v) for v in re.search(r'<RectilinearGrid[^>]*WholeExtent="([^"]*)"', head).group(1).split()]
    shape = (ext[1] - ext[0], ext[3] - ext[2], ext[5] - ext[4])

    def arrays(tag):
        m = re.search(r'<%s.*?</%s>' % (tag, tag), head, re.S)
        out = []
        if not m:
            return out
        for a in re.finditer(r'<DataArray([^>]*)>', m.group(0)):
            at = dict(re.findall(r'(\w+)="([^"]*)"', a.group(1)))
            dt = np.dtype(T[at['type']])
            h = hs
            if big:
                dt, h = dt.newbyteorder('>'), h.newbyteorder('>')
            p = j + int(at['offset'])
            nb = int(np.frombuffer(raw, h, 1, p)[0])
            v = np.frombuffer(raw, dt, nb // dt.itemsize, p + h.itemsize)
            out.append((at.get('Name'), int(at.get('NumberOfComponents', 1) or 1), v.astype(dt.newbyteorder('='))))
        return out
    co = [v for _, _, v in arrays('Coordinates')]
    cells = {n: v.reshape(shape, order='F') for n, nc, v in arrays('CellData')}
    return co, cells
