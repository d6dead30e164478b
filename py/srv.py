"""Reads programs sent by the harness with the Python package and writes them again."""
import struct, sys, traceback
import native
native.load()
from hugr.envelope import EnvelopeConfig, EnvelopeFormat, make_envelope, read_envelope
F = {63: EnvelopeFormat.JSON, 1: EnvelopeFormat.MODEL, 2: EnvelopeFormat.MODEL_WITH_EXTS}
i, o = sys.stdin.buffer, sys.stdout.buffer
while True:
    h = i.read(16)
    if len(h) < 16: break
    n, fmt, z = struct.unpack('<QII', h)
    b = i.read(n)
    try:
        p = read_envelope(b)
        r = make_envelope(p, EnvelopeConfig(format=F[fmt], zstd=None if z == 0 else 0))
        k = 0
    except BaseException as e:
        r = (type(e).__name__ + ': ' + str(e) + ' @ ' + ' < '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-3:]))).encode()
        k = 1
    o.write(struct.pack('<QI', len(r), k)); o.write(r); o.flush()
