"""Calls into the natively compiled harness (libh.so), in a child process.

A call that panics aborts the child (the harness is built with panic=abort);
such a call is reported as 'abort'.
"""
import ctypes
import os
import pickle
import select
import signal
import struct
import time

M64 = (1 << 64) - 1


def _buf(words):
    """16-byte aligned buffer of 128-bit words"""
    raw = (ctypes.c_uint64 * (2 * len(words) + 2))()
    ad = ctypes.addressof(raw)
    off = (-ad) % 16 // 8
    for i, v in enumerate(words):
        raw[off + 2 * i] = v & M64
        raw[off + 2 * i + 1] = (v >> 64) & M64
    return raw, off


def _ptr(b):
    return ctypes.c_void_p(ctypes.addressof(b[0]) + 8 * b[1])


def _call(lib, name, ins, outs):
    """ins: list of ('w', [int128...]) | ('v', int, bits) | ('b', bytes);
    outs: list of sizes in bytes.  Returns (ret, [ints: little-endian])"""
    ob = [_buf([0] * ((n + 15) // 16)) for n in outs]
    args = [_ptr(b) for b in ob]
    keep = []
    for x in ins:
        if x[0] == 'w':
            b = _buf(x[1])
            keep.append(b)
            args.append(_ptr(b))
        elif x[0] == 'v':
            n = x[2]
            if n == 128:
                args.append(ctypes.c_uint64(x[1] & M64))
                args.append(ctypes.c_uint64(x[1] >> 64))
            else:
                args.append({64: ctypes.c_uint64, 32: ctypes.c_uint32,
                             16: ctypes.c_uint16, 8: ctypes.c_uint8,
                             }[n](x[1]))
        elif x[0] == 'f32':
            args.append(ctypes.c_float(
                struct.unpack('<f', struct.pack('<I', x[1]))[0]))
        elif x[0] == 'b':
            b = ctypes.create_string_buffer(bytes(x[1]), max(1, len(x[1])))
            keep.append(b)
            args.append(ctypes.c_void_p(ctypes.addressof(b)))
    f = getattr(lib, name)
    f.restype = ctypes.c_uint32
    ret = f(*args)
    res = []
    for (raw, off), n in zip(ob, outs):
        v = 0
        for i in range((n + 7) // 8):
            v |= raw[off + i] << (64 * i)
        res.append(v & ((1 << (8 * n)) - 1))
    return ret, res


def run(libpath, calls, timeout=60):
    """calls: list of (name, ins, outs); result list: (ret, outs) | 'abort' |
    'hang'"""
    out = []
    todo = list(calls)
    while todo:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 2)
                lib = ctypes.CDLL(libpath)
                with os.fdopen(w, 'wb') as f:
                    for c in todo:
                        d = pickle.dumps(_call(lib, *c))
                        f.write(struct.pack('<I', len(d)) + d)
                        f.flush()
            finally:
                os._exit(0)
        os.close(w)
        data = b''
        end = time.time() + timeout
        hang = False
        while True:
            left = end - time.time()
            if left <= 0:
                hang = True
                os.kill(pid, signal.SIGKILL)
                break
            if select.select([r], [], [], left)[0]:
                d = os.read(r, 1 << 16)
                if not d:
                    break
                data += d
        os.close(r)
        os.waitpid(pid, 0)
        n = 0
        while len(data) >= 4:
            k, = struct.unpack('<I', data[:4])
            if len(data) < 4 + k:
                break
            out.append(pickle.loads(data[4:4 + k]))
            data = data[4 + k:]
            n += 1
        todo = todo[n:]
        if todo:
            out.append('hang' if hang else 'abort')
            todo = todo[1:]
    return out
