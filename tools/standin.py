"""Encodes the stand-in for a deployed contract that the replay program uploads: initialize(7 values) records its arguments."""
import sys
def leb(n):
    o = b''
    while True:
        b = n & 127
        n >>= 7
        if n: o += bytes([b | 128])
        else: return o + bytes([b])
def sleb(n):
    o = b''
    while True:
        b = n & 127
        n >>= 7
        if (n == 0 and not b & 64) or (n == -1 and b & 64): return o + bytes([b])
        o += bytes([b | 128])
def vec(xs): return leb(len(xs)) + b''.join(xs)
def name(s): return leb(len(s)) + s.encode()
def sec(i, b): return bytes([i]) + leb(len(b)) + b
I64 = b'\x7e'
types = [b'\x60' + vec([I64] * 3) + vec([I64]), b'\x60' + vec([I64] * 7) + vec([I64])]
body = b''
for i in range(7):
    body += b'\x42' + sleb((i << 32) | 4) + b'\x20' + leb(i) + b'\x42' + sleb(1) + b'\x10\x00\x1a'
body += b'\x42' + sleb(2) + b'\x0b'
code = leb(0) + body
wasm = b'\0asm\x01\0\0\0'
wasm += sec(1, vec(types))
wasm += sec(2, vec([name('l') + name('_') + b'\x00\x00']))
wasm += sec(3, vec([leb(1)]))
wasm += sec(7, vec([name('initialize') + b'\x00' + leb(1)]))
wasm += sec(10, vec([leb(len(code)) + code]))
wasm += sec(0, name('contractenvmetav0') + (0).to_bytes(4, 'big') + (20 << 32).to_bytes(8, 'big'))
import hashlib
open(sys.argv[1], 'wb').write(wasm)
print(len(wasm), hashlib.sha256(wasm).hexdigest())
