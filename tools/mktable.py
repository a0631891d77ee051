#!/usr/bin/env python3
"""Writes dst/model/cp949.bin from Python's own cp949 codec (independent of /repo):
128 x 256 little-endian uint16, entry [lead-0x80][trail], 0 = undefined."""
import struct, os
out = bytearray()
for lead in range(0x80, 0x100):
    for trail in range(0x100):
        v = 0
        try:
            s = bytes([lead, trail]).decode('cp949')
            if len(s) == 1: v = ord(s)
        except UnicodeDecodeError: pass
        out += struct.pack('<H', v)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../dst/model/cp949.bin'), 'wb').write(out)
