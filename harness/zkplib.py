"""Ideal encodings of zkp/ideal_zkp.c, for crafting inputs (not an oracle)."""
import hashlib
import os
import struct

import elementstx
from elementstx.core.secp256k1 import get_secp256k1

N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141


def use_ideal():
    so = os.environ['VERIF_ZKP']
    elementstx.set_custom_secp256k1_path(so)
    assert get_secp256k1().cap.has_zkp


def tag(label, *parts):
    return hashlib.sha256(label.encode() + b''.join(parts)).digest()


def point(prefix, h):
    return bytes([prefix | (h[31] & 1), h[0] & 0x7f]) + h[1:]


def gen_of(asset, abf=bytes(32)):
    return point(10, tag('ideal/gen', asset, abf))


def com_of(gen, v, bf):
    return point(8, tag('ideal/com', gen, struct.pack('>Q', v), bf))


def rp_of(v, bf, msg, nonce, com, gen, script, mn=1, exp=0, bits=52):
    head = (b'RP' + bytes([exp + 1, bits]) + struct.pack('>QQ', mn, v) + bf
            + struct.pack('>H', len(msg)) + msg + tag('ideal/nc', nonce))
    return head + tag('ideal/rp', head, com, gen, script)
