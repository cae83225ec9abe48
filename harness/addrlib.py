"""Address classes by chain, kind and confidentiality."""
import elementstx.wallet as W

KINDS = ('p2pkh', 'p2sh', 'p2wpkh', 'p2wsh', 'p2tr')
PLEN = {'p2pkh': 20, 'p2sh': 20, 'p2wpkh': 20, 'p2wsh': 32, 'p2tr': 32}
CHAINS = ('elements', 'elements/liquidv1')


def cls(chain, kind, conf):
    mid = {'elements': 'Elements', 'elements/liquidv1': 'ElementsLiquidV1'}[chain]
    return getattr(W, kind.upper().replace('P2', 'P2') + mid
                   + ('Confidential' if conf else '') + 'Address')


def pub(g):
    from bitcointx.core.key import CKey
    while True:
        try:
            return bytes(CKey.from_secret_bytes(g.b(32)).pub)
        except ValueError:
            continue


def make(g, chain, kind, conf):
    """A random address of the given sort (class method from_bytes)."""
    c = cls(chain, kind, conf)
    data = g.b(PLEN[kind]) if kind != 'p2tr' else pub(g)[1:]
    if conf:
        data = pub(g) + data
    return c.from_bytes(data), c


def payload(a, conf):
    return bytes(a)[33:] if conf else bytes(a)
