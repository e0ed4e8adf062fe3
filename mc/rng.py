"""Control of the global numpy random stream: the next 624 32-bit words are chosen by the explorer."""
import numpy as np

M = 0xFFFFFFFF


def _undo_right(y, s):
    x = y
    for _ in range(32 // s + 1):
        x = y ^ (x >> s)
    return x & M


def _undo_left(y, s, mask):
    x = y
    for _ in range(32 // s + 1):
        x = y ^ ((x << s) & mask)
    return x & M


def untemper(y):
    y = _undo_right(y, 18)
    y = _undo_left(y, 15, 0xEFC60000)
    y = _undo_left(y, 7, 0x9D2C5680)
    return _undo_right(y, 11)


_cache = {}


def set_words(words):
    """the next 624 words of np.random are words, repeated cyclically"""
    words = tuple(words)
    key = _cache.get(words)
    if key is None:
        un = {w: untemper(w) for w in set(words)}
        key = np.array([un[words[i % len(words)]] for i in range(624)], dtype=np.uint32)
        if len(_cache) < 4096:
            _cache[words] = key
    np.random.set_state(('MT19937', key, 0, 0, 0.0))


def nib(j):
    """word whose high and low bits both encode j in 0..15"""
    return (j & 15) * 0x11111111


def selftest():
    set_words([5, 0xDEADBEEF, 77])
    got = np.random.randint(0, 2 ** 32, size=6, dtype=np.uint32)
    assert got.tolist() == [5, 0xDEADBEEF, 77, 5, 0xDEADBEEF, 77], got
