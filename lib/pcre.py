"""What a regular expression matches: PCRE2 itself, used directly."""
import ctypes
import ctypes.util
import re
import signal

_lib = None


def _load():
    global _lib
    if _lib is None:
        lib = ctypes.CDLL("libpcre2-8.so.0")
        lib.pcre2_compile_8.restype = ctypes.c_void_p
        lib.pcre2_compile_8.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_uint32, ctypes.c_void_p,
                                        ctypes.c_void_p, ctypes.c_void_p]
        lib.pcre2_code_free_8.argtypes = [ctypes.c_void_p]
        lib.pcre2_match_data_create_from_pattern_8.restype = ctypes.c_void_p
        lib.pcre2_match_data_create_from_pattern_8.argtypes = [ctypes.c_void_p, ctypes.c_void_p]
        lib.pcre2_match_data_free_8.argtypes = [ctypes.c_void_p]
        lib.pcre2_match_8.restype = ctypes.c_int
        lib.pcre2_match_8.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_size_t, ctypes.c_uint32,
                                      ctypes.c_void_p, ctypes.c_void_p]
        lib.pcre2_match_context_create_8.restype = ctypes.c_void_p
        lib.pcre2_match_context_create_8.argtypes = [ctypes.c_void_p]
        lib.pcre2_set_match_limit_8.argtypes = [ctypes.c_void_p, ctypes.c_uint32]
        lib.mc = lib.pcre2_match_context_create_8(None)
        # Patterns which need more than this are not of interest.
        lib.pcre2_set_match_limit_8(lib.mc, 5000)
        _lib = lib
    return _lib


class Invalid(Exception):
    pass


class Limit(Exception):
    pass


class Regex:
    def __init__(self, pattern):
        self.code = self.md = None
        lib = _load()
        err, off = ctypes.c_int(), ctypes.c_size_t()
        self.code = lib.pcre2_compile_8(pattern, len(pattern), 0, ctypes.byref(err), ctypes.byref(off), None)
        if not self.code:
            raise Invalid(pattern)
        self.md = lib.pcre2_match_data_create_from_pattern_8(self.code, None)

    def search(self, data):
        rc = _lib.pcre2_match_8(self.code, data, len(data), 0, 0, self.md, _lib.mc)
        if rc == -1:
            return False
        if rc < 0:
            raise Limit(rc)
        return True

    def __del__(self):
        if self.md:
            _lib.pcre2_match_data_free_8(self.md)
        if self.code:
            _lib.pcre2_code_free_8(self.code)


class PyRegex:
    """The same for patterns whose meaning is the same in Python, as an independent opinion."""

    def __init__(self, pattern):
        self.re = re.compile(pattern)

    def search(self, data):
        # Python never gives up by itself.
        def stop(*_):
            raise Limit("time")

        old = signal.signal(signal.SIGALRM, stop)
        signal.setitimer(signal.ITIMER_REAL, 0.5)
        try:
            return self.re.search(data) is not None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)


def available():
    try:
        _load()
        return True
    except OSError:
        return False


def atom(rng, words, simple):
    x = rng.random()
    if x < 0.45:
        w = rng.choice(words)
        return re.escape(w)
    if x < 0.6:
        return rng.choice([b".", b"\\s", b"\\S", b"\\w", b"\\d", b"\\W", b"[a-m]", b"[^a-m]", b"[^x]", b"[ \\n]", b"\\n",
                           b"[^\\n]", b"\\x66", b"\\xc3", b"[\\x80-\\xff]", b"\\t"])
    if x < 0.68:
        return rng.choice([b"\\b", b"^", b"$", b"\\A"] + ([] if simple else [b"\\B", b"\\Z", b"\\z", b"\\R", b"\\K", b"\\h"]))
    if x < 0.8:
        return b"(?:" + alt(rng, words, simple, 2) + b")"
    if x < 0.86:
        return b"(?=" + rng.choice(words)[:3].replace(b"\\", b"").replace(b"(", b"").replace(b"[", b"").replace(b"*", b"") + b")"
    if x < 0.9:
        return b"(?!" + re.escape(rng.choice(words)) + b")"
    if x < 0.95:
        return rng.choice([b"(a)(?:\\1)", b"(.)(?:\\1)", b"(\\w+) (?:\\1)"])
    return rng.choice(words)[:1].replace(b"\\", b"x").replace(b"(", b"x").replace(b"[", b"x").replace(b"*", b"x") or b"a"


def seqp(rng, words, simple, n):
    out = b""
    for _ in range(rng.randrange(1, n + 1)):
        a = atom(rng, words, simple)
        if a not in (b"^", b"$", b"\\b", b"\\B", b"\\A", b"\\Z", b"\\z", b"\\K") and rng.random() < 0.25:
            a = b"(?:" + a + b")" + rng.choice([b"*", b"+", b"?", b"{2}", b"{1,3}", b"*?"] + ([] if simple else [b"++"]))
        out += a
    return out


def alt(rng, words, simple, n=3):
    return b"|".join(seqp(rng, words, simple, n) for _ in range(rng.choice([1, 1, 2, 3])))


def pattern(rng, words):
    """Returns (pattern, whether Python reads it in the same way)."""
    x = rng.random()
    if x < 0.35:
        return re.escape(rng.choice(words)), True
    simple = rng.random() < 0.7
    p = alt(rng, words, simple)
    f = rng.choice([b"", b"", b"", b"(?i)", b"(?s)", b"(?m)", b"(?is)", b"(?x)" if not simple else b""])
    if f == b"(?m)":
        simple = False  # Python has another opinion about ^ after the last newline
    return f + p, simple
