"""The stand-in for a server in replays."""


class Response:
    def __init__(self, pieces):
        self.pieces = list(pieces)

    def _next(self):
        p = self.pieces.pop(0)
        if isinstance(p, Exception):
            raise p
        return p

    def read(self, n=-1):
        if n is None or n < 0:
            out = b""
            while self.pieces:
                out += self._next()
            return out
        while self.pieces:
            p = self.pieces[0]
            if isinstance(p, bytes) and len(p) > n:
                self.pieces[0] = p[n:]
                return p[:n]
            return self._next()
        return b""

    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
