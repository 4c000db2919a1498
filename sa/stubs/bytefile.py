"""A stand-in for a file of bytes: a script of lines and blocks, of which
some may also be read as one block of unknown length."""


class File:

    def __init__(self, script, ends):
        self.script = script
        self.ends = ends            # where a block of unknown length ends
        self.i = 0

    def tell(self):
        return self.i

    def peek(self, n=1):
        if self.i < len(self.script):
            return self.script[self.i]
        return b''

    def readline(self, limit=-1):
        if self.i >= len(self.script):
            return b''
        r = self.script[self.i]
        self.i += 1
        return r

    def read(self, n=-1):
        if self.i >= len(self.script):
            return b''
        pos = self.i
        how = bytefile_kind(n)
        if how == 'none':
            return b''
        if how == 'all':
            self.i = len(self.script)
            return bytefile_rest(self, pos)
        if how == 'some':
            self.i = self.ends.get(pos, pos + 1)
            return bytefile_block(self, pos)
        self.i += 1
        return self.script[pos]

    def close(self):
        pass


class Flat:

    """A file of known bytes."""

    def __init__(self, data):
        self.data = data
        self.pos = 0

    def tell(self):
        return self.pos

    def peek(self, n=1):
        return self.data[self.pos:]

    def readline(self, limit=-1):
        end = self.data.find(b'\n', self.pos)
        end = len(self.data) if end < 0 else end + 1
        if 0 <= limit < end - self.pos:
            end = self.pos + limit
        r = self.data[self.pos:end]
        self.pos = end
        return r

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data)
        r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def close(self):
        pass
