"""Stand-ins for io.StringIO and the writer of codecs.getwriter()."""


class StringIO:

    def __init__(self, initial='', newline=None):
        self.initial = initial

    def write(self, s):
        sink_write(self, s)
        return len(s)

    def getvalue(self):
        return sink_value(self)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, exc_type, value, traceback):
        pass
