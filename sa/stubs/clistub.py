"""Stand-ins for the arguments and the output streams of the command line."""


class Args:

    def __init__(self, input, path, full_traceback):
        self.input = input
        self.output = 'text'
        self.silence = None
        self.fail_on = None
        self.full_traceback = full_traceback
        self.path = path


class Out:

    def __init__(self):
        self.said = []
        self.buffer = self

    def write(self, data):
        self.said.append(data)

    def flush(self):
        pass

    def close(self):
        pass
