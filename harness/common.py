"""Helpers shared by the harnesses (instrumented like the code under test)."""


class PipeInput:
    """A non-seekable input: read(n) returns n bytes unless at the end."""

    def __init__(self, data):
        self.data = data
        self.pos = 0

    def read(self, n):
        d = self.data[self.pos:self.pos + n]
        self.pos += len(d)
        return d

    def close(self):
        pass


def pipe_stream(data, block=None, keep=None):
    """InputIOStream of unknown size over a pipe, with small cache blocks."""
    from hachoir.stream import InputIOStream
    from hachoir.stream.input import InputPipe

    s = InputIOStream(PipeInput(data))
    if block is not None:
        s._input.buffer_size = block
    if keep is not None:
        s._input.buffer_nb_min = keep
    assert isinstance(s._input, InputPipe)
    return s


def make_stream(kind, data):
    from io import BytesIO
    from hachoir.stream import StringInputStream, InputIOStream, InputSubStream
    if kind == "string":
        return StringInputStream(data)
    if kind == "io":
        return InputIOStream(BytesIO(data))
    if kind == "pipe":
        return pipe_stream(data)
    if kind == "smallpipe":
        return pipe_stream(data, 2, 2)
    if kind == "sub":
        return InputSubStream(StringInputStream(b"\xa5\x5a" + data + b"\x77"), 16, 8 * len(data))
    raise ValueError(kind)


def quiet_parser(endian, create, stream, **attrs):
    """A parser whose fields come from create(parser)."""
    from hachoir.parser import Parser

    class P(Parser):
        PARSER_TAGS = {"id": "x", "min_size": 8, "description": "x"}

        def createFields(self):
            return create(self)

        def validate(self):
            return True
    P.endian = endian
    for k, v in attrs.items():
        setattr(P, k, v)
    return P(stream)


def make_root(env, data, endian):
    """An empty parser of the data: a parent for single fields."""
    from hachoir.stream import StringInputStream
    return quiet_parser(endian, lambda self: iter(()), StringInputStream(data))
