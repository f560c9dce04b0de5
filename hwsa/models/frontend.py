"""Models of the collaborators of the logic analyser frontends.  Interpreted by hwsa.pyabs, never imported."""


class Shape:
    def __init__(self, width=1, signed=False):
        self.width = width
        self.signed = signed


class Signal:
    def __init__(self, shape=None, *, name=None):
        if shape is None:
            shape = 1
        if not isinstance(shape, Shape):
            shape = Shape(shape, False)
        self.name = name
        self.width = shape.width
        self.signed = shape.signed
        self.nbits = shape.width

    def shape(self):
        return Shape(self.width, self.signed)

    def __len__(self):
        return self.width


class Cat:
    def __init__(self, *parts):
        self.n = 0
        for p in parts:
            for q in (p if isinstance(p, (list, tuple)) else [p]):
                self.n = self.n + len(q)

    def __len__(self):
        return self.n


class Core:
    pass


class Port:
    """a serial line on which one capture at a time arrives"""
    def __init__(self, *args, **kwargs):
        self.args = args
        self.kwargs = kwargs
        self.pending = b""
        self.is_open = True
        WORLD.ports.append(self)

    def arrive(self, data):
        self.pending = data

    @property
    def in_waiting(self):
        return len(self.pending)

    def reset_input_buffer(self):
        self.pending = b""

    def read(self, size=1):
        data = self.pending[:size]
        self.pending = self.pending[size:]
        return data

    def flush(self):
        pass

    def close(self):
        self.is_open = False


class File:
    def __init__(self, name, mode):
        self.name = name
        self.mode = mode
        self.object = None
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.closed = True

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def write(self, text):
        pass


def open(name, mode="r", *args, **kwargs):
    if name in WORLD.files and mode[0] == "r":
        f = File(name, mode)
        f.object = WORLD.files[name].object
        return f
    f = File(name, mode)
    WORLD.files[name] = f
    return f


def dump(obj, f):
    f.object = obj


class VCDWriter:
    def __init__(self, file, timescale="1 us", date=None, *args, **kwargs):
        self.file = file
        self.timescale = timescale
        self.variables = []
        self.changes = []
        self.closed = False
        WORLD.writers.append(self)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.closed = True

    def close(self, timestamp=None):
        self.closed = True

    def flush(self, timestamp=None):
        pass

    def register_var(self, scope, name, var_type="wire", size=None, init=None):
        self.variables.append((scope, name, var_type, size, init))
        return len(self.variables) - 1

    def change(self, var, timestamp, value):
        self.changes.append((var, timestamp, value))


class GTKWSave:
    def __init__(self, file):
        self.file = file
        self.dump = None
        self.traces = []
        WORLD.saves.append(self)

    def dumpfile(self, name, *args, **kwargs):
        self.dump = name

    def trace(self, name, *args, **kwargs):
        self.traces.append(name)

    def comment(self, *args):
        pass

    def sst_expanded(self, *args):
        pass

    def zoom_markers(self, *args, **kwargs):
        pass

    def signals_width(self, *args):
        pass

    def treeopen(self, *args):
        pass

    def size(self, *args):
        pass

    def pos(self, *args):
        pass


class World:
    def __init__(self):
        self.ports = []
        self.files = {}
        self.writers = []
        self.saves = []
        self.ran = []
        self.removed = []
        self.random = 0
        self.stdout = File("-", "w")


WORLD = World()


def urandom(n):
    WORLD.random = WORLD.random + 1
    return bytes([WORLD.random] * n)


def gettempdir():
    return "/tmp"


def join(*parts):
    return "/".join(parts)


def run(args, *more, **kwargs):
    WORLD.ran.append(args)


def remove(name):
    if name not in WORLD.files:
        raise FileNotFoundError(name)
    WORLD.removed.append(name)


def print(*args, **kwargs):
    pass
