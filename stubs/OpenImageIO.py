"""Stand-in for OpenImageIO: the images that exist and were written are kept in memory."""
UNKNOWN, NONE, UINT8, INT8, UINT16, INT16, UINT32, INT32, UINT64, INT64, HALF, FLOAT, DOUBLE, STRING = range(14)
Create, AppendSubimage, AppendMIPLevel = range(3)
VERSION = 20000

IMAGES = {}         # path -> Image
WRITTEN = {}        # path -> Output, once closed
FAIL = set()        # "create", "open", "write"
OPEN = [0]          # inputs not closed


def reset(version=20000):
    global VERSION
    VERSION = version
    IMAGES.clear()
    WRITTEN.clear()
    FAIL.clear()
    OPEN[0] = 0


class TypeDesc(object):
    def __init__(self, basetype=UNKNOWN):
        self.basetype = getattr(basetype, "basetype", basetype)

    def __eq__(self, o):
        return self.basetype == getattr(o, "basetype", o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.basetype)


class Attr(object):
    def __init__(self, name, type, value):
        self.name, self.type, self.value = name, type, value


class Image(object):
    """data: base type -> flat array of pixel values"""
    def __init__(self, basetype, width, height, nchannels, data, attribs=()):
        self.basetype, self.width, self.height, self.nchannels = basetype, width, height, nchannels
        self.data = data
        self.attribs = [Attr(*a) for a in attribs]
        self.channelnames = tuple("RGBAZ"[c] if c < 5 else "C%d" % c for c in range(nchannels))


class ImageSpec(object):
    def __init__(self, *a):
        self.format = TypeDesc(UNKNOWN)
        self.width = self.height = self.nchannels = 0
        self.channelnames = ()
        self.extra_attribs = []
        if len(a) == 4:
            self.width, self.height, self.nchannels = a[:3]
            self.set_format(a[3])

    def set_format(self, f):
        self.format = TypeDesc(f)

    def attribute(self, name, *a):
        type, value = a if len(a) == 2 else (None, a[0])
        self.extra_attribs = [x for x in self.extra_attribs if x.name != name] + [Attr(name, type, value)]

    def get(self, name, default=None):
        for x in self.extra_attribs:
            if x.name == name:
                return x.value
        return default

    getattribute = get_int_attribute = get_string_attribute = get_float_attribute = get


class ImageInput(object):
    def __init__(self, image):
        self.image = image
        OPEN[0] += 1

    @staticmethod
    def open(path, *a):
        if path not in IMAGES:
            return None
        return ImageInput(IMAGES[path])

    def spec(self):
        i = self.image
        s = ImageSpec()
        s.set_format(i.basetype)
        s.width, s.height, s.nchannels, s.channelnames = i.width, i.height, i.nchannels, i.channelnames
        s.extra_attribs = list(i.attribs)
        return s

    def read_image(self, type=None):
        type = getattr(type, "basetype", type)
        if type is None:
            type = self.image.basetype
        return self.image.data[type].copy()

    def close(self):
        OPEN[0] -= 1
        return True


class ImageOutput(object):
    def __init__(self, path):
        self.path, self.spec, self.pixels, self.type = path, None, None, None
        self.done = False

    @staticmethod
    def create(path, *a):
        return None if "create" in FAIL else ImageOutput(path)

    def open(self, path, spec, mode=Create):
        if "open" in FAIL:
            return False
        self.path, self.spec, self.mode = path, spec, mode
        return True

    def write_image(self, *a):
        type, pixels = a if len(a) == 2 else (self.spec.format, a[0])
        if "raise" in FAIL:
            raise RuntimeError("write_image")
        if "write" in FAIL:
            return False
        self.type, self.pixels = getattr(type, "basetype", type), pixels.copy()
        return True

    def close(self):
        if self.pixels is not None:
            WRITTEN[self.path] = self
        return True
