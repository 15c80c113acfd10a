"""Stand-in for PyOpenColorIO: configurations are kept in memory."""
CONFIGS = {}        # path -> Config


class Constants(object):
    COLORSPACE_DIR_TO_REFERENCE = "to_reference"
    COLORSPACE_DIR_FROM_REFERENCE = "from_reference"
    TRANSFORM_DIR_FORWARD = "forward"
    TRANSFORM_DIR_INVERSE = "inverse"
    TRANSFORM_DIR_UNKNOWN = "unknown"
    INTERP_LINEAR = "linear"
    INTERP_NEAREST = "nearest"
    INTERP_TETRAHEDRAL = "tetrahedral"
    INTERP_BEST = "best"
    INTERP_UNKNOWN = "unknown"

    @staticmethod
    def GetInverseTransformDirection(d):
        return {"forward": "inverse", "inverse": "forward"}.get(d, d)

    @staticmethod
    def CombineTransformDirections(a, b):
        return "forward" if a == b else "inverse"


class Config(object):
    def __init__(self, path="", spaces=None):
        self.path = path
        self.spaces = spaces or {}

    @staticmethod
    def CreateFromFile(path):
        return CONFIGS[path]

    def getSearchPath(self):
        return self.path

    def getColorSpace(self, name):
        return self.spaces.get(name)


class ColorSpace(object):
    def __init__(self, to=None, frm=None):
        self.t = {Constants.COLORSPACE_DIR_TO_REFERENCE: to, Constants.COLORSPACE_DIR_FROM_REFERENCE: frm}

    def getTransform(self, direction):
        return self.t[direction]


class Transform(object):
    def __init__(self, direction="forward"):
        self.direction = direction

    def getDirection(self):
        return self.direction

    def setDirection(self, d):
        self.direction = d

    def isEditable(self):
        return True


class GroupTransform(Transform):
    def __init__(self, transforms=(), direction="forward"):
        Transform.__init__(self, direction)
        self.transforms = list(transforms)

    def getTransforms(self):
        return list(self.transforms)

    def getTransform(self, k):
        return self.transforms[k]

    def size(self):
        return len(self.transforms)


class FileTransform(Transform):
    def __init__(self, src, interpolation="linear", direction="forward"):
        Transform.__init__(self, direction)
        self.src, self.interpolation = src, interpolation

    def getSrc(self):
        return self.src

    def getInterpolation(self):
        return self.interpolation

    def getCCCId(self):
        return ""


class MatrixTransform(Transform):
    def __init__(self, matrix, offset=(0.0, 0.0, 0.0, 0.0), direction="forward"):
        Transform.__init__(self, direction)
        self.matrix, self.offset = list(matrix), list(offset)

    def getMatrix(self):
        return list(self.matrix)

    def getOffset(self):
        return list(self.offset)

    def getValue(self):
        return list(self.matrix), list(self.offset)


class LogTransform(Transform):
    def __init__(self, base, direction="forward"):
        Transform.__init__(self, direction)
        self.base = base

    def getBase(self):
        return self.base


class ExponentTransform(Transform):
    def __init__(self, value, direction="forward"):
        Transform.__init__(self, direction)
        self.value = value

    def getValue(self):
        return list(self.value)


class CDLTransform(Transform):
    pass


class ColorSpaceTransform(Transform):
    pass
