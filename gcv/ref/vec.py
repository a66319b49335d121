"""operators under examination: one function per operation (interpreted, never run)"""
import copy


def add(a, b, k): return a + b
def sub(a, b, k): return a - b
def mul(a, b, k): return a * k
def rmul(a, b, k): return k * a
def truediv(a, b, k): return a / k
def rtruediv(a, b, k): return k / a
def floordiv(a, b, k): return a // k
def rfloordiv(a, b, k): return k // a
def neg(a, b, k): return -a
def pos(a, b, k): return +a
def copied(a, b, k): return a.copy()
def cross(a, b, k): return a.cross(b)
def normalized(a, b, k): return a.getNormalized()
def reflect(a, b, k): return a.reflect(b)


def iadd(a, b, k):
    a += b
    return a


def isub(a, b, k):
    a -= b
    return a


def imul(a, b, k):
    a *= k
    return a


def itruediv(a, b, k):
    a /= k
    return a


def ifloordiv(a, b, k):
    a //= k
    return a


def normalize(a, b, k):
    a.normalize()
    return a


def maximize(a, b, k):
    a.maximize(b)
    return a


def minimize(a, b, k):
    a.minimize(b)
    return a


def assign(a, b, k):
    a.setToVector3(b)
    return a


def dot(a, b, k): return a.dot(b)
def magnitude(a, b, k): return abs(a)
def magnitude2(a, b, k): return a.magnitude()
def msquared(a, b, k): return a.magnitudeSquared()
def distance(a, b, k): return a.distance(b)
def dsquared(a, b, k): return a.distanceSquared(b)
def equal(a, b, k): return a == b
def unequal(a, b, k): return a != b
def is_zero(a, b, k): return a.getIsDefault()
def floats(a, b, k): return a.getFloatList()
def drop0(a, b, k): return a.dropAxis(0)
def drop1(a, b, k): return a.dropAxis(1)
def drop2(a, b, k): return a.dropAxis(2)
def drop(a, b, k): return a.dropAxis()
