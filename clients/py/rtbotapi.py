"""Stand-in for the pybind11 module: the same engine through ctypes. Every call is a point at which the simulator may
let another thread go on, or make the call fail."""
import builtins, operator
sim = builtins.__rtbot_sim__


def _s(x):
    if not isinstance(x, str):
        raise TypeError("incompatible function arguments: a string is expected, not %r" % (x,))
    return x


def _t(x):
    if isinstance(x, float):
        raise TypeError("incompatible function arguments: an integer is expected, not %r" % (x,))
    x = operator.index(x)
    if not 0 <= x < 2**64:
        raise TypeError("incompatible function arguments: %r does not fit" % (x,))
    return x


def _f(x):
    if x is None or isinstance(x, str):
        raise TypeError("incompatible function arguments: a number is expected, not %r" % (x,))
    return float(x)


def validate(s): return sim.api('validate', _s(s))
def validateOperator(t, s): return sim.api('validateOperator', _s(t), _s(s))
def createProgram(i, s): return sim.api('createProgram', _s(i), _s(s))
def deleteProgram(i): return sim.api('deleteProgram', _s(i))
def addToMessageBuffer(i, p, t, v): return sim.api('addToMessageBuffer', _s(i), _s(p), _t(t), _f(v))
def processMessageBuffer(i): return sim.api('processMessageBuffer', _s(i))
def processMessageBufferDebug(i): return sim.api('processMessageBufferDebug', _s(i))
def getProgramEntryOperatorId(i): return sim.api('getProgramEntryOperatorId', _s(i))
def getProgramEntryPorts(i): return sim.api('getProgramEntryPorts', _s(i))
def getProgramOutputFilter(i): return sim.api('getProgramOutputFilter', _s(i))
