"""What the processes without history are asked (see zygote)."""
import pickle

from . import catalogue as cat


def result(world, opn):
    return cat.canon(cat.do(cat.World(world), opn))


def visit(blob, proto):
    """Restore, use, and pickle again."""
    from . import persist
    try:
        x = pickle.loads(blob)
    except Exception as ex:
        return 'not-restored', f'{type(ex).__name__}: {ex}'
    try:
        persist.use(x)
    except persist.Fail as ex:
        return ex.args
    return pickle.dumps(x, proto)
