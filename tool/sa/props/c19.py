"""Nothing a peer or caller supplies makes the library reach beyond its buffers."""
import props.hostile as hostile
from props.wire import run_wire

EXPLAIN = """Abstract interpretation of every protocol with the stream of a peer and the arguments of a caller taken from partitions
around each limit (sizes of the fixed buffers less one, exactly, plus one; all three length forms of a frame; lines, names,
credentials, suffixes, paths and reasons up to and beyond the longest). Each load, store, copy, string operation and transfer to or
from the system is an obligation: the bytes it touches lie within the object: within the local variable, the allocated block,
the caller's buffer with the size given, and, for a structure of the library, within the member the access starts in."""
ASSUME = ['lengths between those listed behave like their neighbours', 'transfers never move more bytes than asked for']


def check(ctx):
    ctx.rule('C19-bounds', 'every byte read or written lies within the object, and the member of the object, the access starts in')
    run_wire(ctx, hostile.tasks(ctx, 'C19', ('bounds',)))
    ctx.minimum('accesses', 1000000)
