"""What peers send and the system reports never ends the process."""
import props.hostile as hostile
from props.wire import run_wire

EXPLAIN = """Abstract interpretation of every protocol with the stream of a peer taken from a partition of well-formed and malformed
inputs, ending anywhere, and every transfer, wait, allocation and connection-related system call failing with an arbitrary error:
construction of each kind of object, each operation, and each operation after each outcome of each other one. Reaching an internal
assertion or abort, following a null pointer (for the optional arguments left out, too) or a loop that makes no progress is a
violation."""
ASSUME = ['system calls fail only as a network or resource failure makes them fail (shutdown: ENOTCONN, ENOBUFS; fcntl and setsockopt do not)',
          'OpenSSL reports errors of the socket underneath as SSL_ERROR_SYSCALL with result -1, and never asks a blocking transport to be retried']


def check(ctx):
    ctx.rule('C27-abort', 'no assertion fails and abort is not reached')
    ctx.rule('C27-null', 'no null pointer is followed or handed to the system')
    ctx.rule('C27-loop', 'no loop goes on without end')
    run_wire(ctx, hostile.tasks(ctx, 'C27', ('abort', 'null', 'loop')))
    ctx.minimum('operations', 1000)
