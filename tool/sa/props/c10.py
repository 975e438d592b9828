"""Ownership of operating-system descriptors."""
from props.sockcheck import *
import props.c09 as c09
import props.fdpass as fdpass
from props.wire import run_wire

EXPLAIN = """Ownership (typestate) analysis of descriptors. Every reachable function of the socket units is interpreted
abstractly with every system call, allocation and lower layer either succeeding or failing. A descriptor is acquired by
socket, accept, open, socketpair, by receiving it over a local socket, or by being passed in with a transfer of ownership,
and at each exit it must have been closed once or be held by an object whose handle is returned or existed before.
Closing twice, using a closed number, and closing one that was waited on without dropping it from the poll set are
violations, as is a close function that leaves its object's descriptor open. Contracts between units are those checked on
the implementing unit; the templates of the objects come from the analysed constructors."""
ASSUME = ['hclose() of a handle the function owns succeeds']


def check(ctx):
    ctx.rule('fd-leak', 'each descriptor is closed or remains held by a live handle')
    ctx.rule('fd-double, fd-stale', 'no descriptor is closed twice or used after being closed')
    ctx.rule('fd-pollset', 'a descriptor that was waited on is cleaned from the poll set before it is closed')
    ctx.rule('fd-halfclosed', 'the descriptor of an object is not closed while its handle stays valid')
    ctx.rule('fd-pass, fd-changed', 'the descriptor given is what is sent over a local socket, exactly once; of descriptors received one is returned, unchanged, and the others are closed')
    run(ctx, ['fd-'])
    jobs = []
    for c in ctx.configs:
        jobs += c09.contexts(ctx, c, ctx.prog(c))
    ctx.run_jobs(jobs)
    run_wire(ctx, [(fdpass.recv,), (fdpass.send,)])
    ctx.viol = {k: v for k, v in ctx.viol.items() if v['rule'].startswith('fd-')}
