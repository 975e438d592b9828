"""Ownership of the socket beneath a protocol layer."""
from props.sockcheck import *

EXPLAIN = """Ownership (typestate) analysis of handles. An attach function starts owning the handle it is given: at each of
its exits, whichever allocation, lower layer or validation failed on the way, that handle must have been closed or taken
over exactly once, and on success be held by the new object. The object templates built by the constructors are then fed
to every method: closing must close what the object holds exactly once; detaching must release the object's own handle in
all cases, hand the held handle back exactly once on success and close it on failure; no other method may release it. A
handle used after its release, closed twice, or lost on any path is a violation, also when handles travel through channels
between coroutines."""
ASSUME = ['hclose() of a handle the function owns succeeds', 'hown() either moves the object to a new handle or closes it']


def check(ctx):
    ctx.rule('own-leak', 'each owned handle is closed, handed over or remains held')
    ctx.rule('own-double, own-stale, own-retstale', 'no handle is released twice, used or returned after its release')
    ctx.rule('own-notclosed', 'detach and close functions release the handle on every path')
    ctx.rule('own-halfclosed, own-shared', 'a live layer keeps what it holds; detaching gives it up')
    ctx.rule('own-close', 'objects have a close function')
    run(ctx, ['own-'])
