"""helpers: client/server sessions over a fake transport"""
from scen.world import World, Chan, pair


def make_client(env, w, ch, name="c", buf_m4=False, wanted=None):
    from saltchannel.v2.salt_client_session import SaltClientSession
    s = SaltClientSession(w.sig_keys(name + ".sigseed"), ch)
    s.enc_keypair = w.enc_keys(name + ".encsec")
    s.buffer_M4 = buf_m4
    if wanted is not None:
        s.wanted_server_sig_key = wanted
    return s


def make_server(env, w, ch, name="s", buf_m2=False):
    from saltchannel.v2.salt_server_session import SaltServerSession
    s = SaltServerSession(w.sig_keys(name + ".sigseed"), ch)
    s.enc_keypair = w.enc_keys(name + ".encsec")
    s.buffer_m2 = buf_m2
    return s


def honest_pair(env, w, buf_m2, buf_m4, pinned, yields=False, cname="c", sname="s"):
    a, b = pair(env, yields)
    sv = make_server(env, w, b, sname, buf_m2=buf_m2)
    cl = make_client(env, w, a, cname, buf_m4=buf_m4, wanted=sv.sig_keypair.pub if pinned else None)
    return cl, sv, a, b


def run_all(env, cos, pick=None):
    """run coroutines to completion; a coroutine waiting on an empty Chan is not runnable; pick(n) chooses among the n runnable ones"""
    n = len(cos)
    wait, done, res = [None] * n, [False] * n, [None] * n
    turn = steps = 0
    while not all(done):
        ready = [i for i in range(n) if not done[i] and not (wait[i] is not None and not wait[i].inq)]
        steps += 1
        if not ready or steps > 400:
            raise env.Blocked("deadlock: nothing can run")
        if pick is not None:
            i = ready[pick(len(ready))]
        else:
            i = min(ready, key=lambda j: (j - turn) % n)
        turn = (i + 1) % n
        fin, v = env.step(cos[i])
        wait[i] = None
        if fin:
            done[i], res[i] = True, v
        else:
            wait[i] = getattr(v, "wait", None)
    return res


def run_pair(env, c1, c2, pick=None):
    return run_all(env, [c1, c2], pick)


class AdvChan(Chan):
    """transport whose incoming packets are arbitrary byte strings, then end of stream"""

    def __init__(self, env, sizes, name="adv"):
        Chan.__init__(self, env, [], [], name)
        self.sizes, self.got = list(sizes), []

    def _next(self):
        from saltchannel.exceptions import ComException
        if not self.sizes:
            raise ComException("end of stream")
        s = self.sizes.pop(0)
        if isinstance(s, (list, tuple)):
            raw = self.env.blob("in%d" % len(self.got), s[0], s[1])
        elif isinstance(s, int):
            raw = self.env.bytes("in%d" % len(self.got), s)
        else:
            raw = s
        self.got.append(raw)
        return raw

    async def read(self):
        return self._next()

    def read_sync(self):
        return self._next()


def le(x, n):
    return x.to_bytes(n, 'little')
