"""Runs the multiplexer of the Python package against scripted servers.

One pickled case on stdin, one pickled result on stdout, repeatedly.
"""
import hashlib, os, pickle, socket, ssl, struct, sys, threading, time

out = os.fdopen(os.dup(1), "wb")
os.dup2(2, 1)
inp = sys.stdin.buffer
import importlib.util

# the package itself needs the library; this module does not
spec = importlib.util.spec_from_file_location("multiplexer", os.path.join(os.environ["VERIF_REPO_PY"], "pyoprf", "multiplexer.py"))
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
CERT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "testcert.pem")
GAP = 0.002
IDLE = 10
PROCS = {None: None, "rev": lambda b: b[::-1], "list": lambda b: [len(b), b], "sum": lambda b: sum(b)}
tls = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
tls.load_cert_chain(CERT)


def serve(c):
    """Listening sockets, one per server."""
    ls = []
    for _ in c["types"]:
        l = socket.socket()
        if isinstance(c["hello"], int) and c["hello"] > 1 << 20:  # a server that takes little at a time
            l.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 65536)
        l.bind(("127.0.0.1", 0))
        l.listen(1)
        ls.append(l)
    return ls


def blob(x, tag):
    """Large contents are given by their length."""
    if isinstance(x, bytes):
        return x
    return (hashlib.sha512(tag + b"%d" % x).digest() * (x // 64 + 1))[:x - x % 4] + bytes(range(x % 4))


def accept(l, kind, want, res, i):
    try:
        s, _ = l.accept()
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.settimeout(20)
        if kind == "SSL":
            s = tls.wrap_socket(s, server_side=True)
        if want > 1 << 20:
            time.sleep(0.1)
        got = bytearray()
        while len(got) < want:
            b = s.recv(want - len(got))
            if not b:
                break
            got += b
        res[i] = (s, bytes(got))
    except Exception as e:
        res[i] = (None, repr(e))


def run(c):
    ls = serve(c)
    hello = blob(c["hello"], b"hello")
    asks = [blob(x, b"ask%d" % k) for k, x in enumerate(c["asks"])]
    n = len(ls)
    res = [None] * n
    want = [len(hello) + len(c["private"][i]) for i in range(n)]
    ts = [threading.Thread(target=accept, args=(l, k, w, res, i), daemon=True) for i, (l, k, w) in enumerate(zip(ls, c["types"], want))]
    for t in ts:
        t.start()
    conf = {}
    for i, l in enumerate(ls):
        conf["server%d" % i] = {"host": "127.0.0.1", "port": l.getsockname()[1], "type": c["types"][i], "ssl_cert": CERT}
        if c["types"][i] == "SSL" and c["implicit"]:
            del conf["server%d" % i]["type"]
    m = mod.Multiplexer(conf)
    try:
        m.connect()
        if hello:
            m.broadcast(hello)
        for i in range(n):
            if c["private"][i]:
                m.send(i, c["private"][i])
    except Exception as e:
        return {"connect": repr(e)}
    for t in ts:
        t.join(20)
    if any(r is None or r[0] is None for r in res):
        return {"connect": "servers: %r" % (res,)}
    state = {"round": -1, "sent": False, "err": None}
    rounds = []

    def sequence():
        try:
            q = list(c["events"])
            while q:
                ev = q.pop(0)
                i = ev[0]
                s = res[i][0]
                if ev[1] == "send":
                    s.sendall(ev[2])
                elif ev[1] == "close":
                    try:
                        s.shutdown(socket.SHUT_RDWR)
                    except OSError:
                        pass
                    s.close()
                elif ev[1] == "bye":  # orderly end of the encrypted connection
                    try:
                        s.settimeout(0.05)
                        s.unwrap()
                    except (OSError, ValueError, AttributeError):
                        pass
                    s.close()
                elif ev[1] == "reset":
                    # data in flight is lost: only once the earlier rounds are over
                    if state["round"] < ev[2]:
                        q.append(ev)
                        time.sleep(GAP)
                        continue
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    s.close()
                if ev[-1]:
                    time.sleep(GAP * ev[-1])
        except Exception as e:
            state["err"] = repr(e)
        state["sent"] = time.time()

    def client():
        for k, L in enumerate(c["rounds"]):
            state["round"] = k
            try:
                kw = {} if c["proc"] is None else {"proc": PROCS[c["proc"]]}
                if c["n"] is not None and k == len(c["rounds"]) - 1:
                    kw["n"] = c["n"]
                if k == 0 and c["late"]:
                    time.sleep(GAP * c["late"])
                if k < len(asks) and asks[k]:
                    if len(c["asked"]) == n:
                        m.broadcast(asks[k])
                    else:
                        for i in c["asked"]:
                            m.send(i, asks[k])
                rounds.append(("ok", m.gather(L, **kw)))
            except Exception as e:
                rounds.append(("exc", repr(e)))
        state["done"] = True

    a, b = threading.Thread(target=sequence, daemon=True), threading.Thread(target=client, daemon=True)
    b.start()
    a.start()
    while not state.get("done"):
        b.join(0.2)
        if state["sent"] and time.time() - state["sent"] > IDLE:
            return {"hang": len(rounds), "rounds": rounds, "got": [r[1] for r in res], "hello": hello}
    a.join(20)
    heard = {}
    for i in c["asked"]:
        got, want = b"", b"".join(asks)
        try:
            while len(got) < len(want):
                b = res[i][0].recv(len(want) - len(got))
                if not b:
                    break
                got += b
        except Exception as e:
            got += repr(e).encode()
        heard[i] = None if got == want else "%d of %d bytes" % (len(got), len(want)) if want.startswith(got) else "something else"
    err = None
    try:
        m.close()
    except Exception as e:
        err = repr(e)
    for r in res:
        r[0].close()
    for l in ls:
        l.close()
    return {"rounds": rounds, "got": [r[1] for r in res], "hello": hello, "heard": heard, "close": err, "servers": state["err"]}


while True:
    h = inp.read(4)
    if len(h) < 4:
        break
    c = pickle.loads(inp.read(struct.unpack("<I", h)[0]))
    try:
        r = run(c)
    except Exception as e:
        import traceback
        r = {"harness": traceback.format_exc()}
    b = pickle.dumps(r)
    out.write(struct.pack("<I", len(b)) + b)
    out.flush()
    if "hang" in r:
        os._exit(0)
