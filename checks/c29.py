"""C29 blockchain node: consensus with hostile peers over loopback HTTP, request histories against a model, concurrent requests."""
import collections
import copy
import http.server
import importlib.util
import json
import os
import random
import socket
import sys
import threading
import time

from vlib.core import REPO, load_misc
from checks.c28 import passes, valid, value

RULE = ("a case is one consensus round (peers served over loopback HTTP with valid, invalid, shorter, equal, longer chains, any status and claimed "
        "length), one sequential history of requests against a model, or one concurrent history (threads of requests with injected delays, difficulty "
        "lowered); distinct non-trivial = distinct peer sets, histories, and interleavings (order of the requests' effects in the final chain)")
REQUIRED = {"consensus": 120, "replaced": 30, "kept": 30, "invalid_longer_peer": 40, "claimed_length": 60, "bad_status_longer_peer": 8, "request": 700,
            "refused_400": 100, "mined": 70, "concurrent_history": 40, "concurrent_mine": 150, "concurrent_transaction": 400, "overlap": 200, "snapshot": 100,
            "racing_resolve": 6, "racing_register": 20, "garbage_peer": 60, "failed_call": 20, "no_address": 200, "long_own_chain": 20}
LIMITS = {"cpu": 200}


def cases(rng, tier):
    n = 24 if tier == "quick" else 1200
    for i in range(n):
        for _ in range(8): yield {"kind": "consensus"}
        for _ in range(4): yield {"kind": "hostile"}
        yield {"kind": "sequence"}
        yield {"kind": "sequence"}
        yield {"kind": "concurrent", "peer": i % 3}
        yield {"kind": "concurrent", "peer": (i + 1) % 3}


class Peers:
    """Loopback HTTP servers; each answers GET /chain with what it is told."""

    def __init__(self):
        self.answers, self.hits, self.servers = {}, collections.Counter(), []
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            def do_GET(self):
                port = self.server.server_address[1]
                outer.hits[port] += 1
                status, body, delay = outer.answers.get(port, (404, b"{}", 0))
                if self.path != "/chain": status, body = 404, b"{}"
                if delay: time.sleep(delay)
                self.send_response(status)
                self.send_header("Content-Type", "application/json")
                self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                self.wfile.write(body)

            def log_message(self, *a): pass

        for _ in range(6):
            s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
            s.daemon_threads = True
            threading.Thread(target=s.serve_forever, daemon=True, kwargs={"poll_interval": .01}).start()
            self.servers.append(s.server_address[1])


_state = {}


def peers():
    if "peers" not in _state:
        for k in list(os.environ):
            if k.lower().endswith("_proxy"): del os.environ[k]
        os.environ["NO_PROXY"] = os.environ["no_proxy"] = "*"
        _state["peers"] = Peers()
    return _state["peers"]


def mine(bc, chain, transactions):
    last = chain[-1]
    h = bc.hash(last)
    p = 0
    while not passes(last["proof"], p, h): p += 1
    return chain + [{"index": len(chain) + 1, "timestamp": 1.0 * len(chain), "transactions": transactions, "proof": p, "previous_hash": h}]


def pool(B, rng):
    """A few valid chains with common prefixes (mined once per worker)."""
    if "pool" not in _state:
        bc = B.Blockchain
        g = [{"index": 1, "timestamp": 0.5, "transactions": [], "proof": 100, "previous_hash": "1"}]
        out, c = [g], g
        for i in range(17):
            c = mine(bc, c, [{"sender": "0", "recipient": "m", "amount": 1}])
            out.append(c)
        for start in (0, 2, 4, 11):
            d = out[start]
            for i in range(3):
                d = mine(bc, d, [{"sender": "a%d" % start, "recipient": "b", "amount": i}])
                out.append(d)
        _state["pool"] = out
    return copy.deepcopy(_state["pool"])


def spoil(rng, bc, chain):
    """An invalid chain of at least two blocks made from a valid one."""
    while True:
        c = copy.deepcopy(chain)
        r = rng.randrange(6)
        i = rng.randrange(len(c))
        if r == 0: c[i]["transactions"] = c[i]["transactions"] + [{"sender": "evil", "recipient": "evil", "amount": 10**6}]
        elif r == 1: c[i]["proof"] += 1
        elif r == 2: c[i]["previous_hash"] = "0" * 64
        elif r == 3: c.insert(i, copy.deepcopy(c[i]))
        elif r == 4: c = c + [dict(c[-1], index=len(c) + 1, previous_hash=bc.hash(c[-1]))]
        else:
            c[i]["timestamp"] += 1
            for k in range(i + 1, len(c)): c[k]["previous_hash"] = bc.hash(c[k - 1])
        if len(c) > 1 and not valid(bc, c): return c


def mon_raises(kind, f, *a):
    try: f(*a)
    except kind: return True
    return False


def local():
    try:
        return int("127.0.0.1" in [a[4][0] for a in socket.getaddrinfo("localhost", 80)])
    except OSError:
        return 0


def fresh_node():
    """run_blockchain is a script with module state: a new module is a new node."""
    spec = importlib.util.spec_from_file_location("vnode_%d" % _state.setdefault("nodes", 0), os.path.join(REPO, "misc", "run_blockchain.py"))
    _state["nodes"] += 1
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    mod.app.config["PROPAGATE_EXCEPTIONS"] = True
    return mod


def run_case(spec, mon):
    (B,) = load_misc("blockchain")
    rng = random.Random(spec["seed"])
    {"consensus": consensus, "hostile": hostile, "sequence": sequence, "concurrent": concurrent}[spec["kind"]](spec, mon, B, rng)


def consensus(spec, mon, B, rng):
    P = peers()
    chains = pool(B, rng)
    bc = B.Blockchain()
    own = rng.choice(chains[:rng.choice([7, 18])])
    bc.chain = copy.deepcopy(own)
    bc.new_transaction("pending", "x", 1)
    describe = []
    ports = rng.sample(P.servers, rng.choice([0, 1, 1, 2, 3, 4, 6]))
    best = len(own)
    candidates = []
    mixed = rng.random()
    for port in ports:
        c = rng.choice(chains)
        if mixed > .6: c = rng.choice([x for x in chains if abs(len(x) - len(own)) <= 1])
        if mixed < .3: c = max(chains, key=len) if rng.random() < .5 else c
        status = 200
        if rng.random() < .35: c = spoil(rng, bc, c if len(c) > 1 else chains[3])
        if rng.random() < .15: status = rng.choice([404, 500, 403, 201, 202])
        claim = len(c)
        if rng.random() < .4:
            claim = rng.choice([0, 1, len(own), len(own) + 1, len(c) + 1, len(c) - 1, 10**9, -5])
            mon.event("claimed_length")
        ok = valid(bc, c)
        if len(c) > len(own):
            if not ok: mon.event("invalid_longer_peer")
            elif status != 200: mon.event("bad_status_longer_peer")
        if ok and status == 200 and len(c) > best:
            best, candidates = len(c), []
        if ok and status == 200 and len(c) == best > len(own): candidates.append(c)
        P.answers[port] = (status, json.dumps({"chain": c, "length": claim}).encode(), 0)
        describe.append((status, len(c), claim, ok))
        bc.register_node(rng.choice(["http://127.0.0.1:%d", "127.0.0.1:%d", "http://127.0.0.1:%d/", "http://127.0.0.1:%d/chain"]) % port)
    mon.equal(sorted(bc.nodes), sorted("127.0.0.1:%d" % p for p in ports), "registered", peers=describe)
    for junk in rng.sample(["", "http://", "//", "http:///chain", "https://"][:2], 2):
        mon.check(mon_raises(ValueError, bc.register_node, junk), "no_address_registered", address=junk)
    mon.equal(sorted(bc.nodes), sorted("127.0.0.1:%d" % p for p in ports), "registered", peers=describe)
    mon.event("no_address", 2)
    if len(own) > 8: mon.event("long_own_chain")
    before = P.hits.copy()
    got = bc.resolve_conflicts()
    d = dict(own=len(own), peers=describe)
    mon.check(bool(got) is bool(candidates), "replaced_result", got=got, **d)
    if candidates:
        mon.check(any(bc.chain == c for c in candidates), "not_a_longest_valid_chain", chain=bc.chain, **d)
        mon.event("replaced")
    else:
        mon.equal(bc.chain, own, "chain_replaced_wrongly", **d)
        mon.event("kept")
    mon.check(all(P.hits[p] == before[p] + 1 for p in ports), "peer_not_asked", **d)
    mon.equal([t["sender"] for t in bc.current_transactions], ["pending"], "pending_lost", **d)
    mon.check(bc.resolve_conflicts() is False, "replaced_again", **d)
    mon.event("consensus")
    mon.seen(len(own), sorted(describe))


def hostile(spec, mon, B, rng):
    """Peers that answer with something that is no chain, or do not answer: whether or not the call fails, no garbage is adopted."""
    P = peers()
    chains = pool(B, rng)
    bc = B.Blockchain()
    own = rng.choice(chains[:10])
    bc.chain = copy.deepcopy(own)
    bc.new_transaction("pending", "x", 1)
    offered, describe = [], []
    for port in rng.sample(P.servers, rng.choice([1, 2, 3])):
        c = copy.deepcopy(rng.choice([x for x in chains if len(x) > 1]))
        r = rng.randrange(12)
        body = None
        if r == 0: body = rng.choice([b"", b"{", b"not json", b"[]", b"null", b"7", b'{"chain": null}', b'{"length": 99}', b"\xff\xfe"])
        elif r == 1: c = rng.choice([[], {}, "x" * 40, 10**9, None, True, [None] * 30, [[]] * 30, [{}] * 30, [1] * 30, ["0000"] * 30])
        elif r == 2:
            for b in c[1:]: del b[rng.choice(["previous_hash", "proof"])]
        elif r == 3: c = [dict(b, proof=rng.choice([None, "", [], {}, True, "0", -1, 1.5])) for b in c] + [c[-1]] * 20
        elif r == 4: c = [dict(b, previous_hash=rng.choice([None, "", 0, [], True])) for b in c] + [c[-1]] * 20
        elif r == 5: c = {str(i): b for i, b in enumerate(c + [c[-1]] * 20)}
        elif r == 6: c = c + [None] * 20
        elif r == 7: c = [c] * 20
        elif r == 8: c = c[:1] * 25
        elif r == 9: c = c + [dict(c[-1], previous_hash=bc.hash(c[-1]), proof=p) for p in (0, "0", "0000", None)] * 5
        elif r == 10: c = list(reversed(c)) * 12
        else: offered.append(c)
        P.answers[port] = (200, body if body is not None else json.dumps({"chain": c, "length": rng.choice([1, 50, 10**9])}).encode(), 0)
        describe.append((r, body, len(c) if hasattr(c, "__len__") else c))
        bc.register_node("127.0.0.1:%d" % port)
    if rng.random() < .25:      # nobody listens there
        with socket.socket() as s:
            s.bind(("127.0.0.1", 0))
            dead = s.getsockname()[1]
        bc.register_node("127.0.0.1:%d" % dead)
        describe.append("dead")
    d = dict(own=len(own), peers=describe)
    try:
        got = bc.resolve_conflicts()
    except Exception:       # an answer that is no chain may fail the call; it may not change the ledger
        got = None
        mon.event("failed_call")
    if bc.chain != own:
        mon.check(got is True and any(bc.chain == c for c in offered) and len(bc.chain) > len(own) and valid(bc, bc.chain), "garbage_adopted",
                  chain=bc.chain, got=got, **d)
    else: mon.check(not got, "kept_but_reported", **d)
    mon.equal([t["sender"] for t in bc.current_transactions], ["pending"], "pending_lost", **d)
    mon.event("garbage_peer")
    mon.seen(len(own), describe)


def sequence(spec, mon, B, rng):
    node = fresh_node()
    cl = node.app.test_client()
    P = peers()
    pending, nodes = [], set()
    model = cl.get("/chain").get_json()["chain"]
    mon.equal(len(model), 1, "first_chain")
    owner = None
    chains = pool(B, rng)
    trail = []

    def state(where):
        r = cl.get("/chain")
        body = r.get_json()
        mon.equal((r.status_code, body["length"]), (200, len(model)), "chain_answer", after=where, trail=trail)
        mon.equal(body["chain"], model, "chain", after=where, trail=trail)

    announced = {}
    for step in range(rng.randint(20, 45)):
        op = rng.choice(["tx", "tx", "tx", "bad", "mine", "chain", "register", "badregister", "resolve"])
        trail.append(op)
        mon.event("request")
        if op == "tx":
            t = {"sender": value(rng), "recipient": value(rng), "amount": value(rng)}
            if rng.random() < .2: t["comment"] = "ignored"
            r = cl.post("/transactions/new", json=t)
            mon.equal(r.status_code, 201, "transaction_refused", t=t)
            idx = int("".join(ch for ch in r.get_json()["message"] if ch.isdigit()))
            mon.equal(idx, len(model) + 1, "acknowledged_index", t=t, trail=trail)
            t.pop("comment", None)
            pending.append(t)
        elif op == "bad":
            t = {"sender": "a", "recipient": "b", "amount": 3}
            for k in rng.sample(sorted(t), rng.randint(1, 3)): del t[k]
            if rng.random() < .3: t["Amount"] = 1
            r = cl.post("/transactions/new", json=t)
            mon.equal(r.status_code, 400, "incomplete_accepted", t=t)
            mon.event("refused_400")
        elif op == "mine":
            r = cl.get("/mine")
            body = r.get_json()
            mon.equal(r.status_code, 200, "mine_status")
            now = cl.get("/chain").get_json()["chain"]
            mon.equal(now[:-1], model, "mine_kept_the_chain", trail=trail)
            b = now[-1]
            mon.equal({k: b[k] for k in ("index", "transactions", "proof", "previous_hash")}, {k: body[k] for k in ("index", "transactions", "proof", "previous_hash")}, "mine_answer")
            mon.equal(b["index"], len(model) + 1, "mined_index", trail=trail)
            mon.equal(b["transactions"][:-1], pending, "mined_transactions", trail=trail)
            reward = b["transactions"][-1]
            if owner is None: owner = reward["recipient"]
            mon.equal(reward, {"sender": "0", "recipient": owner, "amount": 1}, "reward", trail=trail)
            mon.check(valid(B.Blockchain, now[-2:]), "mined_block_invalid", trail=trail)
            model, pending = now, []
            mon.event("mined")
        elif op == "register":
            ports = rng.sample(P.servers, rng.randint(0, 3))
            names = [rng.choice(["http://127.0.0.1:%d", "127.0.0.1:%d", "http://127.0.0.1:%d/x", ] + ["localhost:%d", "http://localhost:%d"] * local()) % p for p in ports]
            r = cl.post("/nodes/register", json={"nodes": names})
            nodes |= {n.replace("http://", "").split("/")[0] for n in names}
            mon.equal(r.status_code, 201, "register_status", names=names)
            mon.equal(sorted(r.get_json()["total_nodes"]), sorted(nodes), "total_nodes", names=names)
        elif op == "badregister":
            r = cl.post("/nodes/register", json=rng.choice([{}, {"node": ["127.0.0.1:1"]}, {"nodes": None}]))
            mon.equal(r.status_code, 400, "register_without_nodes")
            mon.event("refused_400")
        elif op == "resolve":
            best = []
            for p in P.servers:
                c = rng.choice(chains)
                if rng.random() < .4: c = spoil(rng, B.Blockchain, chains[4])
                status = rng.choice([200, 200, 200, 500])
                P.answers[p] = (status, json.dumps({"chain": c, "length": len(c)}).encode(), 0)
                if {"127.0.0.1:%d" % p, "localhost:%d" % p} & nodes and status == 200 and valid(B.Blockchain, c) and len(c) > len(model): best.append(c)
            r = cl.get("/nodes/resolve")
            mon.equal(r.status_code, 200, "resolve_status")
            now = cl.get("/chain").get_json()["chain"]
            if best:
                top = max(map(len, best))
                mon.check(any(now == c for c in best if len(c) == top), "resolve_adopted", now=now, trail=trail)
                mon.equal(r.get_json().get("new_chain"), now, "resolve_answer", trail=trail)
                model = now
            else:
                mon.equal(r.get_json().get("chain"), now, "resolve_answer", trail=trail)
        state(op)
    mon.seen(tuple(trail))


class SlowList(list):
    """The chain, slow to tell its length: a length and a content read at different moments differ."""

    def __len__(self):
        self.pause()
        n = list.__len__(self)
        self.pause()
        return n


def concurrent(spec, mon, B, rng):
    """Threads of requests; delays injected around the ledger's methods; difficulty 2 nibbles instead of 4."""
    node = fresh_node()
    P = peers()
    bc = B.Blockchain
    h = bc().hash       # the real one, without the delays added below
    names = ["hash", "valid_proof", "new_block", "new_transaction", "proof_of_work", "last_block"]
    saved = {n: bc.__dict__[n] for n in names if n in bc.__dict__}
    drng = random.Random(spec["seed"] ^ 1)
    active, overlap = [0], [0]
    easy = lambda lp, p, h: __import__("hashlib").sha256(("%s%s%s" % (lp, p, h)).encode()).hexdigest().startswith("00")
    scale = drng.choice([.0005, .002, .004])

    def pause():
        r = drng.random()
        if r < .5: time.sleep(r * scale)

    def slow(f):
        def g(*a, **k):
            pause()
            out = f(*a, **k)
            pause()
            return out
        return g

    for n in saved:
        v = saved[n]
        if n == "valid_proof": setattr(bc, n, staticmethod(easy))
        elif isinstance(v, classmethod): pass
        elif isinstance(v, staticmethod): setattr(bc, n, staticmethod(slow(v.__func__)))
        elif isinstance(v, property): setattr(bc, n, property(slow(v.fget)))
        else: setattr(bc, n, slow(v))
    sw = sys.getswitchinterval()
    sys.setswitchinterval(1e-4)
    log, errors, snaps = [], [], []
    lock = threading.Lock()
    try:
        peer_chain = None
        if spec["peer"]:
            # 1: a peer that is never better; 2: a peer with a longer valid chain (for the lowered difficulty)
            c = [{"index": 1, "timestamp": 1.0, "transactions": [], "proof": 100, "previous_hash": "1"}]
            for i in range(1 if spec["peer"] == 1 else rng.choice([3, 6, 10])):
                ph = h(c[-1])
                p = next(p for p in range(10**6) if easy(c[-1]["proof"], p, ph))
                c.append({"index": len(c) + 1, "timestamp": 1.0 + i, "transactions": [{"sender": "peer", "recipient": "p", "amount": i}], "proof": p, "previous_hash": ph})
            if spec["peer"] == 1: c[-1]["proof"] += 1
            peer_chain = c
            port = P.servers[0]
            for q in P.servers: P.answers[q] = (200, json.dumps({"chain": c, "length": 10**6}).encode(), .003)
            node.app.test_client().post("/nodes/register", json={"nodes": ["127.0.0.1:%d" % port]})
        plans = []
        k = 0
        for t in range(rng.randint(3, 6)):
            ops = [rng.choice(["tx", "tx", "tx", "mine", "mine", "chain"] + (["resolve", "register"] if spec["peer"] else [])) for _ in range(rng.randint(5, 10))]
            plan = []
            for o in ops:
                plan.append((o, "t%d" % k))
                k += 1
            plans.append(plan)
        node.blockchain.chain = SlowList(node.blockchain.chain)
        SlowList.pause = staticmethod(lambda: drng.random() < .5 and time.sleep(drng.random() * .012))
        gate = threading.Barrier(len(plans))

        def worker(plan):
            try:
                cl = node.app.test_client()
                gate.wait()
                for op, name in plan:
                    with lock:
                        active[0] += 1
                        if active[0] > 1: overlap[0] += 1
                    t0 = time.monotonic()
                    if op == "tx": r = cl.post("/transactions/new", json={"sender": name, "recipient": "r", "amount": 1})
                    elif op == "register":
                        with lock: q = P.servers[drng.randrange(6)]
                        r = cl.post("/nodes/register", json={"nodes": ["127.0.0.1:%d" % q]})
                    else: r = cl.get({"mine": "/mine", "chain": "/chain", "resolve": "/nodes/resolve"}[op])
                    t1 = time.monotonic()
                    with lock:
                        active[0] -= 1
                        log.append((op, name, r.status_code, r.get_json(), t0, t1))
            except BaseException as e:
                errors.append(e)
                gate.abort()

        ths = [threading.Thread(target=worker, args=(p,), daemon=True) for p in plans]
        for t in ths: t.start()
        for t in ths: t.join(60)
        mon.check(not any(t.is_alive() for t in ths), "deadlock", plans=plans)
        for e in errors: raise e
        cl = node.app.test_client()
        before = cl.get("/chain").get_json()["chain"]
        final_mine = cl.get("/mine").get_json()      # flushes what is pending
        chain = cl.get("/chain").get_json()["chain"]
    finally:
        sys.setswitchinterval(sw)
        for n, v in saved.items(): setattr(bc, n, v)
    d = dict(log=[(o, n, s, (b or {}).get("message"), (b or {}).get("index")) for o, n, s, b, _, _ in log])

    def ok(c):
        return all(b["previous_hash"] == h(a) and easy(a["proof"], b["proof"], h(a)) for a, b in zip(c, c[1:])) and [b["index"] for b in c] == list(range(1, len(c) + 1))

    mon.check(ok(chain), "chain_invalid", chain=chain, **d)
    mon.equal(chain[:len(before)], before, "chain_rewritten", **d)
    lengths = []
    for op, name, s, body, t0, t1 in log:
        mon.equal(s, {"tx": 201, "mine": 200, "chain": 200, "resolve": 200, "register": 201}[op], "status", op=op, **d)
        if op == "resolve":
            mon.check(ok(body["new_chain"] if "new_chain" in body else body["chain"]), "resolve_answer_invalid", body=body, **d)
        if op == "register": mon.event("racing_register")
        if op == "chain":
            mon.check(ok(body["chain"]) and body["length"] == len(body["chain"]), "snapshot_invalid", body=body, **d)
            lengths.append((t0, t1, len(body["chain"])))
            mon.event("snapshot")
    for a in lengths:
        for b in lengths:
            if a[1] < b[0]: mon.check(a[2] <= b[2], "chain_shrank", a=a, b=b, **d)
    where = collections.defaultdict(list)
    for b in chain:
        for t in b["transactions"]: where[t["sender"]].append(b["index"])
    replaced = peer_chain is not None and chain[:2] == peer_chain[:2] and len(peer_chain) > 1
    mines = [body for op, _, _, body, _, _ in log if op == "mine"]
    for op, name, s, body, _, _ in log:
        if op == "tx":
            idx = int("".join(ch for ch in body["message"] if ch.isdigit()))
            if spec["peer"] < 2:
                mon.equal(where[name], [idx], "acknowledged_transaction", name=name, **d)
            else:
                mon.check(len(where[name]) <= 1, "transaction_twice", name=name, at=where[name], **d)
            mon.event("concurrent_transaction")
    if spec["peer"] < 2:
        mon.check(not replaced, "invalid_peer_adopted", **d)
        mon.equal(sorted(m["index"] for m in mines + [final_mine]), list(range(2, len(chain) + 1)), "mined_indices", **d)
        for b in chain[1:]:
            mon.equal(sum(t["sender"] == "0" for t in b["transactions"]), 1, "rewards_in_block", block=b, **d)
        for m in mines:
            b = chain[m["index"] - 1]
            mon.equal((b["proof"], b["previous_hash"], b["transactions"]), (m["proof"], m["previous_hash"], m["transactions"]), "mine_answer", **d)
    else:
        for b in chain[1:]:
            mon.check(sum(t["sender"] == "0" for t in b["transactions"]) == (0 if b in peer_chain else 1), "rewards_in_block", block=b, **d)
        if any(op == "resolve" for op, *_ in log): mon.event("racing_resolve")
    mon.event("concurrent_history")
    mon.event("concurrent_mine", len(mines))
    mon.event("overlap", overlap[0])
    mon.seen([[t["sender"] for t in b["transactions"]] for b in chain], spec["peer"])
