"""Exploration of the Python module: the same depth-first enumeration of choices as harness/mc.hpp,
on the real PyKDL module, against the library called directly (c34_oracle.cpp)."""
import copy, ctypes, gc, json, math, mmap, os, pickle, re, signal, struct, sys

sys.path.insert(0, os.environ["C34_DIR"])
import PyKDL                     # noqa: E402
from PyKDL import *              # noqa: E402,F403

# ------------------------------------------------------------------ the explorer
class Skip(Exception):
    pass

class Stop(Exception):
    pass

class E:
    thorough = replay = False
    shard, nshards, limit = 0, 1, 60
    trail, depth, mine = [], 0, False
    executions = transitions = checks = nviol = 0
    states, viol, counters, samples, notes = set(), {}, {}, [], []
    cur, sampling, crash = "", False, None

SCEN = []
def scenario(split=2):
    def d(f):
        SCEN.append((f.__name__, f, split))
        return f
    return d

M64 = (1 << 64) - 1
def mine(n):
    h = 7
    for c, _ in E.trail[:n]:
        h = (h * 1000003 + c + 1) & M64
    h ^= h >> 17; h = h * 0x9E3779B97F4A7C15 & M64; h ^= h >> 31
    return h % E.nshards == E.shard

def note(s):
    if E.replay:
        print("  " + s, flush=True)
    if E.sampling:
        E.notes.append(s)

def choose(n, label=""):
    if E.depth == len(E.trail):
        if E.replay:
            print("mc: replay ran out of choices at " + label); os._exit(4)
        E.trail.append([0, n])
    elif E.replay:
        E.trail[E.depth][1] = n
        if E.trail[E.depth][0] >= n:
            print("mc: replay diverged at " + label); os._exit(4)
    elif E.trail[E.depth][1] != n:
        print("mc: nondeterministic harness at " + label); os._exit(4)
    c = E.trail[E.depth][0]
    if E.crash:
        struct.pack_into("<H", E.crash, 16 + 2 * E.depth, c)
        struct.pack_into("<I", E.crash, 0, E.depth + 1)
    E.depth += 1
    if not E.mine and E.depth == E.split:
        E.mine = True
        if not E.replay and E.nshards > 1 and not mine(E.depth):
            raise Skip()
    if label and (E.replay or E.sampling):
        note("choose %s = %d of %d" % (label, c, n))
    return c

def pick(v, label=""):
    return v[choose(len(v), label)]

def report(key, msg):
    E.nviol += 1
    k = E.cur + "|" + key
    if k in E.viol:
        E.viol[k]["count"] += 1
    elif len(E.viol) < 200:
        E.viol[k] = dict(scenario=E.cur, key=key, msg=msg, choices=",".join(str(c) for c, _ in E.trail[:E.depth]), count=1)
    if E.replay:
        print("VIOLATED [%s] %s" % (key, msg), flush=True)

def check(ok, key, msg):
    E.checks += 1
    if not ok:
        report(key, msg() if callable(msg) else msg)
    return ok

def state(*x):
    E.states.add(hash(x) & M64)

def run_once(f):
    E.depth, E.mine, E.notes = 0, False, []
    if E.crash:
        struct.pack_into("<I", E.crash, 0, 0)
    signal.alarm(E.limit)
    counted = True
    try:
        f()
    except Skip:
        counted = False
    except Stop:
        pass
    except Exception as x:
        report("exception", "unexpected %s: %s" % (type(x).__name__, x))
    if counted and not E.mine and not E.replay and not mine(E.depth):
        counted = False
    E.executions += counted
    return counted

def main(a):
    only = out = crash = rep = None
    i = 0
    while i < len(a):
        o = a[i]; i += 1
        if o == "--thorough": E.thorough = True
        elif o == "--list":
            print("\n".join(s[0] for s in SCEN)); return 0
        else:
            v = a[i]; i += 1
            if o == "--shard": E.shard, E.nshards = map(int, v.split("/"))
            elif o == "--scenario": only = v
            elif o == "--out": out = v
            elif o == "--crash": crash = v
            elif o == "--replay": rep, E.replay = v, True
            elif o == "--limit": E.limit = int(v)
    if crash:
        with open(crash, "wb") as f:
            f.write(bytes(16 + 2 * 4096))
        fd = os.open(crash, os.O_RDWR)
        E.crash = mmap.mmap(fd, 16 + 2 * 4096)
    if rep is not None:
        E.trail = [[int(c), 1 << 30] for c in rep.split(",") if c]
        for n, f, sp in SCEN:
            if n == only:
                E.cur, E.split = n, sp
                run_once(f)
                return 1 if E.nviol else 0
        return 4
    per = {}
    for k, (n, f, sp) in enumerate(SCEN):
        if only and n != only:
            continue
        E.cur, E.split, E.trail = n, sp, []
        if E.crash:
            struct.pack_into("<I", E.crash, 4, k)
        before, kept = E.executions, 0
        while True:
            E.sampling = kept < 1
            if run_once(f) and E.sampling and E.shard == 0:
                kept += 1
                E.samples.append(("%s choices=[%s]; %s" % (n, ",".join(str(c) for c, _ in E.trail[:E.depth]), "; ".join(E.notes[:12])))[:600])
            del E.trail[E.depth:]
            while E.trail and E.trail[-1][0] + 1 >= E.trail[-1][1]:
                E.trail.pop()
            if not E.trail:
                break
            E.trail[-1][0] += 1
        per[n] = E.executions - before
    signal.alarm(0)
    with open(out + ".states", "wb") as f:
        for h in E.states:
            f.write(struct.pack("<Q", h))
    with open(out, "w") as f:
        json.dump(dict(executions=E.executions, transitions=E.transitions, checks=E.checks, violating=E.nviol, scenarios=per,
                       counters=E.counters, samples=E.samples, violations=list(E.viol.values())), f)
    return 0

# ------------------------------------------------------------------ values
def rpy(r, p, y):
    cr, sr, cp, sp, cy, sy = math.cos(r), math.sin(r), math.cos(p), math.sin(p), math.cos(y), math.sin(y)
    return [cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr, sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr, -sp, cp * sr, cp * cr]

I3 = [1., 0, 0, 0, 1, 0, 0, 0, 1]
VECS = [[0., 0, 0], [1., 0, 0], [.3, -1.2, 2.5], [-4., 3., .01]]
ROTS = [I3, rpy(.4, -.7, 2.1), [1., 0, 0, 0, -1, 0, 0, 0, -1], [1., 2, 3, 4, 5, 6, 7, 8, -9]]
FRMS = [I3 + [0., 0, 0], ROTS[1] + VECS[2], rpy(math.pi / 2, 0, -1.) + VECS[1], ROTS[3] + VECS[3]]
TWS = [[0.] * 6, VECS[2] + [.5, .1, -.9], [-1., 0, 2, 0, 3, .25]]
JOINTS = [[0, 8, 1, 0, 0, 0, 0] + [0.] * 6, [0, 1, 1., 0, 0, 0, 0] + [0.] * 6, [1, 5, -2., .3, .1, .2, .4] + [0.] * 6,
          [2, 0, 1., .2, .3, 0, 0, .1, .2, .3, 0, 0, 2.], [3, 4, .5, 0, 0, 0, 0, -1., 0, .4, 1., 1., 0], [1, 2, 1., -.5, .05, 0, 0] + [0.] * 6, [0, 7, 1., 0, 0, 0, 0] + [0.] * 6,
          [0, 3, 1., 0, 0, 0, 0] + [0.] * 6, [1, 6, 1., .1, 0, 0, 0] + [0.] * 6, [2, 1, 1., 0, 0, 0, 0, .1, .2, .3, 0, 0, 2.]]   # the last one is refused
RBS = [[0.] * 10, [2., .1, -.2, .3, .5, .6, .7, .01, .02, .03], [1.5, 0, 0, .4, .2, .2, .1, 0, 0, 0]]
def seg(j, f, r): return JOINTS[j] + FRMS[f] + RBS[r]
SEGS = [seg(0, 0, 0), seg(1, 1, 1), seg(3, 2, 2), seg(5, 1, 0)]
CHAINS = [[], [SEGS[1]], [SEGS[0], SEGS[1], seg(4, 1, 1)], [seg(7, 1, 1), seg(5, 2, 2), seg(0, 1, 1), seg(3, 1, 2), seg(2, 2, 1)],
          [seg(7, 1, 2), seg(1, 2, 1), seg(5, 1, 1), seg(7, 2, 1), seg(3, 1, 2), seg(1, 2, 2), seg(5, 1, 1)]]
def ch(c): return [len(c)] + [x for s in c for x in s]
def cj(flat):   # joints of an encoded chain
    return sum(1 for i in range(int(flat[0])) if flat[1 + 35 * i + 1] != 8)
assert len(SEGS[0]) == 35
QPAT = [lambda i: 0., lambda i: .3 + .25 * i, lambda i: -1.1 + .4 * i]
def dup(l): return [x for x in l]

def alphabet(t, prev):
    if t == "D": return [[0.], [1.], [-2.5], [.7]]
    if t == "U": return [[1.], [.25], [-3.]]
    if t == "N": return [[0], [1], [3]]
    if t == "SI": return [[-1], [0], [1], [int(prev[0][0])], [int(prev[0][0]) + 1]]
    if t == "JT": return [[k] for k in range(9)]
    if t == "V": return VECS
    if t == "R": return ROTS
    if t == "F": return FRMS
    if t in "TW": return TWS
    if t == "dV": return [[0., 0.], [1.5, -.5], [-.2, 2.]]
    if t == "VV": return [VECS[0] + VECS[1], VECS[2] + VECS[3], VECS[2] + VECS[0]]
    if t == "TV": return [TWS[0] + TWS[0], TWS[1] + TWS[2], TWS[2] + TWS[0]]
    if t == "RV": return [I3 + VECS[0], ROTS[1] + VECS[2], ROTS[1] + VECS[0]]
    if t == "FV": return [I3 + VECS[0] + VECS[0] + VECS[0], ROTS[1] + VECS[2] + VECS[3] + VECS[1], ROTS[1] + VECS[0] + VECS[2] + VECS[0]]
    if t == "RI": return [[0.] * 9, [.5, .01, .02, .01, .6, .03, .02, .03, .7], [1., 2, 3, 4, 5, 6, 7, 8, 9]]
    if t == "RB": return RBS
    if t == "J": return JOINTS
    if t == "S": return SEGS
    if t == "C": return [ch(c) for c in CHAINS]
    if t == "JA": return [[0], [1, -.5], [3, .1, 2., -3.]]
    if t == "JV": return [[0, 0], [1, -.5, 1, 2.], [3, .1, 2., -3., 3, 0, .5, 1e3]]
    if t == "JC": return [[0], [1, 1., 2., 3., 4., 5., 6.], [3] + [i * .5 - 4 for i in range(18)]]
    if t == "JM": return [[0], [1, 2.5], [3, 1, 2, 3, 4, 5, 6, 7, 8, -9.]]
    if t in ("QA", "QV"):
        n = cj(prev[0])
        if t == "QA": r = [[n] + [p(i) for i in range(n)] for p in QPAT]
        else: r = [[n] + [p(i) for i in range(n)] + [n] + [g(i) for i in range(n)] for p, g in ((QPAT[0], QPAT[1]), (QPAT[1], QPAT[2]), (QPAT[2], QPAT[0]))]
        return r + ([[n + 1] + [.5] * (n + 1)] if t == "QA" else [[n + 1] + [.5] * (n + 1) + [n + 1] + [.1] * (n + 1)])   # the last one does not fit
    raise KeyError(t)

JTS = [Joint.RotAxis, Joint.RotX, Joint.RotY, Joint.RotZ, Joint.TransAxis, Joint.TransX, Joint.TransY, Joint.TransZ, Joint.Fixed]
def mk_joint(x, name):
    kind, t, p, o, ax = int(x[0]), JTS[int(x[1])], x[2:7], Vector(*x[7:10]), Vector(*x[10:13])
    if kind == 0: return Joint(name, t, *p)
    if kind == 1: return Joint(t, *p)
    if kind == 2: return Joint(name, o, ax, t, *p)
    return Joint(o, ax, t, *p)
def mk_seg(x, name):
    return Segment(name, mk_joint(x[:13], "j" + name), make("F", x[13:25]), make("RB", x[25:35]))
def make(t, x):
    if t in ("D", "U"): return float(x[0])
    if t in ("N", "SI"): return int(x[0])
    if t == "JT": return JTS[int(x[0])]
    if t == "V": return Vector(*x)
    if t == "R": return Rotation(*x)
    if t == "F": return Frame(Rotation(*x[:9]), Vector(*x[9:12]))
    if t == "T": return Twist(Vector(*x[:3]), Vector(*x[3:]))
    if t == "W": return Wrench(Vector(*x[:3]), Vector(*x[3:]))
    if t == "dV": return doubleVel(*x)
    if t == "VV": return VectorVel(Vector(*x[:3]), Vector(*x[3:]))
    if t == "TV": return TwistVel(make("VV", x[:6]), make("VV", x[6:]))
    if t == "RV": return RotationVel(Rotation(*x[:9]), Vector(*x[9:]))
    if t == "FV": return FrameVel(make("RV", x[:12]), make("VV", x[12:]))
    if t == "RI":
        r = RotationalInertia()
        for i in range(9): r[i] = x[i]
        return r
    if t == "RB": return RigidBodyInertia(x[0], Vector(*x[1:4]), RotationalInertia(*x[4:10]))
    if t == "J": return mk_joint(x, "jn")
    if t == "S": return mk_seg(x, "sg")
    if t == "C":
        c = Chain()
        for i in range(int(x[0])): c.addSegment(mk_seg(x[1 + 35 * i:36 + 35 * i], "s%d" % i))
        return c
    if t in ("JA", "QA"):
        n = int(x[0]); a = JntArray(n)
        for i in range(n): a[i] = x[1 + i]
        return a
    if t in ("JV", "QV"):
        n = int(x[0])
        return JntArrayVel(make("JA", x[:1 + n]), make("JA", x[1 + n:]))
    if t == "JC":
        n = int(x[0]); a = Jacobian(n)
        for i in range(6):
            for k in range(n): a[i, k] = x[1 + i * n + k]
        return a
    if t == "JM":
        n = int(x[0]); a = JntSpaceInertiaMatrix(n)
        for i in range(n):
            for k in range(n): a[i, k] = x[1 + i * n + k]
        return a
    raise KeyError(t)

def f_joint(o, t, x):
    t.append(x.getName() + "/" + x.getTypeName() + ";")
    flat(o, t, int(x.getType())); flat(o, t, x.JointAxis()); flat(o, t, x.JointOrigin())
    for q in (0.0, 0.7): flat(o, t, x.pose(q))
    flat(o, t, x.twist(1.3))
def f_seg(o, t, x):
    t.append(x.getName() + "|")
    for y in (x.getJoint(), x.getFrameToTip(), x.pose(.3), x.twist(.3, 1.1), x.getInertia()): flat(o, t, y)
def f_chain(o, t, x):
    o += [x.getNrOfJoints(), x.getNrOfSegments()]
    for i in range(x.getNrOfSegments()): flat(o, t, x.getSegment(i))
def f_tree(o, t, x):
    o += [x.getNrOfJoints(), x.getNrOfSegments()]; t.append(repr(x))
def many(*fs):
    def f(o, t, x):
        for g in fs: flat(o, t, g(x))
    return f
def f_ja(o, t, x):
    o += [x.rows(), x.columns()] + [x[i] for i in range(x.rows())]
def f_mat(o, t, x):
    o += [x.rows(), x.columns()] + [x[i, k] for i in range(x.rows()) for k in range(x.columns())]
FLAT = {
    Vector: lambda o, t, x: o.extend([x[0], x[1], x[2]]), Rotation: lambda o, t, x: o.extend([x[i, j] for i in range(3) for j in range(3)]),
    Frame: many(lambda x: x.M, lambda x: x.p), Twist: many(lambda x: x.vel, lambda x: x.rot), Wrench: many(lambda x: x.force, lambda x: x.torque),
    doubleVel: lambda o, t, x: o.extend([x.t, x.grad]), VectorVel: many(lambda x: x.p, lambda x: x.v), TwistVel: many(lambda x: x.vel, lambda x: x.rot),
    RotationVel: many(lambda x: x.R, lambda x: x.w), FrameVel: many(lambda x: x.M, lambda x: x.p), RotationalInertia: lambda o, t, x: o.extend([x[i] for i in range(9)]),
    RigidBodyInertia: many(lambda x: x.getMass(), lambda x: x.getCOG(), lambda x: x.getRotationalInertia()),
    Joint: f_joint, Segment: f_seg, Chain: f_chain, Tree: f_tree, JntArray: f_ja, JntArrayVel: many(lambda x: x.q, lambda x: x.qdot), Jacobian: f_mat, JntSpaceInertiaMatrix: f_mat,
    Joint.JointType: lambda o, t, x: o.append(int(x)),
    float: lambda o, t, x: o.append(x), int: lambda o, t, x: o.append(x), bool: lambda o, t, x: o.append(int(x)), str: lambda o, t, x: t.append(x),
}
def f_list(o, t, x):
    for y in x: flat(o, t, y)
FLAT[tuple] = FLAT[list] = f_list
def flat(o, t, x):
    FLAT[type(x)](o, t, x)
def values(x):
    o, t = [], []
    flat(o, t, x)
    return [float(y) for y in o], "".join(t)
def near(a, b, tol=1e-11):
    if len(a) != len(b): return False
    m = max([1.] + [abs(x) for x in a + b if x == x and abs(x) != math.inf])
    return all(x == y or (x != x and y != y) or abs(x - y) <= tol * m for x, y in zip(a, b))

# ------------------------------------------------------------------ 1. every operation
ORC = ctypes.CDLL(os.path.join(os.environ["C34_DIR"], "c34_oracle.so"))
ORC.orc_name.restype = ORC.orc_text.restype = ctypes.c_char_p
BUF = (ctypes.c_double * 4096)()
OPS = []
for _i in range(ORC.orc_n()):
    _n = ORC.orc_name(_i).decode()
    _types, _code = _n.split(":", 1)
    _ch = None
    if _types.endswith("#"): _kind, _types = "block", _types[:-1]
    elif "!" in _types: _types, _ch = _types.split("!"); _kind = "change"
    else: _kind = "expr"
    OPS.append((_i, [t for t in _types.split(",") if t], _kind, _ch, compile(_code, "<" + _n + ">", "eval" if _kind == "expr" else "exec"), _n))
FAMILIES = {"frames": "V W T R F U D", "framevel": "dV VV TV RV FV", "kinfam": "", "solvers": ""}

def oracle(i, args):
    flatargs = [float(x) for a in args for x in a]
    n = ORC.orc_call(i, (ctypes.c_double * max(1, len(flatargs)))(*flatargs), BUF, 4096)
    return (None, "") if n < 0 else (list(BUF[:n]), ORC.orc_text().decode())

@scenario(split=3)
def operations():
    i, types, kind, changed, code, name = pick(OPS, "operation")
    args = []
    for t in types:
        args.append(pick(alphabet(t, args), t))
    E.transitions += 1
    want, wtext = oracle(i, args)
    env = dict(NAMES)
    vs = "abcde"[:len(types)]
    try:
        for v, t, a in zip(vs, types, args):
            env[v] = make(t, a)
        before = {v: values(env[v]) for v in vs}
        objs = {v: env[v] for v in vs}
        if kind == "expr":
            got = eval(code, env)
            if got is NotImplemented: raise TypeError("not implemented")
        else:
            exec(code, env)
            got = env[changed] if changed else env["out"]
        g, gtext = values(got)
    except (RuntimeError, ValueError) as x:
        check(want is None, "raises " + name, "%s with %s raises %s, the library gives %s" % (name, args, x, want))
        return
    except Exception as x:
        check(False, "raises " + name, "%s with %s raises %s %s, the library gives %s %s" % (name, args, type(x).__name__, x, want, wtext))
        return
    if not check(want is not None, "accepts " + name, "%s with %s is accepted, the library throws" % (name, args)): return
    check(near(g, want) and gtext == wtext, name, lambda: "%s with %s: Python gives %s %s, the library %s %s" % (name, args, g, gtext, want, wtext))
    state(name, tuple(round(x, 9) if x == x else 0 for x in g), gtext)
    if kind == "change":
        check(env[changed] is objs[changed], "same object " + name, "%s rebinds %s to another object" % (name, changed))
    if kind != "block":
        for v in vs:
            if v != changed:
                check(values(env[v]) == before[v] or any(x != x for x in before[v][0]), "operand " + name, lambda: "%s changes %s from %s to %s" % (name, v, before[v], values(env[v])))
NAMES = {k: getattr(PyKDL, k) for k in dir(PyKDL)}

# ------------------------------------------------------------------ 2. indices
BAD = [-1, -2, -100, 2 ** 31 - 1, -2 ** 31, 1 << 20]
def containers():
    c = []
    for t, n in (("V", 3), ("T", 6), ("W", 6), ("RI", 9)):
        c.append((t, alphabet(t, [])[1], [[i for i in range(n)]], n))
    for a in alphabet("JA", []): c.append(("JA", a, [list(range(int(a[0])))], int(a[0])))
    c.append(("R", ROTS[1], [[0, 1, 2], [0, 1, 2]], 0)); c.append(("F", FRMS[1], [[0, 1, 2], [0, 1, 2, 3]], 0))
    for a in alphabet("JC", []): c.append(("JC", a, [list(range(6)), list(range(int(a[0])))], 0))
    for a in alphabet("JM", []): c.append(("JM", a, [list(range(int(a[0]))), list(range(int(a[0])))], 0))
    return c

@scenario(split=2)
def indices():
    t, a, dims, it = pick(containers(), "container")
    obj = make(t, a)
    before = values(obj)
    idx, inside = [], True
    for d in dims:
        i = pick(d + [len(d), len(d) + 1] + BAD, "index")
        inside = inside and 0 <= i < len(d)
        idx.append(i)
    key = idx[0] if len(dims) == 1 else tuple(idx)
    E.transitions += 2
    for what in ("get", "set"):
        try:
            if what == "get": obj[key]
            else: obj[key] = 77.5
            ok = True
        except IndexError:
            ok = False
        except Exception as x:
            check(False, "index " + t, "%s %s[%s] raises %s, not IndexError" % (what, t, key, type(x).__name__)); return
        check(ok == inside, "index " + t, "%s %s of %s elements at %s is %s" % (what, t, [len(d) for d in dims], key, "accepted" if ok else "refused"))
    after = values(obj)
    if not inside:
        check(after == before, "index changes " + t, "a refused assignment at %s changes %s from %s to %s" % (key, t, before, after))
    else:
        # exactly the named element changed
        want = values(make(t, a))[0]
        if t in ("V", "T", "W", "RI"): want[idx[0]] = 77.5
        elif t == "JA": want[2 + idx[0]] = 77.5
        elif t == "R": want[3 * idx[0] + idx[1]] = 77.5
        elif t == "F":
            if idx[1] == 3: want[9 + idx[0]] = 77.5
            else: want[3 * idx[0] + idx[1]] = 77.5
        else: want[2 + idx[0] * len(dims[1]) + idx[1]] = 77.5
        check(after[0] == want and obj[key] == 77.5, "index sets " + t, "after %s[%s] = 77.5: %s, expected %s" % (t, key, after[0], want))
    if len(dims) == 1:
        obj = make(t, a)
        check([float(x) for x in obj] == [obj[i] for i in range(len(dims[0]))], "iteration " + t, "iterating over %s gives %s" % (t, list(obj)))
    state(t, tuple(a), key)

@scenario(split=2)
def element_functions():
    """Functions that take an element's number."""
    what = pick(["Chain.getSegment", "Jacobian.getColumn", "Jacobian.setColumn"], "function")
    a = pick(alphabet("C" if what[0] == "C" else "JC", []), "object")
    obj = make("C" if what[0] == "C" else "JC", a)
    n = int(a[0])
    i = pick(list(range(n)) + [n, n + 1, 1000, 2 ** 20] + [2 ** 31 - 1, 2 ** 32 - 1, -1, -2, 2 ** 32, -2 ** 40], "index")
    before = values(obj)
    E.transitions += 1
    try:
        if what == "Chain.getSegment": r = obj.getSegment(i)
        elif what == "Jacobian.getColumn": r = obj.getColumn(i)
        else: r = obj.setColumn(i, Twist(Vector(1, 2, 3), Vector(4, 5, 6)))
        ok = True
    except IndexError: ok = False
    except (TypeError, OverflowError):
        ok = False
        check(i < 0 or i > 2 ** 31 - 1, "error of " + what, "%s(%d) of %d raises a type error" % (what, i, n))
    check(ok == (0 <= i < n), what, "%s(%d) of %d is %s" % (what, i, n, "accepted" if ok else "refused"))
    if not ok or what != "Jacobian.setColumn":
        check(values(obj) == before, what + " changes", "%s(%d) changes the object" % (what, i))
    state(what, n, i)

# ------------------------------------------------------------------ 3. copies
GEO = {"V": [([], [0, 1, 2])], "R": None, "F": None, "T": None, "W": None, "dV": None, "VV": None, "TV": None, "RV": None, "FV": None}
SUB = {"F": [("M", "R"), ("p", "V")], "T": [("vel", "V"), ("rot", "V")], "W": [("force", "V"), ("torque", "V")], "VV": [("p", "V"), ("v", "V")],
       "TV": [("vel", "VV"), ("rot", "VV")], "RV": [("R", "R"), ("w", "V")], "FV": [("M", "RV"), ("p", "VV")], "JV": [("q", "JA"), ("qdot", "JA")]}
def leaf(obj, t):
    """Changes one element somewhere inside."""
    if t in ("V", "T", "W", "JA"): obj[1 if t != "JA" else 0] = obj[1 if t != "JA" else 0] + 3.25
    elif t == "R" or t == "F": obj[1, 2] = obj[1, 2] + 3.25
    elif t == "dV": obj.grad = obj.grad + 3.25
    else: leaf(getattr(obj, SUB[t][1][0]), SUB[t][1][1])
COPIES = {
    "copy": copy.copy, "deepcopy": copy.deepcopy, "deepcopy in a list": lambda x: copy.deepcopy([x, 1])[0], "constructor": lambda x: type(x)(x),
}
for _p in range(2, pickle.HIGHEST_PROTOCOL + 1):   # pybind11 needs protocol 2
    COPIES["pickle %d" % _p] = (lambda p: lambda x: pickle.loads(pickle.dumps(x, p)))(_p)
COPIES["pickle in a dict"] = lambda x: pickle.loads(pickle.dumps({"k": [x]}))["k"][0]

def more(t):
    """Values at which an encoding may lose something."""
    a = list(alphabet(t, []))
    if t in ("R", "RV", "F", "FV"):
        rest = {"R": [], "RV": VECS[2], "F": VECS[2], "FV": VECS[2] + VECS[3] + VECS[1]}[t]
        for r in (rpy(.3, math.pi / 2, .5), rpy(.3, -math.pi / 2, .5), rpy(.3, math.pi / 2 - 1e-7, .5), rpy(-3, 1.5707, .5), rpy(math.pi, 0, math.pi), [0.] * 9, [1e-9] * 9, [2., 0, 0, 0, 2, 0, 0, 0, 2],
                  [1., .1, 0, 0, 1, 0, 0, 0, 1], [-1., 0, 0, 0, -1, 0, 0, 0, -1]):
            a.append(r + rest)
    if t == "V": a += [[1e-300, 1e300, -0.], [math.inf, -math.inf, 1.], [.1, .2, .3]]
    return a

@scenario(split=2)
def copies():
    t = pick(["V", "R", "F", "T", "W", "dV", "VV", "TV", "RV", "FV"], "type")
    a = pick(more(t), "value")
    how = pick(sorted(COPIES), "how")
    x = make(t, a)
    before = values(x)
    E.transitions += 1
    try:
        y = COPIES[how](x)
    except Exception as e:
        check(False, "%s of %s" % (re.sub(r" \d", "", how), t), "%s of %s %s raises %s %s" % (how, t, a, type(e).__name__, e)); return
    k = "%s of %s" % (re.sub(r" \d", "", how), t)
    check(type(y) is type(x), k, "%s of %s gives a %s" % (how, t, type(y)))
    check(near(values(y)[0], before[0], 1e-12), k, lambda: "%s of %s: %s, expected %s" % (how, t, values(y), before))
    if all(abs(v) < 1e100 for v in a):
        check(x == y and not (x != y), k, "%s of %s does not compare equal" % (how, t))
        check(hash(x) == hash(y) or values(y) != before, k + " hash", "%s of %s has another hash" % (how, t))
    leaf(y, t)
    check(values(x) == before, k + " independent", lambda: "changing the %s of %s changes the original to %s" % (how, t, values(x)))
    y = COPIES[how](x); v = values(y)
    leaf(x, t)
    check(values(y) == v, k + " independent", lambda: "changing the original of a %s of %s changes it to %s" % (how, t, values(y)))
    state(t, tuple(a), how)

# histories of an object, a part of it and copies, against plain lists
PARTS = {"F": (["p"], "V", 9, 3), "FV": (["M", "R"], "R", 0, 9), "TV": (["rot", "v"], "V", 9, 3), "T": (["vel"], "V", 0, 3), "RV": (["w"], "V", 9, 3), "JV": (["qdot"], "JA", None, None)}
@scenario(split=4)
def part_histories():
    t = pick(["F", "FV", "TV", "T", "RV", "JV"], "type")
    path, pt, off, ln = PARTS[t]
    a = alphabet(t, [])[1]
    objs, model = {"x": make(t, a), "y": make(t, a)}, {}
    base = values(objs["x"])[0]
    if t == "JV": off, ln = 5, 1       # rows, columns, value, rows, columns, value
    model["x"], model["y"] = list(base), list(base)
    part = None       # which object the held part belongs to, None when none is held
    held = None
    orphan = None     # what the held part must show when its owner's name is gone
    def get(o):
        for p in path: o = getattr(o, p)
        return o
    def put(o, v):
        for p in path[:-1]: o = getattr(o, p)
        setattr(o, path[-1], v)
    def set0(p, v):
        if pt == "R": p[0, 0] = v
        else: p[0] = v
    val = 10.
    for n in range(4 if E.thorough else 3):
        ops = ["hold x", "hold y", "write x", "write y", "x=copy y", "x.part=y.part", "drop x", "x=deepcopy x", "x=Type(x)"] + (["write held", "x.part=held"] if held is not None else [])
        op = pick(ops, "op")
        E.transitions += 1
        val += 1
        if op.startswith("hold"):
            part = op[-1]; held = get(objs[part]); orphan = model[part]
        elif op in ("write x", "write y"):
            o = op[-1]; set0(get(objs[o]), val); model[o][off] = val
        elif op == "write held":
            set0(held, val); orphan[off] = val
        elif op == "x.part=held":
            put(objs["x"], held); model["x"][off:off + ln] = orphan[off:off + ln]
        elif op == "x.part=y.part":
            put(objs["x"], get(objs["y"])); model["x"][off:off + ln] = model["y"][off:off + ln]
        else:
            if op == "x=copy y": new, m = copy.copy(objs["y"]) if t != "JV" else JntArrayVel(objs["y"].q, objs["y"].qdot), model["y"]
            elif op == "drop x": new, m = make(t, a), base
            elif op == "x=deepcopy x": new, m = copy.deepcopy(objs["x"]) if t != "JV" else JntArrayVel(objs["x"].q, objs["x"].qdot), model["x"]
            else: new, m = (type(objs["x"])(objs["x"]) if t != "JV" else JntArrayVel(objs["x"].q, objs["x"].qdot)), model["x"]
            objs["x"] = new
            model["x"] = list(m)
            gc.collect(0)
            junk = [make(t, a) for _ in range(8)]
            for j in junk: set0(get(j), -1e9)
        for o in "xy":
            check(values(objs[o])[0] == model[o], "history " + t, lambda: "after %s: %s shows %s, expected %s" % (op, o, values(objs[o])[0], model[o]))
        if held is not None:
            w = orphan[off:off + ln]
            g = values(held)[0]
            check(g[-ln:] == w, "held part " + t, lambda: "after %s: the held part shows %s, expected %s" % (op, g, w))
    state(t, tuple(model["x"]), tuple(model["y"]), part)

# ------------------------------------------------------------------ 4. references
def arr(n, p): return make("JA", [n] + [p(i) for i in range(n)])
def use_fk(s, n): f = Frame(); return [s.JntToCart(arr(n, QPAT[1]), f), f]
def use_fkv(s, n): f = FrameVel(); return [s.JntToCart(JntArrayVel(arr(n, QPAT[1]), arr(n, QPAT[2])), f), f]
def use_ikv(s, n): q = JntArray(n); return [s.CartToJnt(arr(n, QPAT[1]), Twist(Vector(.1, .2, .3), Vector(.1, 0, -.2)), q), q]
def use_ikp(s, n): q = JntArray(n); return [s.CartToJnt(arr(n, QPAT[1]), Frame(Rotation.RPY(.2, .1, .3), Vector(.5, .4, .9)), q), q]
def use_jac(s, n): j = Jacobian(n); return [s.JntToJac(arr(n, QPAT[1]), j), j]
def use_jd(s, n): j = Jacobian(n); return [s.JntToJacDot(JntArrayVel(arr(n, QPAT[1]), arr(n, QPAT[2])), j), j]
def use_id(s, n):
    t = JntArray(n)
    return [s.CartToJnt(arr(n, QPAT[1]), arr(n, QPAT[2]), arr(n, QPAT[1]), [Wrench()] * NSEG, t), t]
def use_dyn(s, n):
    t, g, m = JntArray(n), JntArray(n), JntSpaceInertiaMatrix(n)
    return [s.JntToMass(arr(n, QPAT[1]), m), s.JntToCoriolis(arr(n, QPAT[1]), arr(n, QPAT[2]), t), s.JntToGravity(arr(n, QPAT[1]), g), m, t, g]
def upd(use):
    def f(s, n):
        s.updateInternalDataStructures()
        return use(s, n) + [s.getError(), s.strError(-1)]
    return f
NSEG = 5
FKS = [("ChainFkSolverPos_recursive", lambda c: ChainFkSolverPos_recursive(c))]
IKVS = [("pinv", lambda c: ChainIkSolverVel_pinv(c)), ("pinv_nso", lambda c: ChainIkSolverVel_pinv_nso(c)), ("givens", lambda c: ChainIkSolverVel_pinv_givens(c)), ("wdls", lambda c: ChainIkSolverVel_wdls(c))]
USERS = [("ChainFkSolverPos_recursive", lambda c: ChainFkSolverPos_recursive(c), use_fk), ("ChainFkSolverVel_recursive", lambda c: ChainFkSolverVel_recursive(c), use_fkv),
         ("ChainIkSolverVel_pinv", lambda c: ChainIkSolverVel_pinv(c), use_ikv), ("ChainIkSolverVel_pinv_nso", lambda c: ChainIkSolverVel_pinv_nso(c), use_ikv),
         ("ChainIkSolverVel_pinv_givens", lambda c: ChainIkSolverVel_pinv_givens(c), use_ikv), ("ChainIkSolverVel_wdls", lambda c: ChainIkSolverVel_wdls(c), use_ikv),
         ("ChainIkSolverPos_LMA", lambda c: ChainIkSolverPos_LMA(c), use_ikp), ("ChainJntToJacSolver", lambda c: ChainJntToJacSolver(c), use_jac),
         ("ChainJntToJacDotSolver", lambda c: ChainJntToJacDotSolver(c), use_jd), ("ChainIdSolver_RNE", lambda c: ChainIdSolver_RNE(c, Vector(0, 0, -9.81)), use_id),
         ("ChainDynParam", lambda c: ChainDynParam(c, Vector(0, 0, -9.81)), use_dyn)]
JUNK = []
def churn():
    """Puts other data where freed objects were."""
    gc.collect()
    JUNK[:] = [make("C", ch([seg(1, 2, 1)] * NSEG)) for _ in range(4)] + [arr(5, lambda i: 1e6) for _ in range(8)]

@scenario(split=2)
def references():
    name, mk, use = pick(USERS, "solver")
    kw = choose(2, "another call in between")
    how = pick(["name dropped", "made from a temporary", "made from a copy", "replaced by another", "in a cycle", "grown after"], "chain")
    call = use if name == "ChainDynParam" else pick([use, upd(use)], "update first")
    c = make("C", ch(CHAINS[3]))
    n = c.getNrOfJoints()
    want = values(call(mk(c), n))
    if how == "name dropped": s = mk(c); del c
    elif how == "made from a temporary": del c; s = mk(make("C", ch(CHAINS[3])))
    elif how == "made from a copy": s = mk(Chain(c)); del c
    elif how == "replaced by another": s = mk(c); c = make("C", ch([SEGS[1]]))
    elif how == "in a cycle":
        class Robot: pass
        r = Robot(); r.me = r; r.chain = c; s = mk(r.chain); del r, c
    else:
        s = mk(c); c.addSegment(Segment("x", Joint(Joint.RotX))); d = c; del c, d
        if call is use:
            churn(); r = use(s, n)       # a changed chain is an error until updated
            E.transitions += 1; state(name, kw, how)
            if name != "ChainDynParam": check(isinstance(r[0], int) and r[0] < 0, "outdated " + name, "%s accepts a chain that has grown: %s" % (name, r[0]))
            return
        return
    churn()
    E.transitions += 1
    if kw:
        use(s, n); churn()
    got = values(call(s, n))
    check(near(got[0], want[0], 1e-9) and got[1] == want[1], "reference " + name, lambda: "%s, chain %s: %s, expected %s" % (name, how, got, want))
    state(name, kw, how, call is use)

@scenario(split=2)
def solver_references():
    """Position solvers built on other solvers; every subset of the references is dropped, in every order."""
    which = pick(["NR", "NR_JL"], "solver")
    fkn, mkfk = pick(FKS, "fk")
    ivn, mkiv = pick(IKVS, "ik velocity")
    shared = choose(2, "one chain for all")
    def build():
        c = make("C", ch(CHAINS[3])); n = c.getNrOfJoints()
        h = {"c": c, "fk": mkfk(c if shared else make("C", ch(CHAINS[3]))), "iv": mkiv(c if shared else make("C", ch(CHAINS[3]))), "lo": arr(n, lambda i: -2.5), "hi": arr(n, lambda i: 2.5)}
        h["s"] = ChainIkSolverPos_NR(c, h["fk"], h["iv"], 40, 1e-5) if which == "NR" else ChainIkSolverPos_NR_JL(c, h["lo"], h["hi"], h["fk"], h["iv"], 40, 1e-5)
        return h, n
    ref, n = build()   # nothing of this one is dropped; called as often, since inner solvers may start from their last result
    h, n = build()
    left = ["c", "fk", "iv"] + (["lo", "hi"] if which == "NR_JL" and E.thorough else [])
    if which == "NR_JL" and not E.thorough: del h["lo"], h["hi"]
    dropped = []
    while left:
        k = choose(len(left) + 1, "drop")
        if k == len(left): break
        x = left.pop(k); dropped.append(x)
        del h[x]
        churn()
        E.transitions += 1
        want, got = values(use_ikp(ref["s"], n)), values(use_ikp(h["s"], n))
        check(near(got[0], want[0], 1e-9), "references of " + which, lambda: "%s(%s,%s) after dropping %s: %s, expected %s" % (which, fkn, ivn, dropped, got, want))
    state(which, ivn, shared, tuple(dropped))

@scenario(split=1)
def holders():
    """What is copied in is independent of the original, and what is handed out outlives its owner."""
    what = pick(["segment in chain", "joint in segment", "segment out", "joint out", "inertia out", "getChain out", "column out", "value out", "weights", "limits", "frame part", "nested part", "array part", "default arguments"], "case")
    E.transitions += 1
    k = "holder " + what
    if what == "segment in chain":
        s = make("S", SEGS[1]); c = Chain(); c.addSegment(s); w = values(c); s.setInertia(RigidBodyInertia(9.)); check(values(c) == w, k, "a chain's segment follows the original"); del s; churn(); check(values(c) == w, k, "a chain's segment changed")
    elif what == "joint in segment":
        f = Frame(Vector(1, 2, 3)); j = make("J", JOINTS[3]); s = Segment("n", j, f); w = values(s); f.p = Vector(); del j; churn(); check(values(s) == w, k, "a segment follows what it was made from")
    elif what == "segment out":
        c = make("C", ch(CHAINS[3])); s = c.getSegment(1); w = values(s); del c; churn(); check(values(s) == w, k, "a segment changed with its chain gone")
    elif what == "joint out":
        s = make("S", SEGS[2]); j = s.getJoint(); w = values(j); del s; churn(); check(values(j) == w, k, "a joint changed with its segment gone")
    elif what == "inertia out":
        s = make("S", SEGS[2]); j = s.getInertia(); w = values(j); s.setInertia(RigidBodyInertia(3.)); check(values(j) == w, k, "an inertia read earlier changed"); del s; churn(); check(values(j) == w, k, "an inertia changed with its segment gone")
    elif what == "getChain out":
        t = Tree("b"); t.addChain(make("C", ch(CHAINS[3])), "b"); c = t.getChain("b", "s4"); w = values(c); del t; churn(); check(values(c) == w, k, "a chain changed with its tree gone")
    elif what == "column out":
        j = make("JC", alphabet("JC", [])[2]); t = j.getColumn(1); w = values(t); j.setColumn(1, Twist()); check(values(t) == w, k, "a column read earlier changed"); del j; churn(); check(values(t) == w, k, "a column changed with its Jacobian gone")
    elif what == "value out":
        v = make("JV", alphabet("JV", [])[2]); q = v.value(); w = values(q); v.q[0] = 99.; check(values(q) == w, k, "a value read earlier changed"); del v; churn(); check(values(q) == w, k, "a value changed with its owner gone")
    elif what == "weights":
        c = make("C", ch(CHAINS[3])); s = ChainIkSolverVel_pinv_nso(c); x = arr(c.getNrOfJoints(), QPAT[1]); s.setWeights(x); s.setOptPos(x); w = values(x); x[0] = 77.; y, z = s.getWeights(), s.getOptPos(); check(values(y) == w and values(z) == w, k, "weights follow the array they were set from"); del s; churn(); check(values(y) == w and values(z) == w, k, "weights changed with the solver gone")
    elif what == "limits":
        c = make("C", ch(CHAINS[3])); n = c.getNrOfJoints(); lo, hi = arr(n, lambda i: -2.), arr(n, lambda i: 2.); fk, iv = ChainFkSolverPos_recursive(c), ChainIkSolverVel_pinv(c)
        s = ChainIkSolverPos_NR_JL(c, lo, hi, fk, iv); w = values(use_ikp(s, n)); lo[0] = 1.9; hi[1] = -1.9; got = values(use_ikp(s, n)); check(near(got[0], w[0], 1e-9), k, "limits follow the arrays they were set from"); lo.resize(0); del hi; churn(); check(near(values(use_ikp(s, n))[0], w[0], 1e-9), k, "limits follow the arrays they were set from")
    elif what == "frame part":
        p = Frame(Vector(1, 2, 3)).p; churn(); check(values(p)[0] == [1, 2, 3], k, "a part changed with its frame gone"); p[0] = 7.; check(p[0] == 7., k, "a part cannot be written")
    elif what == "nested part":
        v = make("FV", alphabet("FV", [])[1]); w = values(v.M.R); r = v.M.R; del v; churn(); check(values(r) == w, k, "a nested part changed with its frame gone")
    elif what == "array part":
        v = make("JV", alphabet("JV", [])[2]); q = v.qdot; w = values(q); v.q.resize(50); check(values(q) == w, k, "an array part changed"); v.resize(5); q[4] = 2.; check(v.qdot[4] == 2. and q.rows() == 5, k, "an array part is not the array's"); del v; churn(); check(q[4] == 2., k, "an array part changed with its owner gone")
    else:
        # default arguments are not changed by use
        s = Segment("n"); s.setInertia(RigidBodyInertia(5.)); f = s.getFrameToTip(); f.p = Vector(9, 9, 9); j = s.getInertia()
        for x in (Frame.Identity(), Vector.Zero(), Rotation.Identity(), Twist.Zero(), Wrench.Zero(), FrameVel.Identity(), VectorVel.Zero(), TwistVel.Zero(), RotationVel.Identity()):
            t = {Frame: "F", Vector: "V", Rotation: "R", Twist: "T", Wrench: "W", FrameVel: "FV", VectorVel: "VV", TwistVel: "TV", RotationVel: "RV"}[type(x)]
            w = values(x); leaf(x, t); check(values(getattr(type(x), "Identity" if hasattr(type(x), "Identity") else "Zero")()) == w, k, "the constant of %s can be changed" % t)
        w = values(Segment("n")); z = oracle(next(o[0] for o in OPS if o[5] == ":Segment('n')"), [])
        check(near(w[0], z[0]) and w[1] == z[1], k, "default arguments changed by use")
    state(what)

# ------------------------------------------------------------------ 5. arguments by name
import ast, itertools
PRE = """
A = Vector(.3, -1.2, 2.5); B = Vector(-4., 3., .01); C_ = Vector(1., .5, -.2)
Rr = Rotation.RPY(.4, -.7, 2.1); Fr = Frame(Rr, B); F2 = Frame(Rotation.RPY(-.2, .5, 1.), A)
Tw = Twist(A, C_); Tw2 = Twist(C_, B); Wr = Wrench(B, C_); Wr2 = Wrench(A, B)
vA = VectorVel(A, B); vB = VectorVel(C_, A); vT = TwistVel(vA, vB); vT2 = TwistVel(vB, vA); vR = RotationVel(Rr, C_); vR2 = RotationVel(F2.M, A); vF = FrameVel(vR, vA); vF2 = FrameVel(vR2, vB); dd = doubleVel(.7, -.3); de = doubleVel(1.5, 2.)
chn = make("C", ch(CHAINS[3])); n = chn.getNrOfJoints(); n4 = n
qa = arr(n, QPAT[1]); qb = arr(n, QPAT[2]); qc = arr(n, lambda i: .1 * i - 2); qo = JntArray(n); qv = JntArrayVel(qa, qb); qw = JntArrayVel(qc, qa); qvo = JntArrayVel(n)
jc = make("JC", alphabet("JC", [])[2]); jo = Jacobian(3); j3 = make("JA", [3, .1, 2., -3.]); jm = make("JM", alphabet("JM", [])[2]); jm2 = JntSpaceInertiaMatrix(3); jmo = JntSpaceInertiaMatrix(3); q3 = JntArray(3)
Rn = Rotation(); Fo = Frame(); Fvo = FrameVel(); Two = Twist(); Jn = Jacobian(n); Mn = JntSpaceInertiaMatrix(n)
rb = make("RB", RBS[1]); ri = RotationalInertia(.5, .6, .7, .01, .02, .03); sg = make("S", SEGS[1]); sg2 = make("S", SEGS[2]); jnt = make("J", JOINTS[3]); tr = Tree("base"); tr.addSegment(Segment("one", jnt), "base")
fkp = ChainFkSolverPos_recursive(chn); fkv = ChainFkSolverVel_recursive(chn); ikv = ChainIkSolverVel_pinv(chn); nso = ChainIkSolverVel_pinv_nso(chn); wd = ChainIkSolverVel_wdls(chn); lma = ChainIkSolverPos_LMA(chn); jac = ChainJntToJacSolver(chn); jd = ChainJntToJacDotSolver(chn); rne = ChainIdSolver_RNE(chn, Vector(.5, 1., -9.)); dyn = ChainDynParam(chn, Vector(.5, 1., -9.))
goal = Frame(Rotation.RPY(.2, .1, .3), Vector(.5, .4, .9)); exts = [Wr] + [Wrench()] * 3 + [Wr2]
lim = arr(n, lambda i: -2.5); lim2 = arr(n, lambda i: 2.25)
"""
# the call with every argument named; after the bar how many at the end may be left out at these values; then what else to look at
NAMED = """
Vector(x=1., y=2., z=3.)
A.x(value=5.) || A
A.y(value=5.) || A
A.z(value=5.) || A
Wrench(force=A, torque=B)
Twist(vel=A, rot=B)
Wr.RefPoint(base=A)
Tw.RefPoint(base=A)
Rotation(xx=1., yx=2., zx=3., xy=4., yy=5., zy=6., xz=7., yz=8., zz=9.)
Rotation(x=A, y=B, z=C_)
Rotation.RotX(angle=.4)
Rotation.RotY(angle=.4)
Rotation.RotZ(angle=.4)
Rotation.Rot(rotvec=A, angle=.4)
Rotation.Rot2(rotvec=Vector(0, .6, .8), angle=.4)
Rotation.EulerZYZ(alpha=.1, beta=.3, gamma=.7)
Rotation.EulerZYX(alpha=.1, beta=.3, gamma=.7)
Rotation.RPY(roll=.1, pitch=.3, yaw=.7)
Rotation.Quaternion(x=.5, y=.1, z=.7, w=.5)
Rr.DoRotX(angle=.4) || Rr
Rr.DoRotY(angle=.4) || Rr
Rr.DoRotZ(angle=.4) || Rr
Rr.UnitX(vec=A) || Rr
Rr.UnitY(vec=A) || Rr
Rr.UnitZ(vec=A) || Rr
Frame(R=Rr, V=A)
Frame.DH(a=.1, alpha=.3, d=.7, theta=-.4)
Frame.DH_Craig1989(a=.1, alpha=.3, d=.7, theta=-.4)
Fr.Integrate(twist=Tw, sample_frequency=50.) || Fr
diff(a=A, b=B, dt=.5)
diff(a=A, b=B, dt=1.) | 1
diff(a=Rr, b=F2.M, dt=.5)
diff(a=Rr, b=F2.M, dt=1.) | 1
diff(a=Fr, b=F2, dt=.5)
diff(a=Fr, b=F2, dt=1.) | 1
diff(a=Tw, b=Tw2, dt=.5)
diff(a=Tw, b=Tw2, dt=1.) | 1
diff(a=Wr, b=Wr2, dt=.5)
diff(a=Wr, b=Wr2, dt=1.) | 1
addDelta(a=A, da=B, dt=.5)
addDelta(a=A, da=B, dt=1.) | 1
addDelta(a=Rr, da=B, dt=.5)
addDelta(a=Rr, da=B, dt=1.) | 1
addDelta(a=Fr, da=Tw, dt=.5)
addDelta(a=Fr, da=Tw, dt=1.) | 1
addDelta(a=Tw, da=Tw2, dt=.5)
addDelta(a=Tw, da=Tw2, dt=1.) | 1
addDelta(a=Wr, da=Wr2, dt=.5)
addDelta(a=Wr, da=Wr2, dt=1.) | 1
diff(a=dd, b=de, dt=.5)
diff(a=dd, b=de, dt=1.) | 1
addDelta(a=dd, da=de, dt=.5)
addDelta(a=dd, da=de, dt=1.) | 1
diff(a=vA, b=vB, dt=.5)
diff(a=vA, b=vB, dt=1.) | 1
diff(a=vR, b=vR2, dt=.5)
diff(a=vR, b=vR2, dt=1.) | 1
diff(a=vF, b=vF2, dt=.5)
diff(a=vF, b=vF2, dt=1.) | 1
addDelta(a=vA, da=vB, dt=.5)
addDelta(a=vA, da=vB, dt=1.) | 1
addDelta(a=vR, da=vB, dt=.5)
addDelta(a=vR, da=vB, dt=1.) | 1
addDelta(a=vF, da=vT, dt=.5)
addDelta(a=vF, da=vT, dt=1.) | 1
Equal(a=A, b=A + Vector(.01, 0, 0), eps=.1)
Equal(a=Rr, b=addDelta(Rr, Vector(.01, 0, 0)), eps=.1)
Equal(a=Fr, b=addDelta(Fr, Twist(Vector(.01, 0, 0), Vector())), eps=.1)
Equal(a=Tw, b=Tw + Twist(Vector(.01, 0, 0), Vector()), eps=.1)
Equal(a=Wr, b=Wr + Wrench(Vector(.01, 0, 0), Vector()), eps=.1)
Equal(a=A, b=A + Vector(5e-7, 0, 0), eps=1e-6) | 1
Equal(a=Fr, b=addDelta(Fr, Twist(Vector(5e-7, 0, 0), Vector())), eps=1e-6) | 1
Equal(a=Tw, b=Tw + Twist(Vector(2e-6, 0, 0), Vector()), eps=1e-6) | 1
A.Norm(eps=1e-6) | 1
A.Normalize(eps=1e-6) | 1 | A
VectorVel(p=A, v=B)
VectorVel(p=A)
TwistVel(vel=vA, rot=vB)
TwistVel(p=Tw, v=Tw2)
TwistVel(p=Tw)
vT.RefPoint(base=vA)
RotationVel(R=Rr)
RotationVel(R=Rr, w=A)
vR.DoRotX(angle=dd) || vR
vR.DoRotY(angle=dd) || vR
vR.DoRotZ(angle=dd) || vR
RotationVel.RotX(angle=dd)
RotationVel.RotY(angle=dd)
RotationVel.RotZ(angle=dd)
RotationVel.Rot(rotvec=A, angle=dd)
RotationVel.Rot2(rotvec=Vector(0, .6, .8), angle=dd)
FrameVel(T=Fr)
FrameVel(T=Fr, t=Tw)
FrameVel(M=vR, p=vA)
Joint(name="jn", type=Joint.RotX, scale=2., offset=.3, inertia=.1, damping=.2, stiffness=.4)
Joint(name="jn", type=Joint.Fixed, scale=1., offset=0., inertia=0., damping=0., stiffness=0.) | 6
Joint(type=Joint.TransY, scale=2., offset=.3, inertia=.1, damping=.2, stiffness=.4)
Joint(type=Joint.RotZ, scale=1., offset=0., inertia=0., damping=0., stiffness=0.) | 5
Joint(name="jn", origin=A, axis=B, type=Joint.RotAxis, scale=2., offset=.3, inertia=.1, damping=.2, stiffness=.4)
Joint(name="jn", origin=A, axis=B, type=Joint.TransAxis, scale=1., offset=0., inertia=0., damping=0., stiffness=0.) | 5
Joint(origin=A, axis=B, type=Joint.RotAxis, scale=2., offset=.3, inertia=.1, damping=.2, stiffness=.4)
Joint(origin=A, axis=B, type=Joint.TransAxis, scale=1., offset=0., inertia=0., damping=0., stiffness=0.) | 5
jnt.pose(q=.4)
jnt.twist(q_dot=.4)
RotationalInertia(Ixx=1., Iyy=2., Izz=3., Ixy=.1, Ixz=.2, Iyz=.3)
RotationalInertia(Ixx=1., Iyy=2., Izz=3., Ixy=0., Ixz=0., Iyz=0.) | 3
RotationalInertia(Ixx=0., Iyy=0., Izz=0., Ixy=0., Ixz=0., Iyz=0.) | 6
RigidBodyInertia(m=2., oc=A, Ic=ri)
RigidBodyInertia(m=2., oc=Vector.Zero(), Ic=RotationalInertia.Zero()) | 2
RigidBodyInertia(m=0., oc=Vector.Zero(), Ic=RotationalInertia.Zero()) | 3
rb.RefPoint(p=A)
Segment(name="sn", joint=jnt, f_tip=Fr, I=rb)
Segment(name="sn", joint=Joint(), f_tip=Frame.Identity(), I=RigidBodyInertia.Zero()) | 3
Segment(joint=jnt, f_tip=Fr, I=rb)
Segment(joint=Joint(), f_tip=Frame.Identity(), I=RigidBodyInertia.Zero()) | 3
sg.pose(q=.4)
sg.twist(q=.4, q_dot=-.7)
sg.setInertia(I_in=rb) || sg
chn.addSegment(segment=sg2) || chn
chn.addChain(chain=make("C", ch(CHAINS[2]))) || chn
Tree(root_name="base")
Tree(root_name="root") | 1
tr.addSegment(segment=sg2, hook_name="one") || tr
tr.addChain(chain=chn, hook_name="one") || tr
tr.addTree(tree=Tree("other"), hook_name="one") || tr
tr.getChain(chain_root="base", chain_tip="one")
tr.getChain(chain_root="one", chain_tip="base")
Jacobian(nr_columns=3)
jc.changeRefPoint(base=A) || jc
jc.changeBase(rot=Rr) || jc
jc.changeRefFrame(frame=Fr) || jc
changeRefPoint(src=jc, base=A, dest=jo) || jo jc
changeBase(src=jc, rot=Rr, dest=jo) || jo jc
changeRefFrame(src=jc, frame=Fr, dest=jo) || jo jc
SetToZero(jac=jc) || jc
SetToZero(jnt_array=qa) || qa
SetToZero(jnt_array_vel=qv) || qv
SetToZero(matrix=jm) || jm
SetToZero(vector=A) || A
SetToZero(twist=Tw) || Tw
SetToZero(wrench=Wr) || Wr
SetToZero(vector_vel=vA) || vA
SetToZero(twist_vel=vT) || vT
JntArray(size=4)
qa.resize(size=2) || qa
JntArrayVel(size=3)
JntArrayVel(q=qa, q_dot=qb)
qv.resize(size=2) || qv
jm.resize(new_size=2)
Add(src1=qa, src2=qb, dest=qo) || qo qa qb
Subtract(src1=qa, src2=qb, dest=qo) || qo qa qb
Multiply(src=qa, factor=2.5, dest=qo) || qo qa
Divide(src=qa, factor=2.5, dest=qo) || qo qa
MultiplyJacobian(jac=jc, src=j3, dest=Two) || Two
Add(src1=qv, src2=qw, dest=qvo) || qvo qv qw
Add(src1=qv, src2=qa, dest=qvo) || qvo qv qa
Subtract(src1=qv, src2=qw, dest=qvo) || qvo qv qw
Subtract(src1=qv, src2=qa, dest=qvo) || qvo qv qa
Multiply(src=qv, factor=2.5, dest=qvo) || qvo qv
Multiply(src=qv, factor=dd, dest=qvo) || qvo qv
Divide(src=qv, factor=2.5, dest=qvo) || qvo qv
Divide(src=qv, factor=dd, dest=qvo) || qvo qv
Add(src1=jm, src2=jm, dest=jmo) || jmo jm
Subtract(src1=jm, src2=jm2, dest=jmo) || jmo jm
Multiply(src=jm, factor=2.5, dest=jmo) || jmo jm
Divide(src=jm, factor=2.5, dest=jmo) || jmo jm
Multiply(src=jm, vec=j3, dest=q3) || q3 jm j3
Equal(src1=qa, src2=qb, eps=10.)
Equal(src1=jm, src2=jm, eps=1e-6) | 1
fkp.JntToCart(q_in=qa, p_out=Fo, segmentNr=2) || Fo
fkp.JntToCart(q_in=qa, p_out=Fo, segmentNr=-1) | 1 | Fo
fkv.JntToCart(q_in=qv, p_out=Fvo, segmentNr=2) || Fvo
fkv.JntToCart(q_in=qv, p_out=Fvo, segmentNr=-1) | 1 | Fvo
ikv.CartToJnt(q_in=qa, v_in=Tw, q_dot_out=qo) || qo qa
lma.CartToJnt(q_init=qa, p_in=goal, q_out=qo) || qo qa
use_ikp(ChainIkSolverPos_NR(chain=chn, fksolver=fkp, iksolver=ikv, maxiter=7, eps=1e-3), n)
use_ikp(ChainIkSolverPos_NR(chain=chn, fksolver=fkp, iksolver=ikv, maxiter=100, eps=1e-6), n) | 2
use_ikp(ChainIkSolverPos_NR_JL(chain=chn, q_min=lim, q_max=lim2, fksolver=fkp, iksolver=ikv, maxiter=7, eps=1e-3), n)
use_ikp(ChainIkSolverPos_NR_JL(chain=chn, q_min=lim, q_max=lim2, fksolver=fkp, iksolver=ikv, maxiter=100, eps=1e-6), n) | 2
use_ikp(ChainIkSolverPos_LMA(chain=chn, eps=1e-2, maxiter=3, eps_joints=1e-6), n)
use_ikp(ChainIkSolverPos_LMA(chain=chn, eps=1e-5, maxiter=500, eps_joints=1e-15), n) | 3
use_ikv(ChainIkSolverVel_pinv(chain=chn, eps=.3, maxiter=20), n)
use_ikv(ChainIkSolverVel_pinv(chain=chn, eps=1e-5, maxiter=150), n) | 2
use_ikv(ChainIkSolverVel_wdls(chain=chn, eps=.3, maxiter=20), n)
read_wd(ChainIkSolverVel_wdls(chain=chn, eps=1e-5, maxiter=150), n) | 2
use_ikv(ChainIkSolverVel_pinv_nso(chain=chn, eps=.3, maxiter=20, alpha=.7), n)
read_nso(ChainIkSolverVel_pinv_nso(chain=chn, eps=1e-5, maxiter=150, alpha=.25), n) | 3
use_ikv(ChainIkSolverVel_pinv_givens(chain=chn), n)
nso.setWeights(weights=qa) || nso
nso.setOptPos(opt_pos=qa) || nso
nso.setAlpha(alpha=.7) || nso
wd.setEps(eps=.7) || wd
wd.setLambda(**{"lambda": .7}) || wd
jac.JntToJac(q_in=qa, jac=Jn, seg_nr=2) || Jn
jac.JntToJac(q_in=qa, jac=Jn, seg_nr=-1) | 1 | Jn
jd.JntToJacDot(q_in=qv, jdot=Jn, seg_nr=2) || Jn
jd.JntToJacDot(q_in=qv, jdot=Jn, seg_nr=-1) | 1 | Jn
jd.JntToJacDot(q_in=qv, jac_dot_q_dot=Two, seg_nr=2) || Two
jd.JntToJacDot(q_in=qv, jac_dot_q_dot=Two, seg_nr=-1) | 1 | Two
rne.CartToJnt(q=qa, q_dot=qb, q_dot_dot=qc, f_ext=exts, torques=qo) || qo
use_id(ChainIdSolver_RNE(chain=chn, grav=A), n)
dyn.JntToCoriolis(q=qa, q_dot=qb, coriolis=qo) || qo
dyn.JntToMass(q=qa, H=Mn) || Mn
dyn.JntToGravity(q=qa, gravity=qo) || qo
""".strip().splitlines()
def read_wd(s, n): r = use_ikv(s, n); return [s.getEps(), s.getLambda(), s.getSVDResult(), s.getNrZeroSigmas()] + r
def read_nso(s, n): r = use_ikv(s, n); return [s.getAlpha(), s.getWeights(), s.getOptPos()] + r
def show(x):
    if x is None: return [], ""
    if isinstance(x, ChainIkSolverVel_pinv_nso): x = read_nso(x, x.getWeights().rows())
    elif isinstance(x, ChainIkSolverVel_wdls): x = read_wd(x, 4)
    return values(x)
def parsed():
    r = []
    for line in NAMED:
        p = [x.strip() for x in line.split("|")] + ["", ""]
        r.append((line, p[0], int(p[1] or 0), p[2].split()))
    return r
class Reorder(ast.NodeTransformer):
    """Rewrites the (only) call with named arguments: the first so many without name, the last so many left out, the rest in another order."""
    def __init__(self, plain, left, order): self.plain, self.left, self.order, self.count = plain, left, order, None
    def visit_Call(self, c):
        if c.keywords and self.count is None:
            k = c.keywords; self.count = len(k)
            k = k[:len(k) - self.left] if self.left else k
            pos, named = k[:self.plain], k[self.plain:]
            c.args = list(c.args) + [x.value for x in pos]
            c.keywords = named[::-1] if self.order else named
            return c
        return self.generic_visit(c)
PRE_CODE = compile(PRE, "<setting>", "exec")
CALLS = {}
def call_of(src, plain, left, order):
    k = (src, plain, left, order)
    if k not in CALLS:
        t = ast.parse(src, mode="eval"); CALLS[k] = compile(ast.fix_missing_locations(Reorder(plain, left, order).visit(t)), "<call>", "eval")
    return CALLS[k]
def count_of(src):
    for c in ast.walk(ast.parse(src, mode="eval")):
        if isinstance(c, ast.Call) and c.keywords: return len(c.keywords)
def outcome(code, look):
    env = dict(globals()); exec(PRE_CODE, env)
    r = show(eval(code, env))
    o = [show(env[x]) for x in look]
    return r[0] + [y for x in o for y in x[0]], r[1] + "".join(x[1] for x in o)

@scenario(split=1)
def named_arguments():
    line, src, optional, look = pick(parsed(), "call")
    n = count_of(src)
    most = 0 if "**" in src else 1 if "_LMA(" in src else n    # the unnamed second argument of that one may be a matrix, which needs numpy
    want = outcome(call_of(src, most, 0, 0), look)
    left = choose(optional + 1, "left out"); plain = choose(min(most, n - left) + 1, "without name"); order = choose(2, "backwards")
    E.transitions += 1
    try: got = outcome(call_of(src, plain, left, order), look)
    except Exception as x:
        check(False, "named " + src.split("(")[0], "%s with %d unnamed and %d left out raises %s %s" % (src, plain, left, type(x).__name__, x)); return
    check(near(got[0], want[0], 1e-12) and got[1] == want[1], "named " + src.split("(")[0], lambda: "%s with %d unnamed and %d left out: %s, expected %s" % (src, plain, left, got, want))
    state(line, plain, left, order)


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
