import operator

import numpy as np
import scipy.special
from hypothesis import strategies as st

import popsynth
from popsynth.simulated_variable import SimulatedVariable
from .. import gen, peek, rec
from ..core import Sub, check, fail

ASSUMPTIONS = [
    "operands of one operation have the same selection and length",
    "rearranging and type-changing methods (sort, take, repeat, reshape, concatenate, astype, round to decimals) are "
    "judged on the observed values only",
    "assigning plain values to elements is not arithmetic",
]

UNARY = dict(negative=np.negative, absolute=np.absolute, sqrt=lambda x: np.sqrt(np.abs(x)), exp=lambda x: np.exp(np.clip(x, -9, 9)),
             log10=lambda x: np.log10(np.abs(x) + 1), square=np.square, rint=np.rint, sign=np.sign, isfinite=np.isfinite,
             op_neg=operator.neg, op_abs=abs, op_pos=operator.pos, tanh=np.tanh, rad2deg=np.rad2deg, clip=lambda x: np.clip(x, -1, 2),
             power2=lambda x: x ** 2, logical_not=np.logical_not, floor=np.floor, reciprocal=lambda x: 1.0 / (np.square(x) + 1),
             isnan=np.isnan, accumulate=np.add.accumulate)
BINARY = dict(add=operator.add, sub=operator.sub, mul=operator.mul, truediv=operator.truediv, floordiv=operator.floordiv,
              mod=operator.mod, lt=operator.lt, le=operator.le, gt=operator.gt, ge=operator.ge, eq=operator.eq, ne=operator.ne,
              maximum=np.maximum, minimum=np.minimum, hypot=np.hypot, arctan2=np.arctan2, np_add=np.add, np_multiply=np.multiply,
              logical_and=np.logical_and, logaddexp=np.logaddexp, copysign=np.copysign, power=lambda a, b: np.abs(a) ** (np.abs(b) % 3))
TWO = dict(divmod=divmod, np_divmod=np.divmod, modf=lambda a, b: np.modf(a), frexp=lambda a, b: np.frexp(a))
INPLACE = dict(iadd=operator.iadd, isub=operator.isub, imul=operator.imul, itruediv=operator.itruediv, ifloordiv=operator.ifloordiv,
               ipow=lambda a, b: operator.ipow(a, 2))
PLAIN = dict(iadd=operator.add, isub=operator.sub, imul=operator.mul, itruediv=operator.truediv, ifloordiv=operator.floordiv,
             ipow=lambda a, b: operator.pow(a, 2))
REDUCE = dict(sum=np.sum, mean=np.mean, min=lambda x: np.min(x) if len(x) else 0, max=lambda x: np.max(x) if len(x) else 0,
              std=np.std, median=np.median, any=np.any, all=np.all, prod=lambda x: np.prod(np.tanh(x)), m_sum=lambda x: x.sum(),
              m_min=lambda x: x.min() if len(x) else 0, m_std=lambda x: x.std(), len=len, ptp=lambda x: np.ptp(x) if len(x) else 0,
              percentile=lambda x: np.percentile(x, 30) if len(x) else 0, dot=lambda x: np.dot(x, x), reduce=np.add.reduce,
              argmax=lambda x: np.argmax(x) if len(x) else 0, nansum=np.nansum)
ARRAYF = dict(sort=np.sort, argsort=np.argsort, cumsum=np.cumsum, where=lambda x: np.where(x > 0, x, -1), diff=np.diff,
              concatenate=lambda x: np.concatenate([x, x]), histogram=lambda x: np.histogram(x, bins=[-9, -1, 0, 1, 9])[0],
              interp=lambda x: np.interp(x, [-5, 5], [0, 1]), isin=lambda x: np.isin(x, [0, 1]), outer=lambda x: np.multiply.outer(x, x),
              unique=np.unique, stack=lambda x: np.stack([x, x]), tolist=lambda x: np.array(x.tolist()), array=np.array,
              asarray=np.asarray, broadcast=lambda x: x * np.ones((2, 1)), digitize=lambda x: np.digitize(x, [-1, 0, 1]),
              iter=lambda x: np.array([y for y in x]), take=lambda x: np.take(x, [0]) if len(x) else x, nonzero=lambda x: np.nonzero(x)[0],
              allclose=lambda x: np.allclose(x, x), corr=lambda x: np.array([np.sum(x * 2)]), fl=lambda x: np.array([float(y) for y in x]),
              round0=np.round, round2=lambda x: np.round(x, 2), reshape=lambda x: np.reshape(x, (1, -1)), astype=lambda x: x.astype(float), cp=lambda x: x.copy())

# every elementwise function of numpy, and some of scipy
UFUNCS = {k: getattr(np, k) for k in sorted(dir(np)) if isinstance(getattr(np, k), np.ufunc) and getattr(np, k).signature is None
          and not k.startswith("_")}
UFUNCS.update({"sp_" + k: getattr(scipy.special, k) for k in ("expit", "xlogy", "betainc", "gammainc", "erf", "ndtr", "boxcox1p", "stdtr")})


@st.composite
def cases(draw):
    n = draw(st.integers(0, 6))

    def values(k):
        return draw(st.lists(st.integers(-4, 4), min_size=k, max_size=k)) if draw(st.integers(0, 3)) == 0 else \
            draw(st.lists(gen.num(-5, 5), min_size=k, max_size=k))
    base = []
    sel = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    for _ in range(draw(st.integers(1, 3))):
        base.append(dict(obs=values(n), lat=None if draw(st.integers(0, 3)) == 0 else values(n)))
    i = st.integers(0, 30)
    s = st.one_of(st.integers(-3, 3), gen.num(-3, 3))
    arr = st.lists(gen.num(-3, 3), min_size=6, max_size=6)
    other = st.one_of(st.tuples(st.just("v"), i), st.tuples(st.just("v"), i), st.tuples(st.just("s"), s), st.tuples(st.just("a"), arr))
    mask = st.lists(st.booleans(), min_size=6, max_size=6)
    item = st.one_of(
        st.tuples(st.just("slice"), st.sampled_from([None, 0, 1, 2, -2]), st.sampled_from([None, 1, 3, -1]), st.sampled_from([None, 1, 2, -1])),
        st.tuples(st.just("mask"), mask), st.tuples(st.just("list"), st.lists(st.integers(0, 5), max_size=4)),
        st.tuples(st.just("gt"), s))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("unary"), st.sampled_from(sorted(UNARY)), i),
        st.tuples(st.just("binary"), st.sampled_from(sorted(BINARY)), i, other, st.booleans()),
        st.tuples(st.just("two"), st.sampled_from(sorted(TWO)), i, other),
        st.tuples(st.just("ternary"), st.sampled_from(["clip", "m_clip", "sp_betainc"]), i, other, other, st.integers(0, 2)),
        st.tuples(st.just("ufunc"), st.sampled_from(sorted(UFUNCS)), i, st.lists(other, min_size=2, max_size=2), st.integers(0, 2)),
        st.tuples(st.just("ufunc"), st.sampled_from(sorted(UFUNCS)), i, st.lists(other, min_size=2, max_size=2), st.integers(0, 2)),
        st.tuples(st.just("inplace"), st.sampled_from(sorted(INPLACE)), i, other),
        st.tuples(st.just("inplace"), st.sampled_from(sorted(INPLACE)), i, other),
        st.tuples(st.just("subset_inplace"), st.sampled_from(sorted(INPLACE)), i, item, s),
        st.tuples(st.just("out"), st.sampled_from(["add", "multiply", "maximum", "subtract"]), i, other, i, st.sampled_from(["v", "a"]),
                  st.one_of(st.none(), mask)),
        st.tuples(st.just("at"), i, st.lists(st.integers(0, 5), max_size=3), s),
        st.tuples(st.just("reduce"), st.sampled_from(sorted(REDUCE)), i),
        st.tuples(st.just("arrayf"), st.sampled_from(sorted(ARRAYF)), i),
        st.tuples(st.just("item"), i, item), st.tuples(st.just("item"), i, item),
        st.tuples(st.just("scalar"), i, i),
        st.tuples(st.just("part"), i, st.booleans()), st.tuples(st.just("part"), i, st.booleans()),
        st.tuples(st.just("wrap"), i, st.booleans()),
        st.tuples(st.just("copy"), i),
        st.tuples(st.just("share"), i, i),
        st.tuples(st.just("mask_by"), i, i),
    ), min_size=1, max_size=14))
    return dict(n=n, sel=sel, base=base, ops=[list(o) for o in ops])


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "bO" or b.dtype.kind in "bO":
        return a.dtype.kind == b.dtype.kind and bool(np.all(a == b))
    return bool(np.allclose(a, b, rtol=1e-12, atol=1e-300, equal_nan=True))


def index(item, n, obs):
    k = item[0]
    if k == "slice":
        return slice(item[1], item[2], item[3])
    if k == "mask":
        return np.array((item[1] * 2)[:n], dtype=bool)
    if k == "gt":
        return np.asarray(obs) > item[1]
    return np.array([j % n for j in item[1]] if n else [], dtype=int)


class M:
    """The model: three plain arrays."""

    def __init__(self, obs, lat, sel):
        self.obs, self.lat, self.sel = np.array(obs), np.array(lat), np.array(sel, dtype=bool)


def run(case):
    sel = np.array(case["sel"], dtype=bool)
    pool = []
    for b in case["base"]:
        o = np.array(b["obs"])
        if len(o) == 0:
            o = o.astype(float)
        raw = o.copy()
        l = raw if b["lat"] is None else np.array(b["lat"], dtype=None if b["lat"] else float)
        v = SimulatedVariable(raw, l, sel)
        pool.append((v, M(o, l, sel)))
    lab = dict(ops=0, inplace=0, parts=0, refused=0, aliased=sum(b["lat"] is None for b in case["base"]))

    def look(what):
        for k, (v, m) in enumerate(pool):
            where = "after %s, variable %d" % (what, k)
            check(isinstance(v, SimulatedVariable), "%s is a %s", where, type(v).__name__)
            check(same(np.asarray(v), m.obs), "%s: observed values are %s, not %s", where, np.asarray(v), m.obs)
            check(same(v.latent, m.lat), "%s: latent values are %s, not %s", where, np.asarray(v.latent), m.lat)
            sel = peek.selection_of(v, m.sel)
            check(sel is not None and same(sel, m.sel), "%s: selection is %s, not %s", where, sel, m.sel)
            for part, mask in ((v.selected, m.sel), (v.non_selected, ~m.sel)):
                check(same(np.asarray(part), m.obs[mask]), "%s: its part is %s, not %s", where, np.asarray(part), m.obs[mask])
                check(same(part.latent, m.lat[mask]), "%s: latent values of its part are %s, not %s", where, np.asarray(part.latent), m.lat[mask])

    def add(v, m, what):
        check(isinstance(v, SimulatedVariable), "%s gives a %s", what, type(v).__name__)
        if len(pool) < 12:
            pool.append((v, m))
        else:
            pool[len(m.obs) % 12] = (v, m)

    def pick(k):
        return pool[k % len(pool)]

    def operand(o, m):
        """(argument, its observed, its latent) for an operation with m."""
        n = len(m.obs)
        if o[0] == "v":
            fits = [p for p in pool if len(p[1].obs) == n and np.array_equal(p[1].sel, m.sel)]
            v, w = fits[o[1] % len(fits)]
            return v, w.obs, w.lat
        if o[0] == "s":
            return o[1], o[1], o[1]
        a = np.array((o[1] * 3)[:n], dtype=float)
        if len(a) != n:
            a = np.resize(a, n)
        return a, a.copy(), a.copy()

    def bad(m):
        return m.obs.dtype.kind == "b" or m.lat.dtype.kind == "b"
    for op in case["ops"]:
        what = str(op[:2])
        k = op[0]
        lab["ops"] += 1
        if k == "unary":
            v, m = pick(op[2])
            f = UNARY[op[1]]
            if bad(m) and op[1] not in ("isfinite", "logical_not", "isnan"):
                continue
            add(f(v), M(f(m.obs), f(m.lat), m.sel), what)
        elif k == "binary":
            v, m = pick(op[2])
            a, ao, al = operand(op[3], m)
            f = BINARY[op[1]]
            if any(np.asarray(x).dtype.kind == "b" for x in (m.obs, m.lat, ao, al)) and \
                    op[1] not in ("eq", "ne", "lt", "gt", "logical_and", "le", "ge"):
                continue
            if op[4] and not (op[3][0] == "a"):
                add(f(a, v), M(f(ao, m.obs), f(al, m.lat), m.sel), what)
            elif op[4]:
                # an array on the left hands over to the variable
                add(f(a, v), M(f(ao, m.obs), f(al, m.lat), m.sel), what)
            else:
                add(f(v, a), M(f(m.obs, ao), f(m.lat, al), m.sel), what)
        elif k in ("ternary", "ufunc"):
            v, m = pick(op[2])
            rest = [operand(o, m) for o in ([op[3], op[4]] if k == "ternary" else op[3])]
            if k == "ufunc":
                f = UFUNCS[op[1]]
                rest = rest[:f.nin - 1]
            elif op[1] == "m_clip":
                def f(x, a, b):
                    return x.clip(a, b)
            else:
                f = np.clip if op[1] == "clip" else scipy.special.betainc
            args = [(v, m.obs, m.lat)]
            at = 0 if op[1] == "m_clip" else min(op[-1], len(rest))
            args = rest[:at] + args + rest[at:]
            if k == "ternary" and any(np.asarray(x).dtype.kind == "b" for a in args for x in a[1:]):
                continue
            try:
                xo, xl = f(*[a[1] for a in args]), f(*[a[2] for a in args])
            except Exception:
                continue
            r = f(*[a[0] for a in args])
            if not isinstance(xo, tuple):
                r, xo, xl = (r,), (xo,), (xl,)
            check(len(r) == len(xo), "%s gives %d results", what, len(r))
            for a, b, c in zip(r, xo, xl):
                if np.asarray(b).dtype.kind not in "biuf" or np.asarray(c).dtype.kind not in "biuf":
                    continue
                check(isinstance(a, SimulatedVariable), "%s gives a %s", what, type(a).__name__)
                check(same(np.asarray(a), b) and same(a.latent, c) and same(peek.selection_of(a, m.sel), m.sel),
                      "%s gives %s (latent %s), not %s (latent %s)", what, np.asarray(a), a.latent, b, c)
                if np.all(np.isfinite(b)) and np.all(np.isfinite(c)) and np.asarray(b).dtype == float and np.asarray(c).dtype == float \
                        and np.all(np.abs(b) < 1e6) and np.all(np.abs(c) < 1e6):
                    add(a, M(b, c, m.sel), what)
            lab["ufunc"] = lab.get("ufunc", 0) + 1
        elif k == "two":
            v, m = pick(op[2])
            a, ao, al = operand(op[3], m)
            if any(np.asarray(x).dtype.kind == "b" for x in (m.obs, m.lat, ao, al)):
                continue
            f = TWO[op[1]]
            r = f(v, a)
            xo, xl = f(m.obs, ao), f(m.lat, al)
            check(len(r) == 2, "%s gives %d results", what, len(r))
            for j in range(2):
                add(r[j], M(xo[j], xl[j], m.sel), what)
        elif k == "inplace":
            v, m = pick(op[2])
            a, ao, al = operand(op[3], m)
            if any(np.asarray(x).dtype.kind == "b" for x in (m.obs, m.lat, ao, al)):
                continue
            f = INPLACE[op[1]]
            inplace(v, m, lambda x: f(x, a), f, PLAIN[op[1]], ao, al, lab, what)
        elif k == "subset_inplace":
            v, m = pick(op[2])
            if bad(m):
                continue
            f, ix = INPLACE[op[1]], index(op[3], len(m.obs), m.obs)
            try:
                no, nl = m.obs.copy(), np.array(m.lat)
                no[ix] = f(no[ix], op[4])
                nl[ix] = PLAIN[op[1]](nl[ix], op[4])
            except Exception:
                try:
                    v[ix] = f(v[ix], op[4])
                except Exception:
                    lab["refused"] += 1
                    look(what + " (refused)")
                    continue
                fail("%s went where numpy refuses", what)
            v[ix] = f(v[ix], op[4])
            m.obs, m.lat = no, nl
            lab["inplace"] += 1
        elif k == "out":
            v, m = pick(op[2])
            a, ao, al = operand(op[3], m)
            if any(np.asarray(x).dtype.kind == "b" for x in (m.obs, m.lat, ao, al)):
                continue
            f = getattr(np, op[1])
            n = len(m.obs)
            kw = {}
            if op[6] is not None:
                kw["where"] = np.array((op[6] * 2)[:n], dtype=bool)
            if op[5] == "v":
                fits = [p for p in pool if len(p[1].obs) == n and np.array_equal(p[1].sel, m.sel)
                        and p[1].obs.dtype.kind == "f" and p[1].lat.dtype.kind == "f"]
                if not fits:
                    continue
                w, wm = fits[op[4] % len(fits)]
                no = f(m.obs, ao, out=wm.obs.copy(), **kw)
                nl = f(m.lat, al, out=wm.lat.copy(), **kw)
                r = f(v, a, out=w, **kw)
                check(r is w, "%s: the result is not its output", what)
                wm.obs, wm.lat = no, nl
                lab["inplace"] += 1
            else:
                buf = np.full(n, 7.0)
                r = f(v, a, out=buf, **kw)
                check(same(buf, f(m.obs, ao, out=np.full(n, 7.0), **kw)), "%s: the output array holds %s", what, buf)
        elif k == "at":
            v, m = pick(op[1])
            n = len(m.obs)
            if bad(m) or n == 0 or m.obs.dtype.kind != "f" or m.lat.dtype.kind != "f":
                continue
            ix = [j % n for j in op[2]]
            no, nl = m.obs.copy(), m.lat.copy()
            np.add.at(no, ix, op[3])
            np.add.at(nl, ix, op[3])
            np.add.at(v, ix, op[3])
            m.obs, m.lat = no, nl
            lab["inplace"] += 1
        elif k in ("reduce", "arrayf"):
            v, m = pick(op[2])
            if m.obs.dtype.kind == "b":
                continue
            f = (REDUCE if k == "reduce" else ARRAYF)[op[1]]
            try:
                want = f(m.obs)
            except Exception:
                continue
            got = f(v)
            check(same(np.asarray(got), np.asarray(want)), "%s of %s is %s", op[1], m.obs, np.asarray(got))
            if k == "reduce":
                check(np.ndim(got) == 0 and not isinstance(got, SimulatedVariable), "%s gives %r", what, got)
        elif k == "item":
            v, m = pick(op[1])
            ix = index(op[2], len(m.obs), m.obs)
            add(v[ix], M(m.obs[ix], m.lat[ix], m.sel[ix]), what)
        elif k == "mask_by":
            v, m = pick(op[1])
            w, wm = pick(op[2])
            if len(wm.obs) == len(m.obs) and wm.obs.dtype.kind == "b":
                add(v[w], M(m.obs[wm.obs], m.lat[wm.obs], m.sel[wm.obs]), what)
        elif k == "scalar":
            v, m = pick(op[1])
            if len(m.obs):
                x = v[op[2] % len(m.obs)]
                check(np.ndim(x) == 0 and same(x, m.obs[op[2] % len(m.obs)]), "element %d of %s is %r", op[2] % len(m.obs), m.obs, x)
        elif k == "part":
            v, m = pick(op[1])
            if op[2]:
                add(v.selected, M(m.obs[m.sel], m.lat[m.sel], np.ones(m.sel.sum(), dtype=bool)), what)
            else:
                add(v.non_selected, M(m.obs[~m.sel], m.lat[~m.sel], np.zeros((~m.sel).sum(), dtype=bool)), what)
            lab["parts"] += 1
        elif k == "wrap":
            # as a sub-population does
            v, m = pick(op[1])
            p = v.selected
            ones = np.ones(len(p), dtype=bool)
            if op[2]:
                add(SimulatedVariable(p, p, ones), M(m.obs[m.sel], m.obs[m.sel], ones), what)
            else:
                add(SimulatedVariable(p, p.latent, ones), M(m.obs[m.sel], m.lat[m.sel], ones), what)
        elif k == "copy":
            v, m = pick(op[1])
            add(v.copy(), M(m.obs, m.lat, m.sel), what)
        elif k == "share":
            # two variables made from the same arrays by hand
            v, m = pick(op[1])
            a = np.array(m.obs, dtype=float)
            add(SimulatedVariable(a.copy(), a, m.sel), M(a, a, m.sel), what)
        look(what)
    lab["nontrivial"] = case["n"] > 0 and bool(sel.any())
    return lab


def inplace(v, m, do, f, g, ao, al, lab, what):
    try:
        no = f(m.obs.copy(), ao)
        nl = np.asarray(g(m.lat.copy(), al))
        nl = nl.astype(np.result_type(m.obs.dtype, m.lat.dtype, nl.dtype))
    except Exception:
        try:
            do(v)
        except Exception:
            lab["refused"] += 1
            return
        fail("%s went where numpy refuses", what)
    try:
        r = do(v)
    except TypeError:
        if m.obs.dtype.kind == "i" and nl.dtype.kind == "f":
            # whole numbers observed of others, numpy refuses to round
            lab["refused"] += 1
            return
        raise
    check(r is v, "%s made another object", what)
    m.obs, m.lat = no, nl
    lab["inplace"] += 1


# ---------------------------------------- variables of drawn populations
@st.composite
def pop_cases(draw):
    spec = draw(gen.specs(nmax=12, thin=True))
    spec["uses"] = draw(st.lists(st.tuples(st.sampled_from(["fluxes", "distances", "luminosities", "theta", "aux", "probability"]),
                                           st.sampled_from(["scale", "cut", "inplace_copy", "inplace", "subset"]), gen.num(0.5, 3)),
                                 min_size=1, max_size=4).map(lambda l: [list(x) for x in l]))
    return spec


def run_pop(case):
    spec = gen.resolve(case)
    pop = gen.build(spec).synth.draw_survey(**spec["draw"])
    names = ["fluxes", "distances", "luminosities", "theta", "phi"]
    aux = sorted(peek.aux(pop))

    def get(k):
        return getattr(pop, k)

    def state():
        return {k: (np.array(get(k)), np.array(get(k).latent), np.array(peek.selection_of(get(k), 0))) for k in names + aux}
    st0 = state()
    lab = {}
    sel = np.array(pop.selection)
    for k, use, x in case["uses"]:
        if k == "probability":
            continue
        if k == "aux":
            if not aux:
                continue
            k = aux[0]
        v = get(k)
        o, l, _ = st0[k]
        if use == "scale":
            w = (v * x + 1).selected
            check(same(np.asarray(w), (o * x + 1)[sel]) and same(w.latent, (l * x + 1)[sel]), "%s: scaled selected values differ", k)
        elif use == "cut":
            w = v[v > np.median(o) if len(o) else v > 0]
            m = o > np.median(o) if len(o) else o > 0
            check(same(np.asarray(w), o[m]) and same(w.latent, l[m]) and same(peek.selection_of(w, sel[m]), sel[m]), "%s: a cut differs", k)
        elif use == "inplace_copy":
            w = v * 1.0
            w *= x
            w = v.selected
            w += x
            check(same(np.asarray(w), o[sel] + x) and same(w.latent, l[sel] + x), "%s: shifted selected values differ", k)
        elif use == "subset":
            w = v[:]
            w *= x
        else:
            v *= x
            st0[k] = (o * x, l * x, sel)
            lab["inplace"] = True
        now = state()
        for q in st0:
            for a, b, part in zip(st0[q], now[q], ("observed", "latent", "selection")):
                check(same(a, b), "%s of %s: %s values of %s are %s, not %s", use, k, part, q, b, a)
    check(same(np.array(pop.selection), sel), "the selection of the population changed")
    lab["nontrivial"] = len(sel) > 0
    return lab


SUBCHECKS = [
    Sub("algebra", cases(), run, quick=6000, thorough=200000, rule="variables with elements, some selected"),
    Sub("population", pop_cases(), run_pop, quick=400, thorough=8000, rule="a population with objects"),
]
