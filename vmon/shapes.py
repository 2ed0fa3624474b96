"""Small shapes drawn independently (so that sizes coincide by accident all the time).

Every call must either raise or return what one admissible reading of the shapes means; a size of one may
broadcast.  Readings are enumerated from the documented shapes, values come from the step-by-step references."""
import torch

from . import ops, ref

F = torch.float64
S = (1, 2, 3)


class No(Exception):
    """no admissible reading"""


def rn(rng, shape):
    return ops.randn(rng, tuple(shape), F, 0.5)


def dim(rng, good, p=0.75):
    return good if rng.random() < p else rng.choice(S)


def rows(t, n, d):
    """t as a batch of n: rank d, one row or n rows"""
    if t.dim() == d - 1:
        t = t.unsqueeze(0)
    if t.dim() != d or t.shape[0] not in (1, n):
        raise No()
    return t.expand((n,) + tuple(t.shape[1:]))


def need(c):
    if not c:
        raise No()


def full(v, B, T, tail, kind):
    if kind == "":
        v = v.reshape((1, 1) + tail)
    elif kind == "B":
        v = v.unsqueeze(1)
    elif kind == "N":
        v = v.unsqueeze(0)
    return v.expand((B, T) + tail)


def readings(v, B, T, tails, lpv):
    for k in ("", "B", "N", "BN") if lpv else ("", "B"):
        lead = ((B,) if "B" in k else ()) + ((T,) if "N" in k else ())
        for name, tail in tails:
            if tuple(v.shape) == lead + tail:
                yield name, full(v, B, T, tail, k)


# each: (rng) -> name, description, call, wants() -> list of admissible tuples
def lti_lfilter(rng):
    from philtorch import lti

    form = rng.choice(["df1", "df2", "tdf1", "tdf2"])
    B, N, Ma, Mb = (rng.choice(S) for _ in range(4))
    K = max(Ma, Mb)
    be = "diag_ssm" if form in ("df2", "tdf2") and Mb <= Ma == 1 and rng.random() < 0.3 else "ssm"
    lead = lambda: rng.choice([(), (), (B,), (rng.choice(S),)])
    b, a, x = rn(rng, lead() + (Mb + 1,)), rn(rng, lead() + (Ma,)), rn(rng, (B, N))
    zi = rn(rng, lead() + (dim(rng, K),)) if rng.random() < 0.5 else None

    def wants():
        bb, aa = (rows(v, B, 2).unsqueeze(1).expand(B, N, -1) for v in (b, a))
        used = form in ("df2", "tdf2")
        z = torch.zeros(B, K, dtype=F) if zi is None or not used else rows(zi, B, 2)
        need(z.shape[1] == K)
        y, zf = ref.lfilter(bb, aa, x, z, form)
        return [(y,) if zi is None or not used else (y, zf)]

    return "lti.lfilter", dict(form=form, backend=be), dict(b=b, a=a, x=x, zi=zi), lambda: lti.lfilter(b, a, x, zi=zi, form=form, backend=be), wants


def lpv_lfilter(rng):
    from philtorch import lpv

    be = rng.choice(["ssm", "ssm", "torchlpc"])
    form = rng.choice(["df1", "df2", "tdf1", "tdf2"] if be == "ssm" else ["df1", "df2", "tdf1"])
    B, N, Ma, Mb = (rng.choice(S) for _ in range(4))
    K = max(Ma, Mb)
    lead = lambda: rng.choice([(), (), (B,), (rng.choice(S),)])
    b, a, x = rn(rng, lead() + (dim(rng, N, 0.9), Mb + 1)), rn(rng, lead() + (dim(rng, N, 0.9), Ma)), rn(rng, (B, N))
    zi = rn(rng, lead() + (dim(rng, K),)) if rng.random() < 0.5 else None

    def wants():
        n = B
        need(b.shape[-2] == N and a.shape[-2] == N)
        if B == 1:  # (a single signal may run through several filters)
            n = max([1] + [v.shape[0] for v, d in ((b, 3), (a, 3), (zi, 2)) if v is not None and v.dim() == d])
        used = form in ("df2", "tdf2")
        z = torch.zeros(n, K, dtype=F) if zi is None or not used else rows(zi, n, 2)
        need(z.shape[1] == K)
        out = []
        for m in {n, B}:
            try:
                y, zf = ref.lfilter(rows(b, m, 3), rows(a, m, 3), rows(x, m, 2), z[:m], form)
            except No:
                continue
            out.append((y,) if zi is None or not used else (y, zf))
        if not used and n != B:  # (an unused state may or may not count as a row)
            out += [(o[0].expand(n, -1),) for o in out if o[0].shape[0] == 1]
        return out

    return "lpv.lfilter", dict(form=form, backend=be), dict(b=b, a=a, x=x, zi=zi), lambda: lpv.lfilter(b, a, x, zi=zi, form=form, backend=be), wants


def lti_fir(rng):
    from philtorch import lti

    B, N, M = rng.choice(S), rng.choice(S), rng.choice((0, 1, 2, 3))
    tr = rng.random() < 0.5
    b, x = rn(rng, (dim(rng, B), M + 1)), rn(rng, (B, N))
    zi = rn(rng, (dim(rng, B), dim(rng, M))) if rng.random() < 0.5 else None

    def wants():
        z = torch.zeros(B, M, dtype=F) if zi is None else rows(zi, B, 2)
        need(z.shape[1] == M)
        y, zf = ref.fir(rows(b, B, 2).unsqueeze(1).expand(B, N, M + 1), x, z, tr)
        return [(y,) if zi is None else (y, zf)]

    return "lti.fir", dict(transpose=tr), dict(b=b, x=x, zi=zi), lambda: lti.fir(b, x, zi=zi, transpose=tr), wants


def lpv_one(rng):
    from philtorch import lpv

    name = rng.choice(["fir", "allpole"])
    B, N, M = rng.choice(S), rng.choice(S), rng.choice(S)
    tr = rng.random() < 0.5
    c, x = rn(rng, (dim(rng, B), dim(rng, N), M + (name == "fir"))), rn(rng, (B, N))
    zi = rn(rng, (dim(rng, B), dim(rng, M))) if rng.random() < 0.5 else None

    def wants():
        need(c.shape[1] in (1, N))
        z = torch.zeros(B, M, dtype=F) if zi is None else rows(zi, B, 2)
        need(z.shape[1] == M)
        y, zf = getattr(ref, name)(rows(c, B, 3).expand(B, N, -1), x, z, tr)
        return [(y,) if zi is None else (y, zf)]

    return "lpv." + name, dict(transpose=tr), dict(c=c, x=x, zi=zi), lambda: getattr(lpv, name)(c, x, zi=zi, transpose=tr), wants


def linrec(rng):
    from philtorch import lti, lpv

    which = rng.choice(["lti", "lpv"])
    B, N, u = rng.choice(S), rng.choice((1, 2, 3, 5)), rng.choice(S)
    lead = rng.choice([(), (B,), (rng.choice(S),)])
    a = rn(rng, lead if which == "lti" else lead + (dim(rng, N),))
    z, x = rn(rng, rng.choice([(), (B,), (rng.choice(S),)])), rn(rng, (B, N))

    def wants():
        need(a.dim() == 0 or a.shape[0] in (1, B) or which == "lpv" and a.dim() == 1)
        need(which == "lti" or a.shape[-1] == N)
        need(z.dim() == 0 or z.shape[0] in (1, B))
        aa = a.expand(B).unsqueeze(1).expand(B, N) if which == "lti" else a.expand(B, N)
        return [(ref.lin_rec(aa, z.expand(B), x),)]

    return which + ".linear_recurrence", dict(u=u), dict(a=a, init=z, x=x), lambda: (lti if which == "lti" else lpv).linear_recurrence(a, z, x, unroll_factor=u), wants


def comb(rng):
    from philtorch import lti

    B, N, D = rng.choice(S), rng.choice((1, 2, 3, 5)), rng.choice(S)
    a, x = rn(rng, rng.choice([(), (B,), (rng.choice(S),)])), rn(rng, (B, N))
    z = rn(rng, rng.choice([(D,), (B, D), (rng.choice(S),), (rng.choice(S), rng.choice(S))])) if rng.random() < 0.6 else None

    def wants():
        need(a.dim() == 0 or a.shape[0] in (1, B))
        need(z is None or torch.broadcast_shapes(z.shape, (B, D)) == (B, D))
        y, zf = ref.comb(a.expand(B), D, x, torch.zeros(B, D, dtype=F) if z is None else z.expand(B, D))
        return [(y,) if z is None else (y, zf)]

    return "lti.comb_filter", dict(D=D), dict(a=a, x=x, zi=z), lambda: lti.comb_filter(a, D, x, zi=z), wants


def ssr(rng):
    from philtorch import lti, lpv

    which = rng.choice(["lti", "lpv", "op"])
    B, N, M, u = (rng.choice(S) for _ in range(4))
    tv = which == "lpv"
    name = which
    if which == "op":
        name = rng.choice(["lti_recurN", "recurN", "lti_recur2", "recur2"])
        tv = not name.startswith("lti")
        M = 2 if name.endswith("2") else M
    lead = rng.choice([(), (), (B,), (rng.choice(S),)])
    A = rn(rng, lead + ((dim(rng, N, 0.85),) if tv else ()) + (dim(rng, M, 0.9), dim(rng, M, 0.9)))
    z, x = rn(rng, (dim(rng, B), dim(rng, M))), rn(rng, (B, N) if which != "op" and rng.random() < 0.4 else (B, N, dim(rng, M, 0.9)))

    def wants():
        m = A.shape[-1]
        need(A.shape[-2] == m and z.shape[1] == m and z.shape[0] in (1, B))
        xx = torch.cat([x.unsqueeze(-1), torch.zeros(B, N, m - 1, dtype=F)], -1) if x.dim() == 2 else x
        need(xx.shape[2] == m)
        if tv:
            AA = rows(A, B, 4)
            need(AA.shape[1] in (1, N))
            AA = AA.expand(B, N, m, m)
        else:
            AA = rows(A, B, 3).unsqueeze(1).expand(B, N, m, m)
        return [(ref.mat_rec(AA, z.expand(B, m), xx),)]

    if which == "op":
        f = lambda: getattr(torch.ops.philtorch, name)(A, z, x)
    else:
        f = lambda: (lti if which == "lti" else lpv).state_space_recursion(A, z, x, unroll_factor=u)
    return name + " recursion", dict(u=u), dict(A=A, zi=z, x=x), f, wants


def state_space(rng):
    from philtorch import lti, lpv

    which = rng.choice(["lti", "lpv", "lpv", "diag"])
    tv = which == "lpv"
    B, T, M = (rng.choice(S) for _ in range(3))
    feat = rng.random() < 0.4
    Fd = rng.choice(S) if feat else None
    x = rn(rng, (B, T) + ((Fd,) if feat else ()))
    per_row = rng.random() < 0.5
    A = rn(rng, ((B,) if per_row else ()) + ((T,) if tv else ()) + (M, M))
    L = V = None
    if which == "diag":
        n = rng.choice(S) if rng.random() < 0.1 else B
        L = rn(rng, ((n,) if per_row else ()) + (M,))
        V = rn(rng, ((n,) if per_row else ()) + (dim(rng, M, 0.95), dim(rng, M, 0.95))) * 0.3
        V = V + torch.eye(*V.shape[-2:], dtype=F)
        A = V @ torch.diag_embed(L) @ torch.linalg.inv(V) if V.shape[-2:] == (M, M) else None
    K = rng.choice(S)

    def shape(tail):
        lead = ((B,) if rng.random() < 0.4 else ()) + ((T,) if tv and rng.random() < 0.4 else ())
        return tuple(dim(rng, n, 0.9) for n in lead + tail)

    wild = lambda: tuple(rng.choice(S) for _ in range(rng.randint(0, 4 if tv else 3)))
    pick = lambda *tails: wild() if rng.random() < 0.4 else shape(rng.choice(tails))
    Bt = rn(rng, pick((M, Fd) if feat else (M,))) if rng.random() < 0.5 else None
    Ct = rn(rng, pick((M,), (K, M))) if rng.random() < 0.5 else None
    D = rn(rng, pick(*([(Fd,), (K, Fd), (M, Fd)] if feat else [(), (K,), (M,), (1,)]))) if rng.random() < 0.6 else None
    zi = rn(rng, rng.choice([(M,), (B, M), (rng.choice(S), M), (B, rng.choice(S))])) if rng.random() < 0.5 else None
    oi = rng.randint(-M - 1, M) if Ct is None and rng.random() < 0.4 else None
    u = rng.choice([None, 1, 1, 2])

    def wants():
        need(zi is None or tuple(zi.shape) in ((M,), (B, M), (1, M)))
        need(oi is None or -M <= oi < M)
        need(A is not None and (which != "diag" or A.dim() == 2 or A.shape[0] in (1, B)))
        z = torch.zeros(B, M, dtype=F) if zi is None else zi.expand(B, M)
        if Bt is None:
            need(not feat or Fd == M)
            Bs = [torch.eye(M, dtype=F)[:, : Fd or 1].expand(B, T, M, Fd or 1)]
        else:
            Bs = [w if feat else w.unsqueeze(-1) for _, w in readings(Bt, B, T, [("m", (M, Fd))] if feat else [("v", (M,))], tv)]
        if Ct is None:
            Cs = [("s" if oi is not None else "v", None)]
        else:
            Cs = [(nm, w.unsqueeze(-2) if nm == "s" else w) for nm, w in readings(Ct, B, T, [("s", (M,))] + [("v", (k, M)) for k in S], tv)]
        AA = A.unsqueeze(-3).expand(B, T, M, M) if not tv else A.expand(B, T, M, M)
        out = []
        for b in Bs:
            for nm, c in Cs:
                y, zf = ref.state_space(AA, b, c, None, x if feat else x.unsqueeze(-1), z, oi)
                y = y.squeeze(-1) if nm == "s" else y
                ys = [y] if D is None else []
                if D is not None:
                    if tuple(D.shape) in ((), (1,)):  # a plain factor
                        xd = x * D
                        xs = [xd] if xd.dim() == y.dim() else [xd.unsqueeze(-1)] if xd.dim() == 2 else []
                        ys += [y + v for v in xs if v.dim() == y.dim() and (v.dim() == 2 or v.shape[2] == y.shape[2] or 1 in (v.shape[2], y.shape[2]))]
                    if nm == "s":
                        tails = [("s", (Fd,) if feat else ())]
                    else:
                        ks = {y.shape[-1], 1} | (set(S) if y.shape[-1] == 1 else set())
                        tails = [("v", (k,) + ((Fd,) if feat else ())) for k in sorted(ks)]
                        if not feat:
                            tails.append(("0", ()))
                    for n2, w in readings(D, B, T, tails, tv):
                        d = (w * (x.unsqueeze(-2) if n2 == "v" else x)).sum(-1) if feat else (w * x.unsqueeze(-1) if n2 == "v" else w * x)
                        ys.append(y + (d.unsqueeze(-1) if n2 == "0" else d))
                out += [(v,) if zi is None else (v, zf) for v in ys]
        return out

    if which == "diag":
        return "lti.diag_state_space", dict(out_idx=oi, u=u), dict(L=L, V=V, x=x, B=Bt, C=Ct, D=D, zi=zi), lambda: lti.diag_state_space(x, L=L, V=V, B=Bt, C=Ct, D=D, zi=zi, out_idx=oi, unroll_factor=u), wants
    return which + ".state_space", dict(out_idx=oi, u=u), dict(A=A, x=x, B=Bt, C=Ct, D=D, zi=zi), lambda: (lti if which == "lti" else lpv).state_space(A, x, B=Bt, C=Ct, D=D, zi=zi, out_idx=oi, unroll_factor=u), wants


def filtfilt(rng):
    from philtorch import lti

    B, Ma, Mb = (rng.choice(S) for _ in range(3))
    e = rng.choice((0, 0, 1, 2))
    N = rng.choice((1, 2, 3, 4))
    lead = lambda: rng.choice([(), (), (B,), (rng.choice(S),)])
    one = rng.random() < 0.3
    b, a, x = rn(rng, lead() + (Mb + 1,)), rn(rng, lead() + (Ma,)) * 0.4, rn(rng, (N,) if one else (B, N))
    form = rng.choice(["tdf2", "df2", "df1", "tdf1"])

    def wants():
        n = 1 if one else B
        need(N > e)
        if n == 1:
            n = max([1] + [v.shape[0] for v in (b, a) if v.dim() == 2])
            need(n == 1)
        bb, aa, xx = rows(b, n, 2), rows(a, n, 2), x.reshape(-1, N)
        ext = torch.cat([xx[:, :1].expand(-1, e), xx, xx[:, -1:].expand(-1, e)], 1)
        z = ref.lfilter_zi(bb, aa, True)
        k = ext.shape[1]
        once = lambda v: ref.lfilter(bb.unsqueeze(1).expand(-1, k, -1), aa.unsqueeze(1).expand(-1, k, -1), v, z * v[:, :1], "tdf2")[0]
        y = once(once(ext).flip(1)).flip(1)[:, e : k - e]
        return [(y,)] + ([(y[0],)] if one else [])

    return "lti.filtfilt", dict(form=form, padlen=e), dict(b=b, a=a, x=x), lambda: lti.filtfilt(b, a, x, padlen=e, form=form), wants


def coeffs(rng):
    """helpers on coefficients: leading dimensions broadcast"""
    from philtorch import lti, poly

    which = rng.choice(["zi", "ic", "polydiv"])
    lead = lambda: rng.choice([(), (), (2,), (3,), (1,), (2, 3), (rng.choice(S), rng.choice(S))])
    Ma, Mb = rng.choice(S), rng.choice((0, 1, 2, 3))
    if which == "zi":
        b, a = rn(rng, lead() + (Mb + 1,)), rn(rng, lead() + (Ma,)) * 0.4
        t, f = dict(a=a, b=b), lambda: lti.lfilter_zi(a, b)

        def wants():
            sh = torch.broadcast_shapes(a.shape[:-1], b.shape[:-1])
            return [(ref.lfilter_zi(b.expand(sh + (-1,)), a.expand(sh + (-1,)), True),)]

    elif which == "ic":
        b, a, y = rn(rng, lead() + (Mb + 1,)), rn(rng, lead() + (Ma,)), rn(rng, lead() + (dim(rng, Ma, 0.9),))
        x = rn(rng, lead() + (dim(rng, Mb, 0.9),)) if rng.random() < 0.7 else None
        t, f = dict(b=b, a=a, y=y, x=x), lambda: lti.lfiltic(b, a, y, x)

        def wants():
            xx = torch.zeros(Mb, dtype=F) if x is None else x
            need(y.shape[-1] == Ma and xx.shape[-1] == Mb)
            sh = torch.broadcast_shapes(*(v.shape[:-1] for v in (b, a, y, xx)))
            z = [sum((b[..., j] * xx[..., j - m - 1] for j in range(m + 1, Mb + 1)), torch.zeros((), dtype=F)) - sum((a[..., j - 1] * y[..., j - m - 1] for j in range(m + 1, Ma + 1)), torch.zeros((), dtype=F))
                 for m in range(max(Ma, Mb))]
            return [(torch.stack([v.expand(sh) for v in z], -1),)]

    else:
        Mb = max(Mb, Ma - 1)  # (what a longer divisor returns is not specified)
        u, v = rn(rng, lead() + (Mb + 1,)), rn(rng, lead() + (Ma,))
        v = torch.cat([v[..., :1].sign() + v[..., :1], v[..., 1:]], -1)
        t, f = dict(u=u, v=v), lambda: poly.polydiv(u, v)

        def wants():
            need(Mb + 1 >= Ma)
            sh = torch.broadcast_shapes(u.shape[:-1], v.shape[:-1])
            r, q = [u[..., i].expand(sh) for i in range(Mb + 1)], []
            for k in range(Mb + 2 - Ma):
                d = r[k] / v[..., 0]
                q.append(d)
                for j in range(Ma):
                    r[k + j] = r[k + j] - d * v[..., j]
            rem = r[Mb + 2 - Ma :]
            return [(torch.stack(q, -1), torch.stack(rem, -1) if rem else torch.zeros(sh + (0,), dtype=F))]

    def safe():
        try:
            return wants()
        except RuntimeError:  # no common shape
            raise No()

    return which, {}, t, f, safe


FILTERS = [lti_lfilter, lpv_lfilter, lti_fir, lpv_one, linrec, comb, ssr, filtfilt, coeffs]


def close(got, want):
    return len(got) == len(want) and all(g.shape == w.shape and torch.allclose(g, w, 1e-8, 1e-8) for g, w in zip(got, want))


def check(rng, mon, gens):
    name, opts, t, f, wants = rng.choice(gens)(rng)
    sh = {k: None if v is None else tuple(v.shape) for k, v in t.items()}
    mon.case(op=name, **opts, **sh)
    mon.ev("shape-calls")
    try:
        got = ops.astuple(f())
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception:
        mon.ev("shape-rejected")
        return
    try:
        w = wants()
    except No:
        w = []
    got = tuple(v.detach() for v in got)
    if not w:
        mon.fail("accepted:" + name, f"{name} {opts} {sh}: contradictory shapes were accepted, result {[tuple(v.shape) for v in got]}")
    elif not any(close(got, v) for v in w):
        mon.fail("misread:" + name, f"{name} {opts} {sh}: result {[tuple(v.shape) for v in got]} matches no admissible reading ({[[tuple(o.shape) for o in v] for v in w][:4]})")
    else:
        mon.ev("shape-accepted")
        mon.ev("shape-accepted-" + name)
