"""Reference models: naive, step-by-step, written independently of philtorch.

Canonical (fully expanded) arguments.  Plain out-of-place torch operations, so the same
code serves as value oracle (float, complex, int64) and, through PyTorch's own autograd,
as derivative oracle.
"""
import torch


def lin_rec(a, init, x):
    """a (B,T), init (B,), x (B,T) -> h (B,T)"""
    h, out = init, []
    for t in range(x.shape[1]):
        h = a[:, t] * h + x[:, t]
        out.append(h)
    return torch.stack(out, 1)


def mat_rec(A, zi, u):
    """A (B,T,M,M), zi (B,M), u (B,T,M) -> (B,T,M)"""
    h, out = zi, []
    for t in range(u.shape[1]):
        h = (A[:, t] * h.unsqueeze(1)).sum(-1) + u[:, t]
        out.append(h)
    return torch.stack(out, 1)


def state_space(A, Bm, C, D, x, zi, out_idx=None):
    """A (B,T,M,M); Bm (B,T,M,F); C (B,T,K,M) or None; D (B,T,K,F) or None; x (B,T,F); zi (B,M).

    -> y (B,T,K) (C None: K=M, or the one component out_idx), zf (B,M)"""
    h, ys = zi, []
    for t in range(x.shape[1]):
        y = (C[:, t] * h.unsqueeze(1)).sum(-1) if C is not None else h
        if out_idx is not None:
            y = y[:, out_idx].unsqueeze(-1)
        if D is not None:
            y = y + (D[:, t] * x[:, t].unsqueeze(1)).sum(-1)
        ys.append(y)
        h = (A[:, t] * h.unsqueeze(1)).sum(-1) + (Bm[:, t] * x[:, t].unsqueeze(1)).sum(-1)
    return torch.stack(ys, 1), h


def companion(a):
    M = a.shape[-1]
    rows = [-a.unsqueeze(-2)]
    if M > 1:
        rows.append(torch.eye(M, dtype=a.dtype, device=a.device)[:-1].expand(a.shape[:-1] + (M - 1, M)))
    return torch.cat(rows, -2)


def _shift_in(s, v):
    """newest first delay line"""
    if s.shape[1] == 0:
        return s
    return torch.cat([v.unsqueeze(1), s[:, :-1]], 1)


def _shift_out(s):
    if s.shape[1] == 0:
        return s
    return torch.cat([s[:, 1:], torch.zeros_like(s[:, :1])], 1)


def _padk(c, K):
    if c.shape[-1] == K:
        return c
    return torch.cat([c, torch.zeros(c.shape[:-1] + (K - c.shape[-1],), dtype=c.dtype)], -1)


def fir(b, x, zi, transpose):
    """b (B,T,M+1), x (B,T), zi (B,M)"""
    s, ys = zi, []
    for t in range(x.shape[1]):
        bt, xt = b[:, t], x[:, t]
        if transpose:
            ys.append(bt[:, 0] * xt + (s[:, 0] if s.shape[1] else 0))
            s = _shift_out(s) + bt[:, 1:] * xt.unsqueeze(1)
        else:
            ys.append(bt[:, 0] * xt + (bt[:, 1:] * s).sum(1))
            s = _shift_in(s, xt)
    return torch.stack(ys, 1), s


def allpole(a, x, zi, transpose):
    """a (B,T,M), x (B,T), zi (B,M)"""
    s, ys = zi, []
    for t in range(x.shape[1]):
        at = a[:, t]
        if transpose:
            y = x[:, t] + (s[:, 0] if s.shape[1] else 0)
            s = _shift_out(s) - at * y.unsqueeze(1)
        else:
            y = x[:, t] - (at * s).sum(1)
            s = _shift_in(s, y)
        ys.append(y)
    return torch.stack(ys, 1), s


def lfilter(b, a, x, zi, form):
    """b (B,T,Mb+1), a (B,T,Ma), zi (B,max(Ma,Mb)) -> y, zf"""
    K = max(b.shape[-1] - 1, a.shape[-1])
    b, a = _padk(b, K + 1), _padk(a, K)
    z0 = torch.zeros(x.shape[0], K, dtype=x.dtype)
    if form == "df1":
        v, _ = fir(b, x, z0, False)
        return allpole(a, v, z0, False)[0], None
    if form == "tdf1":
        v, _ = allpole(a, x, z0, True)
        return fir(b, v, z0, True)[0], None
    s, ys = zi, []
    for t in range(x.shape[1]):
        bt, at, xt = b[:, t], a[:, t], x[:, t]
        if form == "df2":
            w = xt - (at * s).sum(1)
            ys.append(bt[:, 0] * w + (bt[:, 1:] * s).sum(1))
            s = _shift_in(s, w)
        else:
            y = bt[:, 0] * xt + s[:, 0]
            ys.append(y)
            s = _shift_out(s) + bt[:, 1:] * xt.unsqueeze(1) - at * y.unsqueeze(1)
    return torch.stack(ys, 1), s


def comb(a, D, x, zi):
    """a (B,), zi (B,D) past outputs newest first"""
    past = [zi[:, k] for k in range(D)]  # newest first
    for t in range(x.shape[1]):
        past.insert(0, x[:, t] - a * past[D - 1])
    n = x.shape[1]
    return torch.stack(past[:n][::-1], 1), torch.stack(past[:D], 1)


def lfilter_zi(b, a, transpose):
    """steady state for a unit step (b (Mb+1,), a (Ma,))"""
    K = max(b.shape[-1] - 1, a.shape[-1])
    b, a = _padk(b, K + 1), _padk(a, K)
    if not transpose:
        return (1 / (1 + a.sum(-1, keepdim=True))).expand(a.shape)
    g = b.sum(-1, keepdim=True) / (1 + a.sum(-1, keepdim=True))  # DC gain = constant output
    c = b[..., 1:] - a * g
    return c.flip(-1).cumsum(-1).flip(-1)
