"""numpy and standard library functions written in terms of others; this file is analysed, never run"""
import numpy as np


def np_apply_along_axis(func1d, axis, arr, *args, **kwargs):
    arr = np.moveaxis(np.asarray(arr), axis, -1)
    sh = np.shape(arr)[:-1]
    out = [func1d(arr[ix], *args, **kwargs) for ix in np.ndindex(*sh)]
    n = np.shape(out[0])
    r = np.reshape(np.array(out), tuple(sh) + tuple(n))
    return np.moveaxis(r, -1, axis) if len(n) == 1 else r


def np_ravel_multi_index(multi_index, dims, mode='raise', order='C'):
    r = 0
    for i, d in zip(multi_index, dims):
        r = r*d + (i if np.isscalar(i) else np.asarray(i))
    return r


def np_unravel_index(indices, shape, order='C'):
    out = []
    if not np.isscalar(indices):
        indices = np.asarray(indices)
    for d in list(shape)[::-1]:
        out = [indices % d] + out
        indices = indices // d
    return tuple(out)


def np_put(a, ind, v, mode='raise'):
    f = np.ravel(np.copy(a))
    f[np.array(ind)] = v
    a[...] = np.reshape(f, np.shape(a))


def np_choose(a, choices, out=None, mode='raise'):
    a = np.asarray(a)
    r = np.asarray(choices[0])
    for k in range(1, len(choices)):
        r = np.where(a == k, choices[k], r)
    return r


def np_piecewise(x, condlist, funclist, *args, **kw):
    x = np.asarray(x)
    r = np.zeros(np.shape(x)) if len(funclist) == len(condlist) else _pw(funclist[-1], x, args, kw)
    for c, f in zip(condlist, funclist):
        r = np.where(c, _pw(f, x, args, kw), r)
    return r


def _pw(f, x, args, kw):
    return f(x, *args, **kw) if callable(f) else f*np.ones(np.shape(x))


def np_tensordot(a, b, axes=2):
    a = np.asarray(a)
    b = np.asarray(b)
    if axes == 0:
        return np.multiply.outer(a, b)
    if axes == 1:
        n = np.shape(a)[-1]
        r = np.dot(np.reshape(a, (-1, n)), np.reshape(b, (n, -1)))
        return np.reshape(r, tuple(np.shape(a)[:-1]) + tuple(np.shape(b)[1:]))
    if isinstance(axes, tuple) or isinstance(axes, list):
        p, q = axes
        p = [p] if np.isscalar(p) else list(p)
        q = [q] if np.isscalar(q) else list(q)
        if len(p) == 1 and len(q) == 1:
            return np.tensordot(np.moveaxis(a, p[0], -1), np.moveaxis(b, q[0], 0), 1)
    return np.not_modelled()


def np_kron(a, b):
    a = np.asarray(a)
    b = np.asarray(b)
    if len(np.shape(a)) == 1:
        return np.ravel(np.multiply.outer(a, b))
    return np.concatenate([np.concatenate([v*b for v in row], axis=1) for row in a], axis=0)


def np_rot90(m, k=1, axes=(0, 1)):
    m = np.asarray(m)
    for _ in range(k % 4):
        m = np.swapaxes(m, 0, 1)[::-1]
    return m


def np_ediff1d(ary, to_end=None, to_begin=None):
    d = np.ravel(ary)
    return d[1:] - d[:-1]


def np_gradient(f, *varargs, axis=None, edge_order=1):
    f = np.asarray(f)
    h = varargs[0] if len(varargs) > 0 else 1.
    if np.isscalar(h):
        a = (f[1:2] - f[0:1])/h
        b = (f[2:] - f[:-2])/(2.*h)
        c = (f[-1:] - f[-2:-1])/h
        return np.concatenate([a, b, c])
    d = h[1:] - h[:-1]
    p = d[:-1]
    q = d[1:]
    b = (p*p*f[2:] + (q*q - p*p)*f[1:-1] - q*q*f[:-2])/(p*q*(p + q))
    return np.concatenate([(f[1:2] - f[0:1])/d[:1], b, (f[-1:] - f[-2:-1])/d[-1:]])


def np_dstack(tup):
    return np.concatenate([np.reshape(a, np.shape(a) + (1,)) if len(np.shape(a)) == 2 else np.reshape(a, (1, -1, 1)) for a in tup], axis=2)


def np_array_split(ary, indices_or_sections, axis=0):
    n = len(ary)
    if not np.isscalar(indices_or_sections):
        return np.split(ary, indices_or_sections)
    k = indices_or_sections
    out = []
    i = 0
    for j in range(k):
        m = n//k + (1 if j < n % k else 0)
        out.append(ary[i:i + m])
        i += m
    return out


def np_extract(condition, arr):
    return np.ravel(arr)[np.ravel(condition)]


def np_compress(condition, a, axis=None, out=None):
    c = np.array(condition, dtype=bool)
    if axis is None:
        return np.ravel(a)[c]
    return np.take(a, np.where(c)[0], axis=axis)


def np_subtract_outer(a, b):
    return np.add.outer(a, -np.asarray(b))


def np_divide_outer(a, b):
    return np.multiply.outer(a, 1./np.asarray(b))


def np_add_accumulate(a, axis=0):
    return np.cumsum(a, axis=axis)


def np_multiply_accumulate(a, axis=0):
    return np.cumprod(a, axis=axis)


def np_maximum_accumulate(a, axis=0):
    out = [a[0]]
    for k in range(1, len(a)):
        out.append(np.maximum(out[-1], a[k]))
    return np.array(out)


def np_minimum_accumulate(a, axis=0):
    out = [a[0]]
    for k in range(1, len(a)):
        out.append(np.minimum(out[-1], a[k]))
    return np.array(out)


def np_bitwise_and(a, b):
    return a & b


def np_bitwise_or(a, b):
    return a | b


def np_bitwise_xor(a, b):
    return a ^ b


def np_invert(a):
    return ~a


def np_bitwise_not(a):
    return ~a


def np_divmod(a, b):
    return a // b, a % b


def np_modf(a):
    t = np.trunc(a)
    return a - t, t


def np_copysign(a, b):
    return np.where(np.asarray(b) < 0., -np.abs(a), np.abs(a)) if not np.isscalar(b) or not np.isscalar(a) else (-abs(a) if b < 0. else abs(a))


def np_heaviside(a, h):
    return np.where(np.asarray(a) < 0., 0., np.where(np.asarray(a) > 0., 1., h))


def np_diagonal(a, offset=0, axis1=0, axis2=1):
    return np.diag(a)


def np_trace(a, offset=0, axis1=0, axis2=1):
    return np.sum(np.diag(a))


def np_fill_diagonal(a, val, wrap=False):
    for k in range(min(np.shape(a))):
        a[k, k] = val


def np_copyto(dst, src, casting='same_kind', where=True):
    dst[...] = np.where(where, src, dst)


def np_putmask(a, mask, values):
    a[...] = np.where(mask, values, a)


def np_place(arr, mask, vals):
    if len(vals) == 1:
        arr[...] = np.where(mask, vals[0], arr)
    else:
        arr[mask] = vals


def np_take_along_axis(arr, indices, axis):
    i = np.indices(np.shape(indices))
    ix = [i[k] for k in range(len(np.shape(arr)))]
    ix[axis] = indices
    return arr[tuple(ix)]




def np_r_(key):
    return np.concatenate([np.atleast_1d(k) for k in key]) if isinstance(key, tuple) else np.atleast_1d(key)


def np_c_(key):
    return np.column_stack(list(key))


def builtin_filter(f, seq):
    return [x for x in seq if (x if f is None else f(x))]


def itertools_chain(*its):
    out = []
    for it in its:
        out += list(it)
    return out


def itertools_chain_from_iterable(its):
    out = []
    for it in its:
        out += list(it)
    return out


def itertools_accumulate(it, func=None):
    out = []
    for x in it:
        out.append(x if len(out) == 0 else (out[-1] + x if func is None else func(out[-1], x)))
    return out


def itertools_combinations(it, r):
    it = list(it)
    if r == 0:
        return [()]
    out = []
    for i in range(len(it)):
        for rest in itertools_combinations(it[i + 1:], r - 1):
            out.append((it[i],) + rest)
    return out


class np_finfo:
    def __init__(self, t=None):
        self.eps = 2.**(-52)
        self.tiny = 2.**(-1022)
        self.resolution = 1e-15


class np_iinfo:
    def __init__(self, t=None):
        self.max = 2**63 - 1
        self.min = -2**63


def np_median(a, axis=None):
    s = np.sort(np.ravel(a))
    n = len(s)
    return s[n//2] if n % 2 == 1 else 0.5*(s[n//2 - 1] + s[n//2])


def first_of(seq, *default):
    seq = list(seq)
    if len(seq) == 0:
        if len(default) == 0:
            raise StopIteration
        return default[0]
    return seq[0]


def builtin_max(seq, key=None, default=None):
    seq = list(seq)
    if len(seq) == 0:
        return default
    best = seq[0]
    for x in seq[1:]:
        if (x if key is None else key(x)) > (best if key is None else key(best)):
            best = x
    return best


def builtin_min(seq, key=None, default=None):
    seq = list(seq)
    if len(seq) == 0:
        return default
    best = seq[0]
    for x in seq[1:]:
        if (x if key is None else key(x)) < (best if key is None else key(best)):
            best = x
    return best


def builtin_sorted(seq, key=None, reverse=False):
    out = []
    for x in seq:
        i = len(out)
        kx = x if key is None else key(x)
        while i > 0 and ((out[i - 1] if key is None else key(out[i - 1])) < kx if reverse else (out[i - 1] if key is None else key(out[i - 1])) > kx):
            i -= 1
        out.insert(i, x)
    return out


def take_wrap(a, indices):
    return a[np.asarray(indices) % len(a)]


def take_clip(a, indices):
    return a[np.clip(np.asarray(indices), 0, len(a) - 1)]


def np_convolve(a, v, mode='full'):
    a = np.asarray(a)
    v = np.asarray(v)
    if len(v) > len(a):
        a, v = v, a
    n = len(a)
    m = len(v)
    full = np.zeros(n + m - 1)
    for k in range(m):
        full[k:k + n] += a*v[k]
    if mode == 'full':
        return full
    if mode == 'same':
        return full[(m - 1)//2:(m - 1)//2 + n]
    return full[m - 1:n]


def np_pad(array, pad_width, mode='constant', constant_values=0.):
    array = np.asarray(array)
    if len(np.shape(array)) != 1:
        return np.not_modelled()
    p = (pad_width, pad_width) if np.isscalar(pad_width) else pad_width
    lo = p[0]
    hi = p[1]
    n = len(array)
    if mode == 'constant':
        return np.concatenate([np.ones(lo)*constant_values, array, np.ones(hi)*constant_values])
    if mode == 'edge':
        return np.concatenate([np.ones(lo)*array[0], array, np.ones(hi)*array[-1]])
    if mode == 'wrap':
        return np.concatenate([array[n - lo:], array, array[:hi]])
    return np.not_modelled()


def np_polyval(p, x):
    r = 0.*x
    for c in p:
        r = r*x + c
    return r


def np_hsplit(ary, k):
    return np.split(ary, k, axis=1 if len(np.shape(ary)) > 1 else 0)


def np_vsplit(ary, k):
    return np.split(ary, k, axis=0)


def np_tri(N, M=None, k=0, dtype=float):
    M = N if M is None else M
    return np.where(np.arange(N)[:, None] + k >= np.arange(M)[None, :], 1., 0.)


def np_tril(m, k=0):
    sh = np.shape(m)
    return np.where(np.arange(sh[0])[:, None] + k >= np.arange(sh[1])[None, :], m, 0.)


def np_triu(m, k=0):
    sh = np.shape(m)
    return np.where(np.arange(sh[0])[:, None] + k <= np.arange(sh[1])[None, :], m, 0.)


def np_fromfunction(f, shape, dtype=float, **kw):
    return f(*np.indices(shape), **kw)


def np_setdiff1d(a, b, assume_unique=False):
    return np.unique(np.array([x for x in a if not (x in b)]))


def np_union1d(a, b):
    return np.unique(np.concatenate([np.ravel(a), np.ravel(b)]))


def np_intersect1d(a, b, assume_unique=False):
    return np.unique(np.array([x for x in a if x in b]))


def np_array_equiv(a, b):
    return np.all(np.asarray(a) == np.asarray(b))


def np_lib_stride_tricks_sliding_window_view(x, w):
    return np.array([x[k:k + w] for k in range(len(x) - w + 1)])


def repeat_each(a, n, axis):
    if axis is None:
        a = np.ravel(a)
        axis = 0
    ix = []
    for k, m in enumerate(n):
        ix += [k]*m
    return np.take(a, np.array(ix, dtype=int), axis=axis)


def delete_some(a, obj, axis):
    if axis is None:
        a = np.ravel(a)
        axis = 0
    n = np.shape(a)[axis]
    gone = [k % n for k in ([obj] if np.isscalar(obj) else obj)]
    return np.take(a, np.array([k for k in range(n) if k not in gone], dtype=int), axis=axis)


def sort_along(a, axis):
    if axis is None:
        return np.sort(np.ravel(a))
    a = np.moveaxis(a, axis, -1)
    sh = np.shape(a)
    return np.moveaxis(np.reshape(np.array([np.sort(r) for r in np.reshape(a, (-1, sh[-1]))]), sh), -1, axis)


def argsort_along(a, axis):
    if axis is None:
        return np.argsort(np.ravel(a))
    a = np.moveaxis(a, axis, -1)
    sh = np.shape(a)
    return np.moveaxis(np.reshape(np.array([np.argsort(r) for r in np.reshape(a, (-1, sh[-1]))]), sh), -1, axis)


def split_at(a, where, axis):
    a = np.moveaxis(a, axis, 0)
    n = len(a)
    if np.isscalar(where):
        if n % where != 0:
            raise ValueError('array split does not result in an equal division')
        where = [(k + 1)*(n//where) for k in range(where - 1)]
    ends = [0] + list(where) + [n]
    return [np.moveaxis(a[ends[k]:ends[k + 1]], 0, axis) for k in range(len(ends) - 1)]


def np_add_reduceat(a, indices, axis=0):
    a = np.moveaxis(np.asarray(a), axis, 0)
    ix = list(indices) + [len(a)]
    return np.moveaxis(np.array([np.sum(a[ix[k]:ix[k + 1]], axis=0) if ix[k] < ix[k + 1] else a[ix[k]] for k in range(len(ix) - 1)]), 0, axis)


def np_multiply_reduce(a, axis=0):
    return np.prod(a, axis=axis)


def np_rollaxis(a, axis, start=0):
    if axis < 0 or start < 0:
        return np.not_modelled()
    return np.moveaxis(a, axis, start - 1 if axis < start else start)


def np_real(a):
    return a


def np_require(a, dtype=None, requirements=None):
    return np.asarray(a)


def np_block(arrays):
    return np.concatenate([np.concatenate(r, axis=-1) if isinstance(r, list) else r for r in arrays], axis=0 if isinstance(arrays[0], list) else -1)


def np_vander(x, N=None):
    x = np.asarray(x)
    n = len(x) if N is None else N
    return np.stack([x**(n - 1 - k) for k in range(n)], axis=1)


def np_correlate(a, v, mode='valid'):
    return np.convolve(a, np.asarray(v)[::-1], mode)


def np_sinc(x):
    return np.where(np.asarray(x) == 0., 1., np.sin(np.pi*np.asarray(x))/np.where(np.asarray(x) == 0., 1., np.pi*np.asarray(x)))


def np_quantile(a, q, axis=None):
    s = np.sort(np.ravel(a)) if axis is None else np.not_modelled()
    n = len(s)
    if not np.isscalar(q):
        return np.array([np_quantile(a, x) for x in q])
    h = (n - 1)*q
    k = int(np.floor(h))
    return s[k] if k + 1 >= n else s[k] + (h - k)*(s[k + 1] - s[k])


def np_percentile(a, q, axis=None):
    return np_quantile(a, q/100. if np.isscalar(q) else np.asarray(q)/100., axis)


def itertools_permutations(it, r=None):
    it = list(it)
    if r is None:
        r = len(it)
    if r == 0:
        return [()]
    out = []
    for i in range(len(it)):
        for rest in itertools_permutations(it[:i] + it[i + 1:], r - 1):
            out.append((it[i],) + rest)
    return out


def itertools_islice(it, a, b=None, step=1):
    it = list(it)
    return it[:a] if b is None and step == 1 else it[a:b:step]


def itertools_repeat(x, times):
    return [x]*times


def itertools_starmap(f, it):
    return [f(*x) for x in it]


def itertools_zip_longest(*its, fillvalue=None):
    its = [list(x) for x in its]
    n = max([len(x) for x in its])
    return [tuple([x[k] if k < len(x) else fillvalue for x in its]) for k in range(n)]


def itertools_compress(data, selectors):
    return [d for d, s in zip(data, selectors) if s]


def itertools_pairwise(it):
    it = list(it)
    return list(zip(it[:-1], it[1:]))


class Namespace:
    pass


def item_of(keys, o):
    return o[keys[0]] if len(keys) == 1 else tuple([o[k] for k in keys])


def itertools_takewhile(f, it):
    out = []
    for x in it:
        if not f(x):
            break
        out.append(x)
    return out


def itertools_dropwhile(f, it):
    out = []
    for x in it:
        if len(out) > 0 or not f(x):
            out.append(x)
    return out


def np_signbit(a):
    return np.asarray(a) < 0.


def np_diagflat(v, k=0):
    return np.diag(np.ravel(v))


def np_resize(a, shape):
    a = np.ravel(a)
    n = int(np.prod(shape))
    return np.reshape(a[np.arange(n) % len(a)], shape)
