"""Scale covariance: multiplying every length of a figure by a power of two multiplies the lengths measured on it by
the same factor, exactly or nearly (a power of two does not change the mantissa of a floating point number).

`covariant` executes `measures(k)` on the figure at scale 1 and at every other scale; it yields (name, dimension, function)
where the dimension is the power of the scale a result is multiplied with.  Results are numbers, booleans, points,
None, or lists of these; dict keys of the figure are compared as they are."""

SCALES = (2.**-9, 2.**-3, 2.**5, 2.**13)
# a non-dyadic scale as well
SCALES_T = SCALES + (2.**-6, 2.**9, 2.**17)

def flat(x):
    """structure and numbers"""
    if x is None or isinstance(x, (bool, str)):
        return [x]
    if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
        x = x.item()
        if isinstance(x, bool):
            return [x]
    if isinstance(x, (int, float)):
        return [float(x)]
    if hasattr(x, 'inf') and hasattr(x, 'sup'):
        return [float(x.inf), float(x.sup)]
    if hasattr(x, 'x') and hasattr(x, 'y'):
        return flat(x.x) + flat(x.y)
    if isinstance(x, (list, tuple)) or hasattr(x, '__iter__'):
        r = ['[']
        for y in x:
            r += flat(y)
        return r + [']']
    return [type(x).__name__]

def evaluate(f):
    try:
        return flat(f())
    except (ValueError, ArithmeticError, NameError, NotImplementedError) as e:
        return ['raises ' + type(e).__name__]

def covariant(ctx, measures, scales=SCALES, tol=1e-9):
    base = [(name, dim, evaluate(f)) for name, dim, f in measures(1.)]
    for k in scales:
        ctx.step()
        for (name, dim, want), (_, _, f) in zip(base, measures(k)):
            got = evaluate(f)
            factor = k**dim
            ok = len(got) == len(want)
            size = max([abs(w) for w in want if isinstance(w, float) and w == w] + [1.])*factor
            for g, w in zip(got, want):
                if isinstance(w, float) and isinstance(g, float):
                    ok = ok and (abs(g - w*factor) <= tol*size or g != g and w != w)
                else:
                    ok = ok and type(g) is type(w) and g == w
            ctx.check(ok, '{} at the scale {}: got {}, expected {} times {}', name, k, got, factor, want)
