#!/opt/veriftools/pyvenv/bin/python
"""Compares the double-double reference model of the harness with independent evaluations in
60-digit arithmetic (mpmath): distribution functions by special functions, series or summation,
moments and entropies by numerical integration or summation of the density.

usage: tools/validate_reference.py [quick|thorough] [jobs]
Exits 1 if some value of the model deviates by more than 2^-62 relatively (2^-60 for moments),
far below the accuracy that any check relies on.
"""
import re, subprocess, sys, os, math
from multiprocessing import Pool
from mpmath import mp, mpf, quad, log, exp, sqrt, gamma, loggamma, digamma, betainc, gammainc, erfc, pi, binomial, atan, inf, beta
mp.dps = 60
HERE = os.path.dirname(os.path.abspath(__file__))
VMC = os.path.join(HERE, '..', 'harness', 'target', 'release', 'vmc')

def parse(key):
    m = re.match(r'(\w+)\((.*)\)$', key)
    fam, body = m.group(1), m.group(2)
    if fam == 'Categorical':
        return fam, dict(p=[mpf(float(x)) for x in re.search(r'\[(.*)\]', body).group(1).split(',')])
    return fam, {k: mpf(float(v)) for k, v in (x.split('=') for x in body.split(','))}

def inc_beta(a, b, x):
    """(I_x(a,b), 1 - it), each by its own series of positive terms."""
    def series(a, b, x):
        # x^a (1-x)^b / (a B(a,b)) * sum (a+b)_n / (a+1)_n x^n
        t = s = mpf(1); n = 0
        while True:
            t *= (a + b + n) / (a + 1 + n) * x
            s += t; n += 1
            if n > 10 and t < s * mpf(10) ** -58 and (a + b + n) / (a + 1 + n) * x < 1:
                return s * exp(a * log(x) + b * log(1 - x) + loggamma(a + b) - loggamma(a + 1) - loggamma(b))
            if n > 400000:
                raise ArithmeticError
    y = 1 - x
    if x * (a + b) < a:
        l = series(a, b, x); return l, (1 - l if l < 0.9 else series(b, a, y))
    u = series(b, a, y); return (1 - u if u < 0.9 else series(a, b, x)), u

def reg_gamma(k, x):
    """(P, Q)"""
    if x < k + 1:
        t = s = 1 / k; n = 0
        while t > s * mpf(10) ** -58:
            n += 1; t *= x / (k + n); s += t
        l = s * exp(k * log(x) - x - loggamma(k)); return l, 1 - l
    u = gammainc(k, x, inf, regularized=True) if x < 2e4 else exp((k - 1) * log(x) - x - loggamma(k)) * (1 + (k - 1) / x + (k - 1) * (k - 2) / x**2)
    return 1 - u, u

class M:
    def __init__(s, key):
        f, v = parse(key)
        s.f = f
        if f in ('Bernoulli', 'Binomial'): s.p = v['p']; s.q = 1 - s.p; s.n = int(v.get('n', 1))
        if f in ('BernoulliQ', 'BinomialQ'): s.q = v['q']; s.p = 1 - s.q; s.n = int(v.get('n', 1))
        s.discrete = f.startswith(('Bern', 'Bino', 'Cat'))
        if f == 'Categorical':
            t = sum(v['p']); s.m = [x / t for x in v['p']]; s.n = len(s.m) - 1
        s.v = v
        if f == 'Pert':
            a, b, c = v['a'], v['b'], v['c']
            s.a, s.b = a, c
            s.al, s.be = (4 * b + c - 5 * a) / (c - a), (5 * c - a - 4 * b) / (c - a)
        if f == 'Beta': s.a, s.b, s.al, s.be = v['a'], v['b'], v['alpha'], v['beta']
    def mass(s, k):
        if s.f == 'Categorical': return s.m[k]
        n = s.n
        if n <= 3000: return binomial(n, k) * s.p**k * s.q**(n - k)
        return exp(loggamma(n + 1) - loggamma(k + 1) - loggamma(n - k + 1) + k * log(s.p) + (n - k) * log(s.q))
    def tails_k(s, k):
        n = s.n
        if k >= n: return mpf(1), mpf(0)
        if n <= 3000 or s.f == 'Categorical':
            l = sum((s.mass(j) for j in range(0, k + 1)), mpf(0)); u = sum((s.mass(j) for j in range(k + 1, n + 1)), mpf(0))
            return l, u
        u, l = inc_beta(mpf(k + 1), mpf(n - k), s.p)
        return l, u
    def pdf(s, x):
        v = s.v; f = s.f
        if f in ('Beta', 'Pert'):
            w = s.b - s.a; u = (x - s.a) / w
            return exp((s.al - 1) * log(u) + (s.be - 1) * log(1 - u) - log(w) - loggamma(s.al) - loggamma(s.be) + loggamma(s.al + s.be))
        if f == 'Cauchy': return v['gamma'] / pi / ((x - v['x0'])**2 + v['gamma']**2)
        if f == 'Exponential': return v['lambda'] * exp(-v['lambda'] * x)
        if f == 'Gamma': return exp((v['k'] - 1) * log(x) - x / v['theta'] - loggamma(v['k']) - v['k'] * log(v['theta']))
        if f == 'Gaussian': return exp(-((x - v['mu']) / v['sigma'])**2 / 2) / sqrt(2 * pi) / v['sigma']
        if f == 'Laplace': return exp(-abs(x - v['mu']) / v['b']) / 2 / v['b']
        if f == 'Logistic':
            e = exp(-abs(x - v['mu']) / v['s']); return e / v['s'] / (1 + e)**2
        if f == 'Lognormal': return exp(-((log(x) - v['mu']) / v['sigma'])**2 / 2) / sqrt(2 * pi) / v['sigma'] / x
        if f == 'Triangular':
            a, b, c = v['a'], v['b'], v['c']
            if x < c: return 2 * (x - a) / (b - a) / (c - a)
            if x > c: return 2 * (b - x) / (b - a) / (b - c)
            return 2 / (b - a)
        if f == 'Uniform': return 1 / (v['b'] - v['a'])
    def tails(s, x):
        v = s.v; f = s.f
        if f in ('Beta', 'Pert'): return inc_beta(s.al, s.be, (x - s.a) / (s.b - s.a))
        if f == 'Cauchy':
            z = (x - v['x0']) / v['gamma']
            at = lambda z: atan(1 / z) / pi if z > 0 else 1 + atan(1 / z) / pi if z < 0 else mpf(1) / 2
            return at(-z), at(z)
        if f == 'Exponential': e = exp(-v['lambda'] * x); return -mp.expm1(-v['lambda'] * x), e
        if f == 'Gamma': return reg_gamma(v['k'], x / v['theta'])
        if f == 'Gaussian': z = (x - v['mu']) / v['sigma'] / sqrt(2); return erfc(-z) / 2, erfc(z) / 2
        if f == 'Lognormal': z = (log(x) - v['mu']) / v['sigma'] / sqrt(2); return erfc(-z) / 2, erfc(z) / 2
        if f == 'Laplace':
            z = (x - v['mu']) / v['b']; e = exp(-abs(z)) / 2
            return (e, 1 - e) if z < 0 else (1 - e, e)
        if f == 'Logistic':
            z = (x - v['mu']) / v['s']; return 1 / (1 + exp(-z)), 1 / (1 + exp(z))
        if f == 'Triangular':
            a, b, c = v['a'], v['b'], v['c']
            if x <= c and c > a: l = (x - a)**2 / (b - a) / (c - a); return l, 1 - l
            u = (b - x)**2 / (b - a) / (b - c); return 1 - u, u
        if f == 'Uniform': w = v['b'] - v['a']; return (x - v['a']) / w, (v['b'] - x) / w
    # expectations ------------------------------------------------------------------------------
    def expect(s, g):
        """E g(X, ln f(X)) by summation or integration; None where the integrand is unpleasant."""
        if s.discrete:
            if s.n > 3000: return None
            return sum((m * g(mpf(k), log(m)) for k in range(s.n + 1) for m in [s.mass(k)] if m > 0), mpf(0))
        v = s.v; f = s.f
        h = lambda x: (lambda d: d * g(x, log(d)) if d > 0 else mpf(0))(s.pdf(x))
        if f in ('Beta', 'Pert'):
            if min(s.al, s.be) < 0.3 or max(s.al, s.be) > 300: return None
            # substitute u = t^2 (3 - 2 t) ... tanh-sinh copes with algebraic ends
            return quad(h, [s.a, (s.a + s.b) / 2, s.b])
        if f == 'Triangular':
            return quad(h, sorted({s.v['a'], s.v['c'], s.v['b']}))
        if f == 'Uniform': return quad(h, [v['a'], v['b']])
        if f == 'Exponential': return quad(lambda t: exp(-t) * g(t / v['lambda'], log(v['lambda']) - t), [0, 1, 5, 20, 60, 200])
        if f == 'Gamma':
            k, th = v['k'], v['theta']
            if k < 0.3 or k > 300: return None
            c = loggamma(k)
            pts = [mpf(0), k / 4, k, k + 3 * sqrt(k), k + 10 * sqrt(k) + 10, k + 40 * sqrt(k) + 60, k + 100 * sqrt(k) + 250]
            return quad(lambda t: exp((k - 1) * log(t) - t - c) * g(t * th, (k - 1) * log(t) - t - c - log(th)), pts)
        if f in ('Gaussian', 'Laplace', 'Logistic'):
            loc, sc = v['mu'], v.get('sigma', v.get('b', v.get('s')))
            pts = [-250, -60, -20, -5, 0, 5, 20, 60, 250]
            one = M.__new__(M); one.f = f; one.v = dict(mu=mpf(0), sigma=mpf(1), b=mpf(1), s=mpf(1))
            return quad(lambda t: (lambda d: d * g(loc + sc * t, log(d) - log(sc)) if d > 0 else mpf(0))(one.pdf(t)), pts)
        if f == 'Lognormal':
            mu, sg = v['mu'], v['sigma']
            if sg > 6: return None
            c = log(2 * pi) / 2
            return quad(lambda t: exp(-t * t / 2 - c) * g(exp(mu + sg * t), -t * t / 2 - c - mu - sg * t - log(sg)), [-120, -30, -8, 0, 8, 30, 60, 120])
        return None

def one(group):
    key, rows = group
    bad = []; n = 0; skipped = 0
    try:
        m = M(key)
        if m.f in ('Bernoulli', 'BernoulliQ', 'Binomial', 'BinomialQ') and min(m.p, m.q) < mpf(10)**-250:
            return [], 0, len(rows)
    except Exception as e:
        return [(key, 'parse', repr(e))], 0, 0
    mean = var = None
    for q, x, hi, lo in rows:
        got = mpf(float(hi)) + mpf(float(lo))
        tol = mpf(2) ** -62
        try:
            if q == 'mass': want = m.mass(int(float(x)))
            elif q == 'density': want = m.pdf(mpf(float(x)))
            elif q in ('lower', 'upper'):
                t = m.tails_k(int(float(x))) if m.discrete else m.tails(mpf(float(x)))
                want = t[0 if q == 'lower' else 1]
                # the model offers absolute accuracy for the upper tail of an integer-free 1 - F
            elif q == 'entropy':
                if m.f == 'Cauchy': want = log(4 * pi * m.v['gamma'])
                else:
                    want = m.expect(lambda x, l: -l)
                tol = mpf(2) ** -58
            else:
                tol = mpf(2) ** -58
                if q in ('skewness', 'kurtosis') and m.f in ('Gaussian', 'Laplace', 'Logistic', 'Lognormal'):
                    # unaffected by location and scale; standardised to avoid cancellation here
                    s = M.__new__(M); s.f = m.f; s.discrete = False
                    s.v = dict(mu=mpf(0), sigma=m.v['sigma'] if m.f == 'Lognormal' else mpf(1), b=mpf(1), s=mpf(1))
                    e = s.expect; mean = None
                else: e = m.expect
                if mean is None:
                    mean = e(lambda x, l: x) if m.f != 'Cauchy' else None
                    var = e(lambda x, l: (x - mean)**2) if mean is not None else None
                if mean is None: skipped += 1; continue
                if q == 'mean': want = mean
                elif q == 'variance': want = var
                elif var == 0: skipped += 1; continue
                elif q == 'skewness': want = e(lambda x, l: (x - mean)**3) / var**mpf(1.5)
                elif q == 'kurtosis': want = e(lambda x, l: (x - mean)**4) / var**2 - 3
            if want is None: skipped += 1; continue
        except (ArithmeticError, ValueError) as e:
            skipped += 1; continue
        n += 1
        if not mp.isfinite(got) or abs(want) < mpf(10)**-290:
            if mp.isfinite(got) and abs(got - want) < mpf(2)**-95: continue
            if abs(want) > mpf(10)**300 or abs(want) < mpf(10)**-290 and (not mp.isfinite(got) or abs(got) < mpf(10)**-285): continue
            bad.append((key, q, x, mp.nstr(got, 25), mp.nstr(want, 25))); continue
        err = abs(got - want)
        scale = abs(want)
        if q in ('skewness', 'kurtosis', 'entropy', 'mean'): scale += mpf(1) if q != 'mean' else (sqrt(var) if var else 0)
        # tails that are small differences from one are accurate absolutely
        if err > tol * scale and not (q in ('lower', 'upper') and err < mpf(2)**-95):
            bad.append((key, q, x, mp.nstr(got, 30), mp.nstr(want, 30), mp.nstr(err / scale, 3)))
    return bad, n, skipped

if __name__ == '__main__':
    tier = sys.argv[1] if len(sys.argv) > 1 else 'quick'
    jobs = int(sys.argv[2]) if len(sys.argv) > 2 else 8
    out = subprocess.run([VMC, 'dump-ref', tier], capture_output=True, text=True, check=True).stdout
    groups = {}
    for l in out.splitlines():
        key, q, x, hi, lo = l.split('\t')
        groups.setdefault(key, []).append((q, x, hi, lo))
    n = s = 0; bad = []
    with Pool(jobs) as pool:
        for b, k, sk in pool.imap_unordered(one, groups.items()):
            bad += b; n += k; s += sk
    for b in bad[:60]: print('DEVIATES', *b)
    print(f'{len(groups)} parameter vectors, {n} values of the model compared, {s} skipped, {len(bad)} deviate')
    sys.exit(1 if bad else 0)
