"""C06: every quadrature rule the code hands out, integrated exactly against all monomials of the announced degree."""
import math, os
from fractions import Fraction as F
import build, core
def feed(ctx, exe, text, name):
    p = os.path.join(ctx.dir("io"), name); open(p, "w").write(text)
    for attempt in (0, 1):
        r = core.run_proc(["bash", "-c", '"$0" < "$1"', exe, p], timeout=60)
        if not core.again(r, attempt): break
    return r
OUTSIDE = {11, 15, 16, 18, 20}      # Dunavant's published rules of these degrees have points outside the triangle
def run(ctx):
    T = build.harness("h_basis", libs=()).submit(); san = build.harness("h_basis", san="asan").submit()
    for exe, tag in ((T.path(), "plain"), (san.path(), "asan")):
        r = feed(ctx, exe, "".join("q1 %d\n" % p for p in range(66)) + "".join("q2 %d\n" % p for p in range(21)), "rules_" + tag)
        ctx.check(r.rc == 0 and "\nEND" in r.out, "rules-run", "supported degrees are not all answered: rc=%s %s%s" % (r.rc, r.out[-200:], r.err[-600:]))
        for line in r.out.splitlines():
            t = line.split()
            if t[0] not in ("Q1", "Q2"): continue
            p, ann, nw, n = map(int, t[1:5]); dim = int(t[0][1]); v = list(map(float, t[5:])); st = dim + 1
            ctx.check(ann == nw == n, "count-%dd-%d" % (dim, p), "announces %d points, returns %d weights and %d points" % (ann, nw, n))
            W = v[0::st]; X = [v[i + 1:i + st] for i in range(0, len(v), st)]
            ctx.check(abs(math.fsum(W) - 2.0) < 1e-13, "measure-%dd-%d" % (dim, p), "weights sum to %.17g" % math.fsum(W))
            worst = 0.0
            if dim == 1:
                for k in range(p + 1):
                    ex = F(2, k + 1) if k % 2 == 0 else F(0)
                    worst = max(worst, abs(math.fsum(w * x[0] ** k for w, x in zip(W, X)) - float(ex)))
                inside = all(-1 <= x[0] <= 1 for x in X)
            else:
                for a in range(p + 1):
                    for b in range(p + 1 - a):
                        # scaled so that monomials stay O(1): (x+1)/2, (y+1)/2 and the third barycentric coordinate
                        ex = F(4 * math.factorial(a) * math.factorial(b), math.factorial(a + b + 2))
                        s = math.fsum(w * ((x[0] + 1) / 2) ** a * ((x[1] + 1) / 2) ** b for w, x in zip(W, X)); worst = max(worst, abs(s - float(ex)))
                        s = math.fsum(w * ((x[0] + 1) / 2) ** a * (-(x[0] + x[1]) / 2) ** b for w, x in zip(W, X)); worst = max(worst, abs(s - float(ex)))
                        ex2 = float(legendre2(a, b)); s = math.fsum(w * x[0] ** a * x[1] ** b for w, x in zip(W, X)); worst = max(worst, abs(s - ex2))
                inside = all(min(x[0] + 1, x[1] + 1, -x[0] - x[1]) >= -1e-14 for x in X) or p in OUTSIDE
                if p in OUTSIDE: inside = all(min(x[0] + 1, x[1] + 1, -x[0] - x[1]) >= -0.25 for x in X)
            ctx.check(inside, "inside-%dd-%d" % (dim, p), "point outside the reference domain")
            ctx.mx("quadrature error %dd" % dim, worst)
            ctx.check(worst < 2e-13, "exact-%dd-%d" % (dim, p), "degree %d: integration error %.3g" % (p, worst))
            ctx.obs("monomials integrated", p + 1 if dim == 1 else (p + 1) * (p + 2) // 2 * 3); ctx.case((tag, dim, p), sample={"dim": dim, "degree": p, "points": n, "error": worst})
        bad = [("q1", p) for p in (66, 67, 100, 131, 1000, 2 ** 31, 2 ** 32 - 1)] + [("q2", p) for p in (21, 22, 25, 40, 41, 100, 2 ** 31, 2 ** 32 - 1)]
        def one(it):
            r = feed(ctx, exe, "%s %d\n" % it, "bad_%s_%s_%d" % (tag, it[0], it[1]))
            ctx.check(not any(l[:3] in ("Q1 ", "Q2 ", "END") for l in r.out.splitlines()), "unsupported-%s-%d" % it, "degree %d answered: %s" % (it[1], r.out[:200]))
            ctx.check(r.rc != 0 and r.sig in (0, 6) and not r.timeout and "Sanitizer" not in r.err, "refusal-%s-%d" % it, "unsupported degree: rc=%s sig=%s %s" % (r.rc, r.sig, r.err[:300]))
            ctx.obs("unsupported degrees refused"); ctx.case((tag, it))
        ctx.par(one, bad)
    return {"rule": "all degrees 0..65 (segment) and 0..20 (triangle), every monomial of the degree against the exact rational value; out-of-range degrees must be refused", "extra": {"exhaustive": True}}
def legendre2(a, b):
    # integral of x^a y^b over the triangle (-1,-1),(1,-1),(-1,1): expand x=2u-1, y=2v-1
    s = F(0)
    for i in range(a + 1):
        for j in range(b + 1):
            s += math.comb(a, i) * math.comb(b, j) * F(2) ** (i + j) * (-1) ** (a - i + b - j) * F(4 * math.factorial(i) * math.factorial(j), math.factorial(i + j + 2))
    return s
