"""C05 time stepping: the real steppers driven on ODEs whose answer is known, and the clock recorded in real runs."""
import math, os, subprocess
import numpy as np
import build, core, gen
SCHEMES = {(1, 1): 1, (2, 2): 2, (3, 3): 3, (3, 4): 3, (3, 5): 3, (3, 6): 3, (3, 7): 3, (3, 8): 3, (4, 5): 4, (4, 6): 4, (4, 7): 4, (4, 8): 4}  # (order, stages)
def feed(exe, text):
    try: p = subprocess.run([exe], input=text, capture_output=True, text=True, timeout=200)
    except subprocess.TimeoutExpired: raise core.Fails("the stepper harness does not end")
    if p.returncode: raise core.Fails("stepper harness rc=%s %s" % (p.returncode, p.stderr[-300:]))
    return p.stdout.split("\n")
def blocks(lines):
    out = []
    for l in lines:
        if l[:3] in ("RK ", "IM ", "ST ") or l.startswith("REFUSED"): out.append([])
        if l: out[-1].append(l.split())
    return out
def ramp_ref(t, r): return 1.0 if r == 0 else math.tanh(2 * t / 86400 / r)
def run(ctx):
    h = build.harness("h_stepper").submit(); recs = {p: build.rec_serial(p).submit() for p in ("rkdg", "ihdg")}
    exe = h.path(); rng = ctx.rng()
    # 1. quadrature conditions, linear stability polynomial, nonlinear order, SSP, clock
    jobs = []; txt = []
    def rk(order, ns, dt, ramp, n, id, par, y0, verbose, tag):
        txt.append("rk %d %d %.17g %.17g %d %d %d %s %d %s %d" % (order, ns, dt, ramp, n, id, len(par), " ".join("%.17g" % x for x in par), len(y0), " ".join("%.17g" % x for x in y0), verbose))
        jobs.append(tag)
    for (o, s) in SCHEMES:
        for k in range(ctx.n(20, 400)):
            dt = 10 ** rng.uniform(-2, 3); a = [rng.uniform(-2, 2) / dt ** i for i in range(o)]
            rk(o, s, dt, 0.0, rng.randint(1, 5), 0, a, [0.0] * o, 0, ("quad", o, s, dt, a))
            a = [rng.uniform(-0.02, 0.02), rng.uniform(-0.3, 0.3)]
            rk(o, s, 1.0, 0.0, 1, 1, a, [1.0, 1.0], 0, ("lin", o, s, a))
            rd = rng.choice([0.0, 10 ** rng.uniform(-3, 2)]); dt = 10 ** rng.uniform(-2, 4); n = rng.randint(1, 60)
            rk(o, s, dt, rd, n, 1, [0.0], [1.0], 1, ("clock", o, s, dt, rd, n))
        for k in range(ctx.n(5, 60)):
            par = [rng.uniform(0.2, 1.5), rng.uniform(0.5, 2), rng.uniform(-1, 1)]; y0 = [rng.uniform(0.3, 1.5), rng.uniform(-1, 1)]
            for m in (6, 12, 24, 48): rk(o, s, 1.6 / m, 0.0, m, 2, par, y0, 0, ("nl", o, s, k, m, par, y0))
        for k in range(ctx.n(5, 60)):
            y0 = [1.0 if 3 <= i < 3 + rng.randint(1, 9) else 0.0 for i in range(16)]; 
            rk(o, s, 1.0, 0.0, 12, 3, [rng.uniform(0.5, 0.999)], y0, 2, ("ssp", o, s, y0))
    for (o, s) in [(a, b) for a in range(0, 6) for b in range(0, 10) if (a, b) not in SCHEMES and b > 0]:
        rk(o, s, 0.1, 0.0, 1, 1, [0.0], [1.0], 0, ("refuse", o, s))
    B = blocks(feed(exe, "\n".join(txt)))
    if len(B) != len(jobs): raise core.Fails("stepper harness: %d answers for %d jobs" % (len(B), len(jobs)))
    nl = {}
    for tag, b in zip(jobs, B):
        kind, o, s = tag[:3]; key = "%d-%d" % (o, s)
        if kind == "refuse":
            ctx.case(tag); ctx.obs("unsupported schemes tried")
            ctx.check(b[0][0] == "REFUSED", "unsupported-scheme-accepted", "order %d with %d stages accepted" % (o, s), tag); continue
        if b[0][0] == "REFUSED": ctx.bad("scheme-refused-" + key, "supported scheme refused", tag); continue
        F = b[-1]
        if F[0] != "F": raise core.Fails("no final line")
        step, stage, stamp = map(int, F[1:4]); t, ramp = float(F[4]), float(F[5]); y = np.array(F[6:], float)
        ctx.obs("integrations")
        if kind == "quad":
            dt, a = tag[3], tag[4]; n = step
            ctx.case(tag, sample={"scheme": key, "dt": dt, "integrates": "t^0..t^%d" % (o - 1)} if len(ctx.samples) < 2 else None)
            ctx.check(abs(t - n * dt) <= 1e-12 * n * dt, "clock-" + key, "t=%r after %d steps of %r" % (t, n, dt), tag)
            for i in range(o):
                ex = a[i] * (n * dt) ** (i + 1) / (i + 1); e = abs(y[i] - ex) / max(abs(ex), 1e-300); ctx.mx("quadrature " + key, e)
                ctx.check(e < 1e-8, "stage-times-" + key, "y'=a t^%d integrated with relative error %.3g" % (i, e), tag)
        elif kind == "lin":
            ctx.case(tag)
            for z, v in zip(tag[3], y):
                T = sum(z ** j / math.factorial(j) for j in range(o + 1)); e = abs(v - T); lim = 0.2 * abs(z) ** (o + 1) + 1e-10
                ctx.mx("stability polynomial " + key, e / lim)
                ctx.check(e <= lim, "linear-order-" + key, "R(%.3g) differs from the Taylor polynomial of order %d by %.3g" % (z, o, e), tag)
        elif kind == "clock":
            dt, rd, n = tag[3:]; ctx.case(tag)
            ctx.check(step == n and stage == 0 and stamp == n * s and abs(t - n * dt) <= 1e-10 * n * dt, "clock-" + key, "after %d steps: step=%d stage=%d stamp=%d t=%r" % (n, step, stage, stamp, t), tag)
            prev = -1
            for i, l in enumerate(b[1:-1]):
                st, sg, ts, tt, rr = int(l[1]), int(l[2]), int(l[3]), float(l[4]), float(l[5]); ctx.obs("clock observations")
                ctx.check(st == i // s and sg == i % s and ts == i, "clock-" + key, "index %s" % l, tag)
                ctx.check(st * dt * (1 - 1e-10) <= tt <= (st + 1.25) * dt, "stage-outside-step-" + key, "stage time %r outside step %d" % (tt, st), tag)
                ref = ramp_ref(tt, rd)
                ctx.check(abs(rr - ref) <= 1e-10 and -1e-15 <= rr <= 1 + 1e-15, "ramp-" + key, "ramp %r at t=%r, want %r" % (rr, tt, ref), tag)
                if sg == 0:
                    ctx.check(rr >= prev - 1e-15, "ramp-" + key, "ramp decreased", tag); prev = rr
        elif kind == "nl": nl.setdefault((o, s, tag[3]), []).append((tag[4], y, tag[5], tag[6]))
        elif kind == "ssp":
            ctx.case(tag); y0 = np.array(tag[3]); tv = lambda v: float(np.sum(np.abs(v - np.roll(v, 1)))); last = tv(y0)
            for l in b:
                if l[0] == "Y":
                    v = np.array(l[1:], float); ctx.obs("TVD observations")
                    ctx.check(tv(v) <= last * (1 + 1e-12) + 1e-12 and v.min() >= -1e-12 and v.max() <= 1 + 1e-12 and abs(v.sum() - y0.sum()) < 1e-10, "ssp-" + key, "total variation grew %.17g -> %.17g, range [%g,%g]" % (last, tv(v), v.min(), v.max()), tag); last = tv(v)
    from_ref = {}
    for (o, s, k), L in nl.items():
        L.sort(key=lambda q: q[0]); par, y0 = L[0][2], L[0][3]
        rk_ = (tuple(par), tuple(y0))
        if rk_ not in from_ref:
            f = lambda t, y: [-par[0] * y[0] * y[0] + math.sin(par[1] * t + y[1]), y[0] * math.cos(t) - par[2] * y[1]]
            y = list(y0); N = 2000; hh = 1.6 / N
            for i in range(N):
                t = i * hh; k1 = f(t, y); k2 = f(t + hh / 2, [a + hh / 2 * b for a, b in zip(y, k1)]); k3 = f(t + hh / 2, [a + hh / 2 * b for a, b in zip(y, k2)])
                k4 = f(t + hh, [a + hh * b for a, b in zip(y, k3)]); y = [a + hh / 6 * (b + 2 * c + 2 * d + e) for a, b, c, d, e in zip(y, k1, k2, k3, k4)]
            from_ref[rk_] = np.array(y)
        E = [float(np.max(np.abs(v - from_ref[rk_]))) for _, v, _, _ in L]
        rate = [math.log2(E[i] / max(E[i + 1], 1e-16)) for i in range(3)]; best = max(rate[1:]); ctx.case(("nl", o, s, k))
        ctx.mx("order shortfall %d-%d" % (o, s), o - best)
        ctx.check(best > o - 0.35 or E[-1] < 1e-10, "order-%d-%d" % (o, s), "errors %s: observed orders %s" % (E, rate), (o, s, k))
    # 2. implicit stepper and splitting clock
    txt, jobs = [], []
    for k in range(ctx.n(40, 600)):
        o, s = rng.choice([(1, 1), (2, 1), (2, 2)]); dt = 10 ** rng.uniform(-2, 4); rd = rng.choice([0.0, 10 ** rng.uniform(-3, 2)]); n = rng.randint(1, 40)
        txt.append("im %d %d %.17g %.17g %d" % (o, s, dt, rd, n)); jobs.append(("im", o, s, dt, rd, n))
        o, s = rng.choice(sorted(SCHEMES)); txt.append("st %d %d %.17g %.17g %d" % (o, s, dt, rd, n)); jobs.append(("st", o, s, dt, rd, n))
    for o, s in [(1, 2), (3, 1), (3, 3), (0, 1), (4, 1)]: txt.append("im %d %d 0.1 0 1" % (o, s)); jobs.append(("imrefuse", o, s))
    B = blocks(feed(exe, "\n".join(txt)))
    for tag, b in zip(jobs, B):
        ctx.case(tag); kind = tag[0]
        if kind == "imrefuse":
            ctx.check(b[0][0] == "REFUSED", "unsupported-implicit-accepted", "order %d, %d stages accepted" % tag[1:], tag); continue
        o, s, dt, rd, n = tag[1:]
        if b[0][0] == "REFUSED": ctx.bad("implicit-refused" if kind == "im" else "strang-refused", str(tag), tag); continue
        for i, l in enumerate([x for x in b if x[0] == "T"]):
            v = [float(q) for q in l[1:]]; ctx.obs("clock observations"); eq = lambda a, c: abs(a - c) <= 1e-10 * max(1e-3, abs(c))
            if kind == "im":
                ctx.check(v[0] == i and v[1] == 0 and v[2] == i and eq(v[3], i * dt) and eq(v[4], (i + 1) * dt), "implicit-clock", "%s" % l, tag)
                ctx.check(abs(v[5] - ramp_ref(i * dt, rd)) < 1e-10 and abs(v[6] - ramp_ref((i + 1) * dt, rd)) < 1e-10, "implicit-ramp", "%s want %r %r" % (l, ramp_ref(i * dt, rd), ramp_ref((i + 1) * dt, rd)), tag)
            else: ctx.check(v[0] == i and eq(v[1], i * dt) and eq(v[2], i * dt) and eq(v[3], i * dt), "strang-clock", "%s" % l, tag)
        if kind == "im": ctx.check(abs(float(b[0][1]) - {1: 0.0, 2: 0.5}[o]) < 1e-15, "implicit-theta", "order %d uses theta %s" % (o, b[0][1]), tag)
        else: ctx.check(abs(float(b[0][1]) - dt / 2) < 1e-14 * dt and abs(float(b[0][2]) - dt) < 1e-14 * dt, "strang-substeps", "sub-steps %s" % b[0], tag)
    # 3. clock of real runs
    exes = {p: t.path() for p, t in recs.items()}
    items = [(p, k) for p in exes for k in range(ctx.n(8, 60))]
    def one(it):
        p, k = it; r = ctx.rng(*it); c = gen.SimCase(r, ctx.dir("%s_%d" % it), p, p=1, steps=4, bath="flat", mesh=gen.rand_mesh(r, 2))
        c.dt, T = r.choice([(0.009, 9), (0.011, 11), (0.1, 3), (0.3, 1), (0.7, 2), (0.49, 7), (1.0, 3), (2.5, 4), (0.007, 7), (0.07, 7), (0.013, 1), (3.3, 33)])
        gen.scale(c.mesh, 20 * c.dt / c.mesh.lmin() * 3 * np.sqrt(9.81 * c.h0)); c.T = T
        o, s = (r.choice(sorted(SCHEMES)) if p != "ihdg" else (r.choice([1, 2]), 1)); rd = r.choice([None, 1e-4 * T])
        want = math.ceil(round(T / c.dt, 9)); c.problem["initial_conditions"] = {"type": "Constant", "initial_surface_height": 0.0, "initial_momentum_x": 0.0, "initial_momentum_y": 0.0}
        if want > 400 and p != "rkdg": return
        c.write(order=o, nstages=s, ramp=rd, modal=1e6)
        res, rec = core.sim(ctx, exes[p], c.d, ["in.15"], env=c.env)
        if rec is None or not rec.end: ctx.bad("clock-run-" + p, "run failed rc=%s %s" % (res.rc, res.err[-200:]), it); return
        ctx.case((it, T, c.dt, o, s)); ctx.obs("runs"); n = len(rec.steps) - 1
        ctx.check(rec.nsteps == want and n == want, "step-count", "%s: T=%g dt=%g gives %d steps, want %d" % (p, T, c.dt, n, want), it)
        for i, (st, sg, t, ramp) in enumerate(rec.steps):
            ctx.check(st == i and sg % 100 == 0 and sg // 100 == 0 and abs(t - i * c.dt) < 1e-9 * max(1, T), "run-clock-" + p, "output %d: step=%d stage=%d t=%r" % (i, st, sg, t), it)
            ctx.check(abs(ramp - ramp_ref(i * c.dt, rd or 0)) < 1e-9, "run-ramp-" + p, "ramp %r at %r" % (ramp, t), it); ctx.obs("clock observations")
    ctx.par(one, items)
    return {"rule": "every scheme offered x random ODEs, step sizes, ramps; real runs with awkward T/dt; every case is a distinct integration"}
