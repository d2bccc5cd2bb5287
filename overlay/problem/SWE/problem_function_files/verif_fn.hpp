#ifndef VERIF_FN_HPP
#define VERIF_FN_HPP
// Parametric user functions, read once from the file named by VERIF_FN (see lib/cases.py: fn_file()).
// Replaces the stock (all-zero) user function files the way the repository's examples do.
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <vector>
#include <string>

namespace vfn {
// Forward-mode dual number carrying d/dt, d/dx, d/dy
struct D {
    double v, t, x, y;
    D(double v = 0, double t = 0, double x = 0, double y = 0) : v(v), t(t), x(x), y(y) {}
};
inline D operator+(const D& a, const D& b) { return D(a.v + b.v, a.t + b.t, a.x + b.x, a.y + b.y); }
inline D operator-(const D& a, const D& b) { return D(a.v - b.v, a.t - b.t, a.x - b.x, a.y - b.y); }
inline D operator*(const D& a, const D& b) {
    return D(a.v * b.v, a.t * b.v + a.v * b.t, a.x * b.v + a.v * b.x, a.y * b.v + a.v * b.y);
}
inline D operator/(const D& a, const D& b) {
    double i = 1.0 / b.v, q = a.v * i;
    return D(q, (a.t - q * b.t) * i, (a.x - q * b.x) * i, (a.y - q * b.y) * i);
}
inline D sin(const D& a) { double c = std::cos(a.v); return D(std::sin(a.v), c * a.t, c * a.x, c * a.y); }
inline D exp(const D& a) { double e = std::exp(a.v); return D(e, e * a.t, e * a.x, e * a.y); }

struct Term { int var; int kind; double a, p[6]; };
struct Fn {
    std::string mode = "zero";
    double g = 9.81, b0 = 0, bx = 0, by = 0, cf = 0;
    bool q_is_velocity = false;
    std::vector<Term> terms;
    Fn() {
        const char* f = std::getenv("VERIF_FN");
        if (!f) return;
        FILE* fp = std::fopen(f, "r");
        if (!fp) { std::fprintf(stderr, "VERIF_FN unreadable\n"); std::exit(77); }
        char m[64];
        int vel = 0, n = 0;
        if (std::fscanf(fp, "%63s %lf %lf %lf %lf %lf %d %d", m, &g, &b0, &bx, &by, &cf, &vel, &n) != 8) std::exit(77);
        mode = m; q_is_velocity = vel != 0;
        for (int i = 0; i < n; ++i) {
            Term t;
            if (std::fscanf(fp, "%d %d %lf %lf %lf %lf %lf %lf %lf", &t.var, &t.kind, &t.a, t.p, t.p + 1, t.p + 2, t.p + 3, t.p + 4, t.p + 5) != 9) std::exit(77);
            terms.push_back(t);
        }
        std::fclose(fp);
    }
};
inline const Fn& fn() { static const Fn f; return f; }

// kinds: 0 constant a; 1 a*sin(px*x+py*y+pt*t+ph); 2 a*x^i*y^j*t^k; 3 a*exp(-((x-x0)^2+(y-y0)^2)/w^2);
//        6 a from time p0 on within distance p3 of (p1, p2)
//        4 a where (x-x0)*nx+(y-y0)*ny > 0 (step); 5 a*exp(...) inside a moving frame
// terms of variables 3..5 are a user source given directly
inline void eval(double tt, double xx, double yy, D q[3], double* direct = nullptr) {
    const Fn& f = fn();
    D t(tt, 1, 0, 0), x(xx, 0, 1, 0), y(yy, 0, 0, 1);
    D w[6];
    for (const Term& k : f.terms) {
        D r(0);
        if (k.kind == 0) r = D(k.a);
        else if (k.kind == 1) r = D(k.a) * sin(D(k.p[0]) * x + D(k.p[1]) * y + D(k.p[2]) * t + D(k.p[3]));
        else if (k.kind == 2) {
            r = D(k.a);
            for (int i = 0; i < (int)k.p[0]; ++i) r = r * x;
            for (int i = 0; i < (int)k.p[1]; ++i) r = r * y;
            for (int i = 0; i < (int)k.p[2]; ++i) r = r * t;
        } else if (k.kind == 3) {
            D dx = x - D(k.p[0]), dy = y - D(k.p[1]);
            r = D(k.a) * exp(D(-1.0 / (k.p[2] * k.p[2])) * (dx * dx + dy * dy));
        } else if (k.kind == 4) {
            r = D(((xx - k.p[0]) * k.p[2] + (yy - k.p[1]) * k.p[3]) > 0 ? k.a : 0.0);
        }
        else if (k.kind == 6) {
            if (tt < k.p[0] || std::hypot(xx - k.p[1], yy - k.p[2]) > k.p[3]) continue;
            r = D(k.a);
        }
        w[k.var] = w[k.var] + r;
    }
    q[0] = w[0];
    if (direct) for (int i = 0; i < 3; ++i) direct[i] = w[3 + i].v;
    if (f.q_is_velocity) {
        D h = w[0] + D(f.b0) + D(f.bx) * x + D(f.by) * y;
        q[1] = h * w[1]; q[2] = h * w[2];
    } else { q[1] = w[1]; q[2] = w[2]; }
}
inline void source(double tt, double xx, double yy, double s[3]) {
    const Fn& f = fn();
    D q[3];
    eval(tt, xx, yy, q, s);
    if (f.mode == "s") return;
    D x(xx, 0, 1, 0), y(yy, 0, 0, 1);
    D b = D(f.b0) + D(f.bx) * x + D(f.by) * y;
    D h = q[0] + b, u = q[1] / h, v = q[2] / h;
    D pr = D(f.g) * (D(0.5) * q[0] * q[0] + q[0] * b);
    D fxx = u * q[1] + pr, fxy = u * q[2], fyy = v * q[2] + pr;
    s[0] = q[0].t + q[1].x + q[2].y;
    double sp = std::sqrt(u.v * u.v + v.v * v.v);
    // tendency = -div F + g ze grad(b) - cf |u| u + s
    s[1] = q[1].t + fxx.x + fxy.y - f.g * q[0].v * f.bx + f.cf * sp * u.v;
    s[2] = q[2].t + fxy.x + fyy.y - f.g * q[0].v * f.by + f.cf * sp * v.v;
}
}
#endif
