// Native meaning of the harness vocabulary: values come from a case file, results are printed.
#include "vh.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <random>
#include <string>
#include <vector>
static std::map<std::string, double> val;
static std::vector<int> choices;
static size_t nchoice;
static FILE *out;
static std::mt19937_64 rng;
static int style = -1; // >= 0: inputs and choices not listed are drawn at random
static double common = 1; // style 5: one magnitude for a whole run
struct AssumeFailed
{
};
static void drawn(const std::string& k, double v)
{
    val[k] = v;
    fprintf(out, "drawn %s %a\n", k.c_str(), v);
}
static double draw(int kind)
{
    std::normal_distribution<double> g;
    double x = g(rng), pi = 3.14159265358979323846;
    if (kind == 1) return style == 2 ? double(1 + rng() % 3) : style == 3 ? std::exp(x) * std::pow(10.0, -double(rng() % 13)) : std::exp(x);
    if (kind == 2) return pi * (2 * std::generate_canonical<double, 53>(rng) - 1);
    switch (style) {
    case 1: return 5 * x;
    case 2: return double(int(rng() % 7)) - 3;
    case 3: return x * std::pow(10.0, -double(rng() % 12));
    case 5: return x * common;
    case 4: return (rng() % 4) ? x : (rng() % 2 ? pi : -pi) + 1e-4 * g(rng);
    }
    return x;
}
static double get(const char *nm, int i, int kind = 0)
{
    std::string k = std::string(nm) + "." + std::to_string(i);
    auto it = val.find(k);
    if (it != val.end()) return it->second;
    if (!strncmp(nm, "garbage", 7) || !strncmp(nm, "gr", 2)) return 7777.25 + i;
    if (style >= 0) {
        double x = draw(kind);
        if (!strncmp(nm, "pivot", 5) && rng() % 3 == 0) x = rng() % 2 ? 1e-16 : 1e13;
        drawn(k, x);
        return val[k];
    }
    fprintf(out, "missing %s\n", k.c_str());
    return 0.37 + 0.11 * i;
}
extern "C" {
double vsym(const char *nm, int i, int kind) { return get(nm, i, kind); }
void vunit(const char *nm, double *v)
{
    if (style >= 0 && !val.count(std::string(nm) + ".0")) {
        double x[3], n = 0;
        for (double& q : x) q = draw(0), n += q * q;
        n = std::sqrt(n);
        for (int i = 0; i < 3; i++) drawn(std::string(nm) + "." + std::to_string(i), n > 0 ? x[i] / n : i == 0);
    }
    for (int i = 0; i < 3; i++) v[i] = get(nm, i);
}
void vquat(const char *nm, double *v)
{
    if (style >= 0 && !val.count(std::string(nm) + ".0")) {
        double x[4], n = 0;
        for (double& q : x) q = draw(0);
        if (style == 3 || style == 5) x[rng() % 4] = 1;
        if (style == 4) x[0] *= std::pow(10.0, -double(rng() % 9)); // angle near pi
        for (double& q : x) n += q * q;
        n = std::sqrt(n);
        for (int i = 0; i < 4; i++) drawn(std::string(nm) + "." + std::to_string(i), n > 0 ? x[i] / n : i == 0);
    }
    for (int i = 0; i < 4; i++) v[i] = get(nm, i);
}
void vexp(const double *v, double *m);
void vrot(const char *nm, double *v, double *m)
{
    for (int i = 0; i < 3; i++) v[i] = get(nm, i);
    vexp(v, m);
}
void vexp(const double *v, double *m)
{
    long double x[3], th2 = 0;
    for (int i = 0; i < 3; i++) x[i] = v[i], th2 += x[i] * x[i];
    long double th = sqrtl(th2), a = th < 1e-6L ? 1 - th2 / 6 : sinl(th) / th,
                b = th < 1e-4L ? 0.5L - th2 / 24 : (1 - cosl(th)) / th2;
    long double S[3][3] = {{0, -x[2], x[1]}, {x[2], 0, -x[0]}, {-x[1], x[0], 0}};
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
            m[3 * j + i] = double((i == j) + a * S[i][j] + b * (x[i] * x[j] - (i == j) * th2));
}
void vjl(const double *v, double *m)
{
    long double x[3], th2 = 0;
    for (int i = 0; i < 3; i++) x[i] = v[i], th2 += x[i] * x[i];
    long double th = sqrtl(th2), b = th < 1e-4L ? 0.5L - th2 / 24 : (1 - cosl(th)) / th2,
                c = th < 1e-3L ? 1 / 6.0L - th2 / 120 : (th - sinl(th)) / (th2 * th);
    long double S[3][3] = {{0, -x[2], x[1]}, {x[2], 0, -x[0]}, {-x[1], x[0], 0}};
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
            m[3 * j + i] = double((i == j) + b * S[i][j] + c * (x[i] * x[j] - (i == j) * th2));
}
void vassume(double a, int p, double b)
{
    bool ok = p == 0 ? a < b : p == 1 ? a <= b : p == 2 ? a > b : a >= b;
    if (!ok) {
        fprintf(out, "assume_failed\n");
        throw AssumeFailed();
    }
}
int vchoose(const char *, int n)
{
    int c = nchoice < choices.size() ? choices[nchoice] : style >= 0 ? int(rng() % n) : 0;
    nchoice++;
    fprintf(out, "chose %d\n", c);
    return c < n ? c : n - 1;
}
void vout(const char *tag, int idx, const double *p, long r, long c)
{
    fprintf(out, "out\t%s\t%d\t%ld\t%ld", tag, idx, r, c);
    for (long i = 0; i < r * c; i++) fprintf(out, "\t%a", p[i]);
    fprintf(out, "\n");
    fflush(out);
}
void vint(const char *tag, int idx, long v)
{
    fprintf(out, "int\t%s\t%d\t%ld\n", tag, idx, v);
    fflush(out);
}
static unsigned crc32s(const char *s)
{
    unsigned c = ~0u;
    for (; *s; s++) {
        c ^= (unsigned char)*s;
        for (int k = 0; k < 8; k++) c = c >> 1 ^ (c & 1 ? 0xedb88320u : 0);
    }
    return ~c;
}
double vuf(const char *name, int idx, const double *a, int n, int kind)
{
    auto g = [&](int k) { return (int(crc32s((std::string(name) + "#" + std::to_string(idx) + "#" + std::to_string(k)).c_str()) % 4001) - 2000) / 1000.0; };
    double s = g(0);
    for (int k = 0; k < n; k++) s = s + g(2 * k + 1) * a[k] + std::sin(a[k] + g(2 * k + 2));
    if (style == 2) s = std::floor(s); // equal values now and then
    return kind == 1 ? s * s + 0.1 : s;
}
void vcut_basis(const char *, const double *, int, int) {}
void vcut_weak(const char *, const double *, int, int) {}
void vcut_keep(const double *, int) {}
void vcut_forget(const char *) {}
void vcut(const char *) {}
int vsame(double a, double b) { return std::fabs(a - b) <= 1e-12 * (1 + std::fabs(a)); }
}
int main(int argc, char **argv)
{
    FILE *f = fopen(argv[2], "r");
    out = fopen(argv[3], "w");
    char buf[256], nm[200];
    double d;
    int k, ncase = 0;
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) return 3;
    while (fgets(buf, sizeof buf, f)) {
        if (sscanf(buf, "v %199s %la", nm, &d) == 2) val[nm] = d;
        else if (sscanf(buf, "c %d", &k) == 1) choices.push_back(k);
        else if (!strncmp(buf, "run", 3)) {
            nchoice = 0;
            style = -1;
            if (val.count("__seed")) rng.seed((unsigned long)val["__seed"]), style = int(val["__style"]);
            if (style == 5) common = std::pow(10.0, -double(rng() % 14)); // nothing else is drawn before
            fprintf(out, "case %d\n", ncase++);
            fflush(out);
            try {
                fn();
                fprintf(out, "done\n");
            } catch (const std::exception& e) {
                fprintf(out, "uncaught %s\n", e.what());
            } catch (const AssumeFailed&) {
                fprintf(out, "done\n");
            } catch (...) {
                fprintf(out, "uncaught unknown exception\n");
            }
            fflush(out);
            val.clear();
            choices.clear();
        }
    }
    return 0;
}
