// Contracts of FactorGraph (C22-C28), for abstract variables and factors; the shape of the graph is enumerated.
#include "absgraph.hpp"

// ---- shapes: 3 variables with ids 7, 2, 11; the insertion order of ids is not sorted, no id is an index
static void variables(World& w, int d = -1)
{
    static const int dims[4][3] = {{1, 2, 3}, {3, 1, 2}, {2, 2, 1}, {1, 1, 1}};
    if (d < 0) d = vchoose("dims", 4);
    int c = vchoose("constant", 8);
    static const int ids[3] = {7, 2, 11};
    for (int i = 0; i < 3; i++) w.var(ids[i], dims[d][i], c >> i & 1);
}
static std::vector<int> subset(int k)
{
    static const std::vector<std::vector<int>> s = {{0}, {1}, {2}, {0, 1}, {1, 0}, {0, 2}, {2, 0}, {1, 2}, {2, 1}, {0, 1, 2}, {2, 1, 0}, {1, 2, 0}};
    return s[k];
}
enum { NSUB = 12 };
static void check_layout(World& w)
{
    FactorGraph& g = *w.g;
    VTRUE("C22", "num_values", g.num_values() == w.cols());
    VTRUE("C22", "num_residuals", g.num_residuals() == w.rows());
    VTRUE("C22", "num_variables", g.num_variables() == int(w.v.size()));
    for (size_t i = 0; i < w.v.size(); i++) {
        bool ok = false;
        VariablePlacement p = g.variable_placement(w.v[i]->id(), ok);
        VTRUE("C22", "every variable has a placement", ok);
        if (!ok) continue;
        VTRUE("C22", "variable placement names the variable", p.variable == w.v[i].get());
        VTRUE("C22", "variable dimension", p.dim == (w.v[i]->is_constant() ? 0 : w.v[i]->size()));
        VTRUE("C22", "variable columns consecutive in insertion order", w.v[i]->is_constant() || p.index == w.col(i));
        VTRUE("C22", "get_variable", g.get_variable(w.v[i]->id()) == w.v[i].get());
    }
    for (size_t i = 0; i < w.f.size(); i++) {
        bool ok = false;
        FactorPlacement p = g.factor_placement(w.f[i]->id(), ok);
        VTRUE("C22", "every factor has a placement", ok);
        if (!ok) continue;
        VTRUE("C22", "factor placement names the factor", p.factor == w.f[i].get());
        VTRUE("C22", "factor rows consecutive in insertion order", p.residual_index == w.row(i));
        VTRUE("C22", "factor row count", p.residual_dim == w.f[i]->rs);
        size_t n = 0;
        for (AbsVar *v : w.f[i]->vs) {
            if (v->is_constant()) continue;
            VTRUE("C22", "factor column list", n < p.variable_column_indices.size() && n < p.variable_dims.size() &&
                                                   p.variable_column_indices[n] == w.colof(v) && p.variable_dims[n] == v->size());
            n++;
        }
        VTRUE("C22", "factor column list length", n == p.variable_column_indices.size() && n == p.variable_dims.size());
    }
    bool ok = true;
    g.variable_placement(99, ok);
    VTRUE("C22", "an unknown variable has no placement", !ok);
    ok = true;
    g.factor_placement(0, ok);
    VTRUE("C22", "an unknown factor has no placement", !ok);
    VTRUE("C22", "an unknown id has no variable", g.get_variable(99) == nullptr);
    VTRUE("C22", "all variables in insertion order", g.get_all_variables().size() == w.v.size());
    VTRUE("C22", "all factors in insertion order", g.get_all_factors().size() == w.f.size());
    for (size_t i = 0; i < w.v.size() && i < g.get_all_variables().size(); i++)
        VTRUE("C22", "variable list", g.get_all_variables()[i].get() == w.v[i].get());
    for (size_t i = 0; i < w.f.size() && i < g.get_all_factors().size(); i++)
        VTRUE("C22", "factor list", g.get_all_factors()[i].get() == w.f[i].get());
}
static void two_factors(World& w, int a, int b)
{
    w.fac(30, subset(a), 1 + (a + b) % 2);
    w.fac(5, subset(b), 2);
    w.fac(17, {0, 1, 2}, 5); // keeps residuals >= values
}
extern "C" void g_layout()
{
    World w;
    int a = vchoose("first", NSUB), b = vchoose("second", NSUB);
    variables(w, (a + 3 * b) % 4);
    two_factors(w, a, b);
    w.add_all();
    w.g->finalize_structure();
    check_layout(w);
}
// ---- evaluation: any first operation, then everything again at new values
static void eval(World& w, int what)
{
    FactorGraph& g = *w.g;
    if (what & 1) VSAME("C23", "residual", g.compute_full_residual_vector(), w.residual());
    if (what & 2) {
        VectorXd r(3);
        g.compute_full_residual_vector(r);
        VSAME("C23", "residual into a vector", r, w.residual());
    }
    if (what & 4) VMAT("C24", "dense Jacobian", g.compute_full_jacobian_matrix(), w.jacobian());
    if (what & 8) VMAT("C25", "sparse Jacobian", g.compute_sparse_jacobian_matrix(), w.jacobian());
    if (what & 16) {
        g.compute_full_jacobian_and_residual();
        VMAT("C24", "cached dense Jacobian", g.jacobian(), w.jacobian());
        VSAME("C23", "cached residual", g.residual(), w.residual());
    }
}
static void evaluate(World& w)
{
    w.add_all();
    w.g->finalize_structure();
    int first = vchoose("first operation", 3);
    static const int ops[3] = {8, 6, 17};
    eval(w, ops[first]);
    w.fresh(1);
    eval(w, first == 0 ? 15 : 31 & ~ops[first]);
    w.fresh(2);
    eval(w, 31);
    VMAT("C25", "cached sparse Jacobian", w.g->sparse_jacobian(), w.jacobian());
    for (auto& x : w.v) VTRUE("C23", "evaluating writes no variable", x->sets == 0 && x->incs == 0);
}
extern "C" void g_eval()
{
    World w;
    static const int dims[3] = {1, 2, 3};
    int c = vchoose("constant", 8);
    static const int ids[3] = {7, 2, 11};
    for (int i = 0; i < 3; i++) w.var(ids[i], dims[i], c >> i & 1);
    int a = vchoose("first", NSUB);
    w.fac(30, subset(a), 2);
    w.fac(5, subset((a * 5 + 3) % NSUB), 1);
    w.fac(17, {2, 0, 1}, 6);
    evaluate(w);
}
extern "C" void g_eval_order()
{
    // factor order, variable order
    World w;
    int p = vchoose("order", 6), q = vchoose("factor order", 6);
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    static const int ids[3] = {7, 2, 11}, dims[3] = {2, 1, 1};
    for (int i = 0; i < 3; i++) w.var(ids[perm[p][i]], dims[perm[p][i]], false);
    for (int i = 0; i < 3; i++) {
        int k = perm[q][i];
        if (k == 0) w.fac(30, {1}, 1);
        if (k == 1) w.fac(5, {2, 1}, 2);
        if (k == 2) w.fac(17, {0, 2}, 3);
    }
    evaluate(w);
}
extern "C" void g_eval_small()
{
    // one variable, one or two factors; a variable without a factor; a factor with constants only
    World w;
    int s = vchoose("small shape", 5);
    if (s == 0) w.var(3, 1, false), w.fac(9, {0}, 1);
    if (s == 1) w.var(3, 2, false), w.fac(9, {0}, 1), w.fac(4, {0}, 1);
    if (s == 2) w.var(3, 1, false), w.var(8, 2, false), w.fac(9, {1}, 3);
    if (s == 3) w.var(3, 1, true), w.var(8, 2, false), w.fac(9, {0}, 1), w.fac(4, {1, 0}, 2);
    if (s == 4) w.var(3, 1, true), w.fac(9, {0}, 2);
    evaluate(w);
}
// ---- C26
extern "C" void g_vectors()
{
    World w;
    variables(w);
    w.fac(30, {2, 0, 1}, 6);
    w.add_all();
    w.g->finalize_structure();
    VSAME("C26", "get_variable_vector", w.g->get_variable_vector(), w.values());
    std::vector<VectorXd> before;
    for (auto& x : w.v) before.push_back(x->x);
    int op = vchoose("op", 3);
    VectorXd y = op == 2 ? w.g->get_variable_vector() : vvec("y", w.cols());
    if (op == 1) w.g->apply_increment(y);
    else w.g->set_variable_values_from_vector(y);
    for (size_t i = 0; i < w.v.size(); i++) {
        AbsVar& x = *w.v[i];
        if (x.is_constant()) {
            VSAME("C26", "a constant variable keeps its value", x.x, before[i]);
            VTRUE("C26", "a constant variable is not written", x.sets == 0 && x.incs == 0);
        } else {
            VectorXd s = y.segment(w.col(i), x.size());
            VSAME("C26", "a free variable gets its own slice", x.x, op == 1 ? x.plus(before[i], s) : s);
            VTRUE("C26", "a free variable is updated exactly once", op == 1 ? x.incs == 1 && x.sets == 0 : x.sets == 1 && x.incs == 0);
            if (op == 2) VSAME("C26", "setting the graph from its own vector changes nothing", x.x, before[i]);
        }
    }
    VSAME("C26", "get_variable_vector afterwards", w.g->get_variable_vector(), w.values());
}
// ---- C27
template <class F> static bool throws(F f)
{
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}
#define MUST_THROW(name, e) VTRUE("C27", name, throws([&] { (void)(e); }))
extern "C" void g_misuse_ids()
{
    World w;
    w.var(7, 2, false);
    w.var(2, 1, vchoose("constant", 2));
    w.fac(30, {0, 1}, 3);
    w.fac(5, {1}, 1);
    w.add_all();
    int fin = vchoose("finalized", 2);
    if (fin) w.g->finalize_structure();
    if (fin && vchoose("evaluated", 2)) {
        (void)w.g->compute_full_residual_vector();
        (void)w.g->compute_sparse_jacobian_matrix();
    }
    // another object under the id, or the very object that is in the graph
    auto dv = std::make_shared<AbsVar>(vchoose("which", 2) ? 7 : 2, 1, false);
    dv->fresh(5);
    if (vchoose("same object", 2)) dv = w.v[dv->id() == 7 ? 0 : 1];
    MUST_THROW("a second variable with an existing id is rejected", w.g->add_variable(dv));
    auto df = std::make_shared<AbsFac>(vchoose("which", 2) ? 30 : 5, std::vector<AbsVar *>{w.v[0].get()}, 2);
    if (vchoose("same object", 2)) df = w.f[df->id() == 30 ? 0 : 1];
    MUST_THROW("a second factor with an existing id is rejected", w.g->add_factor(df));
    VTRUE("C27", "variable ids still resolve to the first variable", w.g->get_variable(7) == w.v[0].get() && w.g->get_variable(2) == w.v[1].get());
    VTRUE("C27", "no variable was added", w.g->num_variables() == 2 && w.g->get_all_variables().size() == 2);
    VTRUE("C27", "no factor was added", w.g->get_all_factors().size() == 2);
    if (!fin) w.g->finalize_structure();
    VSAME("C27", "residual after rejected additions", w.g->compute_full_residual_vector(), w.residual());
    VMAT("C27", "sparse Jacobian after rejected additions", w.g->compute_sparse_jacobian_matrix(), w.jacobian());
}
extern "C" void g_misuse_before()
{
    World w;
    w.var(7, 2, false);
    w.var(2, 1, vchoose("constant", 2));
    w.fac(30, {0, 1}, 3);
    int grown = vchoose("grown", 3);
    w.add_all();
    if (grown) {
        w.g->finalize_structure();
        (void)w.g->compute_full_residual_vector();
        (void)w.g->compute_sparse_jacobian_matrix();
        (void)w.g->compute_full_jacobian_matrix();
        if (grown == 1) w.var(4, 1, false), w.g->add_variable(w.v.back());
        else w.fac(9, {1}, 2), w.g->add_factor(w.f.back());
    }
    std::vector<VectorXd> before;
    for (auto& x : w.v) before.push_back(x->x);
    VectorXd r;
    MUST_THROW("residual before finalize_structure", w.g->compute_full_residual_vector());
    MUST_THROW("residual into a vector before finalize_structure", (w.g->compute_full_residual_vector(r), 0));
    MUST_THROW("dense Jacobian before finalize_structure", w.g->compute_full_jacobian_matrix());
    MUST_THROW("sparse Jacobian before finalize_structure", w.g->compute_sparse_jacobian_matrix());
    MUST_THROW("both before finalize_structure", (w.g->compute_full_jacobian_and_residual(), 0));
    MUST_THROW("increment before finalize_structure", (w.g->apply_increment(vvec("d", w.g->num_values())), 0));
    MUST_THROW("increment before finalize_structure, new size", (w.g->apply_increment(vvec("d", w.cols())), 0));
    MUST_THROW("set before finalize_structure", (w.g->set_variable_values_from_vector(vvec("d", w.cols())), 0));
    for (size_t i = 0; i < w.v.size(); i++) VSAME("C27", "no variable changed by a rejected call", w.v[i]->x, before[i]);
}
extern "C" void g_misuse_finalize()
{
    World w;
    int k = vchoose("case", 4), earlier = vchoose("finalized before", 2);
    w.var(7, 2, false);
    w.var(2, 1, false);
    w.fac(30, {0}, 2);
    if (earlier) {
        w.g->add_variable(w.v[0]);
        w.g->add_factor(w.f[0]);
        w.g->finalize_structure();
        (void)w.g->compute_full_residual_vector();
        (void)w.g->compute_sparse_jacobian_matrix();
    }
    if (!earlier || k == 0) {
        if (!earlier) w.g->add_variable(w.v[0]);
        if (!earlier) w.g->add_factor(w.f[0]);
    }
    if (k == 0) { // more values than residuals
        w.g->add_variable(w.v[1]);
    } else if (k == 1) { // a factor on a variable that is not in the graph
        w.fac(31, {0, 1}, 3);
        w.g->add_factor(w.f[1]);
    } else if (k == 2) { // the same with the foreign variable first, enough residuals
        w.fac(31, {1, 0}, 3);
        w.g->add_factor(w.f[1]);
    } else { // a null variable
        w.f.push_back(std::make_shared<AbsFac>(31, std::vector<AbsVar *>{w.v[0].get(), nullptr}, 3));
        w.g->add_factor(w.f[1]);
    }
    MUST_THROW("finalize_structure rejects the graph", (w.g->finalize_structure(), 0));
    VectorXd r;
    MUST_THROW("a graph that could not be finalized cannot be evaluated", w.g->compute_full_residual_vector());
    MUST_THROW("a graph that could not be finalized has no sparse Jacobian", w.g->compute_sparse_jacobian_matrix());
    MUST_THROW("a graph that could not be finalized has no dense Jacobian", w.g->compute_full_jacobian_matrix());
    MUST_THROW("a graph that could not be finalized takes no increment", (w.g->apply_increment(vvec("d", w.g->num_values())), 0));
}
extern "C" void g_misuse_size()
{
    World w;
    w.var(7, 2, false);
    w.var(2, 1, vchoose("constant", 2));
    w.var(11, 1, false);
    w.fac(30, {0, 1, 2}, 4);
    w.add_all();
    w.g->finalize_structure();
    std::vector<VectorXd> before;
    for (auto& x : w.v) before.push_back(x->x);
    int n = vchoose("length", 8);
    if (n == w.cols()) return;
    VectorXd y = vvec("y", n);
    MUST_THROW("an increment of the wrong length", (w.g->apply_increment(y), 0));
    MUST_THROW("a value vector of the wrong length", (w.g->set_variable_values_from_vector(y), 0));
    for (size_t i = 0; i < w.v.size(); i++) VSAME("C27", "no variable changed by a rejected vector", w.v[i]->x, before[i]);
}
// ---- C28: change, finalize again, compare with the contract of the new contents
static void change(World& w, int what)
{
    if (what == 0) { // a variable and a factor
        w.var(4, 1, false);
        w.g->add_variable(w.v.back());
        w.fac(1, {int(w.v.size()) - 1, 0}, 2);
        w.g->add_factor(w.f.back());
    } else if (what == 1) { // a factor
        w.fac(1, {1, 0}, 2);
        w.g->add_factor(w.f.back());
    } else if (what == 2) w.v[0]->set_constant(!w.v[0]->is_constant());
    else if (what == 3) w.v[1]->set_constant(!w.v[1]->is_constant());
    else if (what == 4) { // swap the roles of two variables
        w.v[0]->set_constant(!w.v[0]->is_constant());
        w.v[2]->set_constant(!w.v[2]->is_constant());
    } // 5: nothing
}
extern "C" void g_again()
{
    World w;
    int c = vchoose("constant", 4);
    w.var(7, 2, c == 1);
    w.var(2, 1, c == 2);
    w.var(11, 2, c == 3);
    w.fac(30, {1, 2}, 2);
    w.fac(5, {0}, 2);
    w.fac(17, {2, 0}, 3);
    w.add_all();
    w.g->finalize_structure();
    static const int pre[4] = {0, 8, 6, 31};
    int p = pre[vchoose("evaluated before", 4)];
    eval(w, p);
    if (p == 31) {
        w.fresh(1);
        eval(w, 31);
    }
    change(w, vchoose("change", 6));
    if (w.rows() < w.cols()) return;
    w.g->finalize_structure();
    check_layout(w);
    int first = vchoose("first operation", 2);
    static const int ops[2] = {8, 22};
    for (int k = 0; k < 2; k++) {
        if (k) w.fresh(2);
        FactorGraph& g = *w.g;
        int what = k ? 31 : ops[first];
        if (what & 1) VSAME("C28", "residual", g.compute_full_residual_vector(), w.residual());
        if (what & 2) {
            VectorXd r(1);
            g.compute_full_residual_vector(r);
            VSAME("C28", "residual into a vector", r, w.residual());
        }
        if (what & 4) VMAT("C28", "dense Jacobian", g.compute_full_jacobian_matrix(), w.jacobian());
        if (what & 8) VMAT("C28", "sparse Jacobian", g.compute_sparse_jacobian_matrix(), w.jacobian());
    }
    VSAME("C28", "variable vector", w.g->get_variable_vector(), w.values());
    VectorXd y = vvec("y", w.cols());
    w.g->set_variable_values_from_vector(y);
    VSAME("C28", "set and get", w.g->get_variable_vector(), y);
}
// ---- every history of four operations on a finalised graph, everything checked after each operation
static void history(int op0)
{
    World w;
    w.var(7, 1, false);
    w.var(2, 2, false);
    w.var(11, 1, true);
    w.fac(30, {1, 2}, 1);
    w.fac(5, {0}, 1);
    w.fac(17, {2, 1, 0}, 2);
    w.add_all();
    FactorGraph& g = *w.g;
    g.finalize_structure();
    int nset = 0;
    for (int k = 0; k < 4; k++) {
        int op = k == 0 ? op0 : vchoose("op", 8);
        if (op == 0) VSAME("C23", "residual in a history", g.compute_full_residual_vector(), w.residual());
        if (op == 1) VMAT("C24", "dense Jacobian in a history", g.compute_full_jacobian_matrix(), w.jacobian());
        if (op == 2) VMAT("C25", "sparse Jacobian in a history", g.compute_sparse_jacobian_matrix(), w.jacobian());
        if (op == 3) {
            g.compute_full_jacobian_and_residual();
            VMAT("C24", "cached dense Jacobian in a history", g.jacobian(), w.jacobian());
            VSAME("C23", "cached residual in a history", g.residual(), w.residual());
        }
        if (op == 4) {
            VectorXd y = vvec(k & 1 ? "ya" : "yb", w.cols());
            g.set_variable_values_from_vector(y);
            VSAME("C26", "variable vector in a history", w.values(), y);
            nset++;
        }
        if (op == 5) {
            VectorXd y = vvec(k & 1 ? "za" : "zb", w.cols()), x(w.cols());
            for (size_t i = 0; i < w.v.size(); i++)
                if (!w.v[i]->is_constant()) x.segment(w.col(i), w.v[i]->size()) = w.v[i]->plus(w.v[i]->x, y.segment(w.col(i), w.v[i]->size()));
            g.apply_increment(y);
            VSAME("C26", "incremented values in a history", w.values(), x);
        }
        if (op == 6) {
            int i = k & 1 ? 0 : 2;
            w.v[i]->set_constant(!w.v[i]->is_constant());
            g.finalize_structure();
        }
        if (op == 7) {
            w.fac(1 + k, {0, 2}, 1);
            g.add_factor(w.f.back());
            g.finalize_structure();
        }
    }
    VSAME("C23", "residual after a history", g.compute_full_residual_vector(), w.residual());
    VMAT("C25", "sparse Jacobian after a history", g.compute_sparse_jacobian_matrix(), w.jacobian());
    VMAT("C24", "dense Jacobian after a history", g.compute_full_jacobian_matrix(), w.jacobian());
    VSAME("C26", "variable vector after a history", g.get_variable_vector(), w.values());
    check_layout(w);
    VSAME("C28", "residual after a history", g.compute_full_residual_vector(), w.residual());
    VMAT("C28", "sparse Jacobian after a history", g.compute_sparse_jacobian_matrix(), w.jacobian());
    VMAT("C28", "dense Jacobian after a history", g.compute_full_jacobian_matrix(), w.jacobian());
}
extern "C" {
void g_history_0() { history(0); }
void g_history_1() { history(1); }
void g_history_2() { history(2); }
void g_history_3() { history(3); }
void g_history_4() { history(4); }
void g_history_5() { history(5); }
void g_history_6() { history(6); }
void g_history_7() { history(7); }
}
// ---- large irregular graphs: up to 12 variables of 1..9 dimensions with ids of any sign, up to 13 factors on 1..6 variables
struct Lcg
{
    unsigned s;
    unsigned operator()(unsigned n)
    {
        s = s * 1664525u + 1013904223u;
        return (s >> 16) % n;
    }
};
static void big(World& w, int shape)
{
    Lcg rnd{unsigned(977 * shape + 13)};
    for (int i = 0; i < 3; i++) rnd(7);
    static const int ids[12] = {1000000, -5, 12, 42, 3, 2147483647, -2147483647 - 1, 65536, 100, -1, 8, 7};
    int n = 4 + int(rnd(9)), first = int(rnd(12)), step = rnd(2) ? 5 : 7;
    for (int i = 0; i < n; i++) w.var(ids[(first + i * step) % 12], rnd(4) ? 1 + int(rnd(4)) : 6 + int(rnd(4)), rnd(4) == 0);
    int m = 3 + int(rnd(9)), at = int(rnd(12));
    for (int k = 0; k < m; k++) {
        std::vector<int> ix;
        int q = 1 + int(rnd(k % 3 ? 3 : 6));
        for (int t = 0; t < q; t++) {
            int c = int(rnd(n));
            bool dup = false;
            for (int x : ix) dup |= x == c;
            if (!dup) ix.push_back(c);
        }
        w.fac(ids[(at + k * 5) % 12] ^ 1, ix, 1 + int(rnd(k % 2 ? 3 : 6)));
    }
    int lack = w.cols() - w.rows();
    if (lack > 0) w.fac(77, {n - 1, 0}, lack);
}
static void graph_of_shape(int shape)
{
    World w;
    big(w, shape);
    w.add_all();
    FactorGraph& g = *w.g;
    g.finalize_structure();
    check_layout(w);
    static const int ops[3] = {8, 6, 17};
    eval(w, ops[vchoose("first operation", 3)]);
    w.fresh(1);
    eval(w, 31);
    VSAME("C26", "get_variable_vector, large", g.get_variable_vector(), w.values());
    VectorXd y = vvec("y", w.cols()), z = vvec("z", w.cols()), x(w.cols());
    std::vector<VectorXd> before;
    for (auto& v : w.v) before.push_back(v->x);
    g.set_variable_values_from_vector(y);
    VSAME("C26", "set the graph from a vector, large", w.values(), y);
    for (size_t i = 0; i < w.v.size(); i++)
        if (!w.v[i]->is_constant()) x.segment(w.col(i), w.v[i]->size()) = w.v[i]->plus(w.v[i]->x, z.segment(w.col(i), w.v[i]->size()));
    g.apply_increment(z);
    VSAME("C26", "increment the graph, large", w.values(), x);
    for (size_t i = 0; i < w.v.size(); i++)
        if (w.v[i]->is_constant()) {
            VSAME("C26", "a constant variable keeps its value, large", w.v[i]->x, before[i]);
            VTRUE("C26", "a constant variable is not written, large", w.v[i]->sets == 0 && w.v[i]->incs == 0);
        }
    eval(w, 31);
    // change everything that can change, finalize again
    w.v[1]->set_constant(!w.v[1]->is_constant());
    w.v[3]->set_constant(!w.v[3]->is_constant());
    w.var(5000, 3, false);
    g.add_variable(w.v.back());
    w.fac(-7, {int(w.v.size()) - 1, 1}, 7);
    g.add_factor(w.f.back());
    if (w.rows() < w.cols()) {
        w.fac(-8, {3, 1}, w.cols() - w.rows());
        g.add_factor(w.f.back());
    }
    g.finalize_structure();
    check_layout(w);
    for (int k = 0; k < 2; k++) {
        if (k) w.fresh(2);
        eval(w, k ? 31 : 25);
        VSAME("C28", "residual, large", g.compute_full_residual_vector(), w.residual());
        VMAT("C28", "sparse Jacobian, large", g.compute_sparse_jacobian_matrix(), w.jacobian());
        VMAT("C28", "dense Jacobian, large", g.compute_full_jacobian_matrix(), w.jacobian());
        VSAME("C28", "variable vector, large", g.get_variable_vector(), w.values());
    }
}
extern "C" void g_big() { graph_of_shape(vchoose("shape", 8)); }
extern "C" void g_big_more() { graph_of_shape(8 + vchoose("shape", 56)); }
