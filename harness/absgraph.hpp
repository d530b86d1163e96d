#pragma once
// Abstract variables and factors: the graph and the optimizer are verified against these, that is for every
// variable and factor that honours its interface contract (residual and Jacobian are any functions of the
// current variable values; an increment is any function of value and increment).
#include "vassert.hpp"
#include "factorama/factor_graph.hpp"
#include <memory>
#include <string>
struct AbsVar : Variable
{
    VectorXd x;
    std::string nm;
    int sets = 0, incs = 0, values = 0; // calls received
    bool throws = false;
    AbsVar(int id, int dim, bool cst) : x(dim), nm("v" + std::to_string(id))
    {
        id_ = id;
        is_constant_ = cst;
    }
    void fresh(int round)
    {
        for (int i = 0; i < x.size(); i++) x[i] = vsym(nm.c_str(), 100 * round + i, 0);
    }
    int size() const override { return int(x.size()); }
    const VectorXd& value() const override { return x; }
    void set_value_from_vector(const VectorXd& y) override
    {
        sets++;
        if (y.size() != x.size()) throw std::runtime_error("AbsVar: wrong size");
        x = y;
    }
    VectorXd plus(const VectorXd& v, const VectorXd& dx) const
    {
        VectorXd a(v.size() + dx.size()), r(v.size());
        a << v, dx;
        for (int i = 0; i < v.size(); i++) r[i] = vuf(("plus" + nm).c_str(), i, a.data(), int(a.size()), 0);
        return r;
    }
    void apply_increment(const VectorXd& dx) override
    {
        incs++;
        if (dx.size() != x.size()) throw std::runtime_error("AbsVar: wrong size");
        x = plus(x, dx);
    }
    VariableType::VariableTypeEnum type() const override { return VariableType::custom; }
    std::shared_ptr<Variable> clone() const override { return std::make_shared<AbsVar>(*this); }
    std::string name() const override { return nm; }
};
struct AbsFac : Factor
{
    std::vector<AbsVar *> vs;
    int rs;
    std::string nm;
    bool nan = false; // residual is not a number
    bool throws = false;
    AbsFac(int id, std::vector<AbsVar *> v, int r) : vs(std::move(v)), rs(r), nm("f" + std::to_string(id)) { id_ = id; }
    int residual_size() const override { return rs; }
    VectorXd args() const
    {
        int n = 0;
        for (AbsVar *v : vs) n += int(v->x.size());
        VectorXd a(n);
        n = 0;
        for (AbsVar *v : vs)
            for (int i = 0; i < v->x.size(); i++) a[n++] = v->x[i];
        return a;
    }
    VectorXd r() const
    {
        VectorXd a = args(), y(rs);
        for (int k = 0; k < rs; k++) y[k] = vuf(nm.c_str(), k, a.data(), int(a.size()), 0);
        return y;
    }
    MatrixXd j(int i) const
    {
        VectorXd a = args();
        MatrixXd m(rs, vs[i]->size());
        for (int k = 0; k < m.size(); k++) m.data()[k] = vuf(nm.c_str(), 100 * (i + 1) + k, a.data(), int(a.size()), 0);
        return m;
    }
    VectorXd compute_residual() const override
    {
        if (throws) throw std::runtime_error("AbsFac");
        VectorXd y = r();
        if (nan) y[0] = std::nan("");
        return y;
    }
    void compute_residual(Eigen::Ref<VectorXd> y) const override
    {
        if (throws) throw std::runtime_error("AbsFac");
        VTRUE("C23", "the segment handed to a factor has its residual size", y.size() == rs);
        VectorXd z = r();
        if (nan) z[0] = std::nan("");
        for (int k = 0; k < rs && k < y.size(); k++) y[k] = z[k];
    }
    void compute_jacobians(std::vector<MatrixXd>& J) const override
    {
        if (throws) throw std::runtime_error("AbsFac");
        J.resize(vs.size());
        for (size_t i = 0; i < vs.size(); i++)
            if (vs[i]->is_constant()) J[i] = MatrixXd();
            else J[i] = j(int(i));
    }
    std::vector<Variable *> variables() override { return std::vector<Variable *>(vs.begin(), vs.end()); }
    FactorType::FactorTypeEnum type() const override { return FactorType::custom; }
    std::string name() const override { return nm; }
};
// a graph of some shape, with the ids and sizes chosen so that index, id and size never coincide
struct World
{
    std::vector<std::shared_ptr<AbsVar>> v;
    std::vector<std::shared_ptr<AbsFac>> f;
    std::shared_ptr<FactorGraph> g = std::make_shared<FactorGraph>();
    void var(int id, int dim, bool cst)
    {
        v.push_back(std::make_shared<AbsVar>(id, dim, cst));
        v.back()->fresh(0);
    }
    void fac(int id, std::vector<int> ix, int rs)
    {
        std::vector<AbsVar *> p;
        for (int i : ix) p.push_back(v[i].get());
        f.push_back(std::make_shared<AbsFac>(id, p, rs));
    }
    void add_all()
    {
        for (auto& x : v) g->add_variable(x);
        for (auto& x : f) g->add_factor(x);
    }
    void fresh(int round)
    {
        for (auto& x : v) x->fresh(round);
    }
    // ---- the contract: layout and values as functions of the contents, in insertion order
    int col(size_t i) const
    {
        int c = 0;
        for (size_t k = 0; k < i; k++) c += v[k]->is_constant() ? 0 : v[k]->size();
        return c;
    }
    int cols() const { return col(v.size()); }
    int row(size_t i) const
    {
        int c = 0;
        for (size_t k = 0; k < i; k++) c += f[k]->rs;
        return c;
    }
    int rows() const { return row(f.size()); }
    int colof(const AbsVar *p) const
    {
        for (size_t i = 0; i < v.size(); i++)
            if (v[i].get() == p) return col(i);
        return -1;
    }
    VectorXd residual() const
    {
        VectorXd r(rows());
        for (size_t i = 0; i < f.size(); i++) r.segment(row(i), f[i]->rs) = f[i]->r();
        return r;
    }
    MatrixXd jacobian() const
    {
        MatrixXd J = MatrixXd::Zero(rows(), cols());
        for (size_t i = 0; i < f.size(); i++)
            for (size_t k = 0; k < f[i]->vs.size(); k++) {
                const AbsVar *p = f[i]->vs[k];
                if (!p->is_constant()) J.block(row(i), colof(p), f[i]->rs, p->size()) = f[i]->j(int(k));
            }
        return J;
    }
    VectorXd values() const
    {
        VectorXd x(cols());
        for (size_t i = 0; i < v.size(); i++)
            if (!v[i]->is_constant()) x.segment(col(i), v[i]->size()) = v[i]->x;
        return x;
    }
};
#define VMAT(cls, name, a, b)                                                                                          \
    do {                                                                                                               \
        const MatrixXd a_ = (a), b_ = (b);                                                                             \
        VTRUE(cls, name ", shape", a_.rows() == b_.rows() && a_.cols() == b_.cols());                                  \
        if (a_.rows() == b_.rows() && a_.cols() == b_.cols()) VEQ(cls, name, a_.data(), b_.data(), a_.size());         \
    } while (0)
