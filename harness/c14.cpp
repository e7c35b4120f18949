// C14: the trace of the box-constrained QP solver describes its iterations.
#include "qp.h"

template<int D>
static void checkTrace(pbt::Case & c, const QP & q, nmpc_ddp::BoxQP<D> & qp)
{
  Vec ret = q.has_x0 ? qp.solve(q.H, q.g, q.lo, q.hi, q.x0) : qp.solve(q.H, q.g, q.lo, q.hi);
  const auto & tr = qp.traceDataList();
  const auto & cfg = qp.config();
  int m = static_cast<int>(tr.size());
  c.checkf(m >= 2 && m <= cfg.max_iter + 1, [&] { return pbt::cat("trace with ", m, " entries, at most ", cfg.max_iter, " iterations"); });
  auto scale = [&](const Vec & x) { return 1e-12 + x.cwiseAbs().dot(q.g.cwiseAbs()) + x.cwiseAbs().dot(q.H.cwiseAbs() * x.cwiseAbs()); };
  auto clip = [&](const Vec & x) { return Vec(x.cwiseMin(q.hi).cwiseMax(q.lo)); };
  Vec x0 = clip(q.x0);
  c.checkf(Vec(tr[0].x) == x0, [&] { return pbt::cat("the trace starts at ", pbt::str(Vec(tr[0].x).transpose()), " instead of the projected guess"); });
  bool searched = false;
  for(int k = 0; k < m; k++)
  {
    const auto & t = tr[k];
    auto at = [&] { return pbt::cat("entry ", k, " of ", m, " (status ", qp.retval_, "): "); };
    c.checkf(t.iter == k, [&] { return pbt::cat(at(), "iter is ", t.iter); });
    Vec x = t.x, d = t.search_dir;
    c.checkf(x.size() == q.n && d.size() == q.n && t.clamped_flag.size() == q.n && x.allFinite() && d.allFinite(), [&] { return at() + "wrong dimension or not finite"; });
    for(int i = 0; i < q.n; i++)
      c.checkf(x[i] >= q.lo[i] && x[i] <= q.hi[i], [&] { return pbt::cat(at(), "x[", i, "]=", x[i], " is outside [", q.lo[i], ",", q.hi[i], "]"); });
    c.checkf(std::abs(t.obj - boxref::obj(q.H, q.g, x)) <= 1e-10 * scale(x), [&] { return pbt::cat(at(), "objective ", t.obj, " but the one of x is ", boxref::obj(q.H, q.g, x)); });
    c.checkf(t.factorization_num >= 0 && t.factorization_num <= k && t.step_num >= 0, [&] { return pbt::cat(at(), "counters ", t.factorization_num, " ", t.step_num); });
    if(k == 0) continue;
    const auto & p = tr[k - 1];
    // the block of the free variables is factorized anew exactly when it changed
    bool stopped = k == m - 1 && (qp.retval_ == 4 || qp.retval_ == -1), changed = k == 1;
    for(int i = 0; i < q.n; i++) changed |= static_cast<bool>(t.clamped_flag[i]) != static_cast<bool>(p.clamped_flag[i]);
    if(!stopped)
      c.checkf(t.factorization_num == p.factorization_num + (changed && !t.clamped_flag.all() ? 1 : 0),
               [&] { return pbt::cat(at(), t.factorization_num, " factorizations after ", p.factorization_num, changed ? " although" : " and", " the free variables changed"); });
    c.checkf(t.obj <= p.obj + 1e-9 * (scale(x) + scale(Vec(p.x))), [&] { return pbt::cat(at(), "objective increases from ", p.obj, " to ", t.obj); });
    c.checkf(t.factorization_num >= p.factorization_num, [&] { return at() + "the number of factorizations decreases"; });
    // the iterate is the projected step of the entry before (entry 0 has no step), up to snapping to a close limit
    Vec e = k == 1 ? x0 : clip(Vec(p.x) + std::pow(cfg.step_factor, p.step_num) * Vec(p.search_dir));
    for(int i = 0; i < q.n; i++)
      c.checkf(std::abs(x[i] - e[i]) <= 1e-8 * (1 + std::abs(e[i])), [&] { return pbt::cat(at(), "x[", i, "]=", x[i], " but the step before leads to ", e[i]); });
    // the clamped variables are at their limits, do not move, and the others move along the Newton direction
    bool any = d.cwiseAbs().maxCoeff() > 0;
    searched |= any;
    Vec grad = q.g + q.H * x, nd = grad + q.H * d;
    double tolg = 1e-7 * (1e-6 + q.g.cwiseAbs().maxCoeff() + (q.H.cwiseAbs() * (x.cwiseAbs() + d.cwiseAbs())).maxCoeff());
    for(int i = 0; i < q.n; i++)
    {
      // (when the improvement was too small the flags are those of the iteration before)
      bool stale = k == m - 1 && qp.retval_ == 4;
      if(t.clamped_flag[i] && !stale)
        c.checkf(d[i] == 0 && ((x[i] == q.lo[i] && grad[i] >= -tolg) || (x[i] == q.hi[i] && grad[i] <= tolg)),
                 [&] { return pbt::cat(at(), "variable ", i, " is reported clamped at ", x[i], " with gradient ", grad[i], " and direction ", d[i]); });
      if(!t.clamped_flag[i] && any) c.checkf(std::abs(nd[i]) <= tolg, [&] { return pbt::cat(at(), "direction ", d[i], " of the free variable ", i, " leaves the gradient ", nd[i]); });
    }
  }
  // the end: the returned point is the last iterate, or, at the iteration limit, the one its step leads to
  const auto & l = tr.back();
  Vec e = qp.retval_ == 1 ? clip(Vec(l.x) + std::pow(cfg.step_factor, l.step_num) * Vec(l.search_dir)) : Vec(l.x);
  c.checkf((ret - e).cwiseAbs().maxCoeff() <= 1e-12 * (1 + e.cwiseAbs().maxCoeff()),
           [&] { return pbt::cat("the solver returns ", pbt::str(ret.transpose()), " but the trace ends at ", pbt::str(e.transpose()), " (status ", qp.retval_, ")"); });
  if(qp.retval_ == 1) c.checkf(m == cfg.max_iter + 1, [&] { return pbt::cat("iteration limit reported after ", m - 1, " of ", cfg.max_iter, " iterations"); });
  if(qp.retval_ >= 4 || qp.retval_ == 1)
  {
    std::vector<bool> free(q.n, false);
    for(int i : qp.free_idxs_) free[i] = true;
    for(int i = 0; i < q.n; i++) c.checkf(free[i] == !l.clamped_flag[i], [&] { return pbt::cat("variable ", i, " is clamped in the last entry but reported free, or the converse"); });
  }
  c.label(pbt::cat("status ", qp.retval_));
  if(m > 3) c.label("two steps or more");
  if(searched && m > 2) c.nontrivial();
}
template<int D>
static void configure(pbt::Case & c, nmpc_ddp::BoxQP<D> & qp)
{
  qp.config() = typename nmpc_ddp::BoxQP<D>::Configuration();
  qp.config().print_level = 0;
  if(c.boolean(1, 2)) return;
  qp.config().max_iter = c.integer(1, 5);
  qp.config().step_factor = c.real(0.3, 0.9);
  qp.config().armijo_param = c.real(0.01, 0.4);
}
PBT_PROPERTY(dynamic_size, 2)
{
  int n = c.integer(1, 6), m = c.weighted({2, 1}) == 0 ? 1 : c.integer(2, 3);
  nmpc_ddp::BoxQP<Eigen::Dynamic> qp(n);
  std::string d;
  for(int i = 0; i < m; i++)
  {
    QP q = makeQP(c, n);
    // an indefinite problem with finite limits
    bool bounded = q.lo.cwiseAbs().maxCoeff() < 1e9 && q.hi.cwiseAbs().maxCoeff() < 1e9;
    if(bounded && c.boolean(1, 5)) q.H -= c.real(0, 2) * Mat::Identity(n, n);
    configure(c, qp);
    d += q.describe() + pbt::cat(" max_iter=", qp.config().max_iter, " | ");
    c.describe([=] { return d; });
    checkTrace(c, q, qp);
  }
}
PBT_PROPERTY(fixed_size, 1)
{
  QP q = makeQP(c, 3);
  c.describe([=] { return q.describe(); });
  nmpc_ddp::BoxQP<3> qp;
  configure(c, qp);
  checkTrace(c, q, qp);
}
