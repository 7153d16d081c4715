// readings from curves (C12), route choice portions (C17), sums along a path (C22)
#include "h.h"
#include "multiclass.h"
#include "dta_gradient_utls.h"
#include "path.h"
#include "ults.h"
#include <cmath>
#include <algorithm>
typedef std::vector<std::pair<double, double>> Rec;
namespace G = MNM_DTA_GRADIENT;

static double count_at (const Rec &c, double t) { double r = c[0].second; for (auto &p : c) if (p.first <= t) r = p.second; return r; }
static double time_at (const Rec &c, double y)   // first time the count is reached, the earlier record when between two counts
{
  if (!(c[0].second < y && c.size () > 1 && c.back ().second >= y)) return -1;
  size_t j = 0;
  while (c[j].second < y) ++j;
  if (c[j].second == y) return c[j].first;
  size_t i = 0;
  while (c[i].second < c[j - 1].second) ++i;
  return c[i].first;
}
static void fill (Rng &r, MNM_Cumulative_Curve *in, MNM_Cumulative_Curve *out, Rec &a, Rec &b, int ff, int end)
{
  a = { { 0, 0 } }; b = { { 0, 0 } };
  int t = r.i (0, 4), ain = 0, n = r.i (0, 12);
  std::vector<int> ev;
  for (int k = 0; k < n && t + 1 < end; ++k) { t += r.i (1, 4); if (t >= end) break; int q = r.i (1, 5); ain += q; for (int i = 0; i < q; ++i) ev.push_back (t); in->add_increment (std::pair<TFlt, TFlt> (TFlt (t), TFlt (q))); a.push_back ({ (double) t, (double) ain }); }
  int te = 0, k = 0, bo = 0;
  bool jam = r.b ();
  while (k < (int) ev.size ())
    {
      te = std::max (te + r.i (1, 5), ev[k] + ff + (r.b () ? 0 : r.i (0, 6)));
      if (te >= end || (jam && r.i (0, 6) == 0)) break;
      int q = 0;
      while (k < (int) ev.size () && ev[k] + ff <= te && q < 4) { ++k; ++q; }
      if (!q) continue;
      bo += q;
      out->add_increment (std::pair<TFlt, TFlt> (TFlt (te), TFlt (q)));
      b.push_back ({ (double) te, (double) bo });
    }
}
static double valid_until (const Rec &a, const Rec &b, int end)
{
  double o = b.back ().second;
  if (a.back ().second == o) return end;
  double t = time_at (a, o);
  if (t < 0) return 0;
  for (int i = 1; i <= end - (int) t; ++i) if (count_at (a, t + i) > o) return t + i - 1;
  return -1;
}
static double reading (const Rec &a, const Rec &b, double s, double last, double ff)
{
  if (last <= 0) return ff;
  if (s > last) s = last;
  double x = count_at (a, s);
  if (x <= 0) return ff;
  double e = time_at (b, x);
  if (e < 0 || e - s < ff) return ff;
  return e - s;
}
static int up (double t) { if (t < 1) return 1; int k = (int) t; return std::fabs (t - k) <= 1e-4 * std::max (std::fabs (t), (double) k) ? k : k + 1; }

struct L { MNM_Dlink *l; int id; Rec in[3], out[3]; double ff[3]; };
static L make (Rng &r, int id, bool two, int end)
{
  L x; x.id = id;
  double ffs = r.d (8, 30), unit = 5, len = ffs * unit * r.d (0.6, 6);
  if (!two)
    {
      int type = r.i (0, 2);
      MNM_Dlink *l = type == 0 ? (MNM_Dlink *) new MNM_Dlink_Ctm (id, 0.15, 0.5, 2, len, ffs, unit, 1)
        : type == 1 ? (MNM_Dlink *) new MNM_Dlink_Pq (id, 0.15, 0.5, 2, len, ffs, unit, 1) : (MNM_Dlink *) new MNM_Dlink_Lq (id, 0.15, 0.5, 2, len, ffs, unit, 1);
      x.l = l;
      l->install_cumulative_curve ();
      x.ff[0] = type == 0 ? (double) ((MNM_Dlink_Ctm *) l)->m_num_cells : type == 1 ? (double) ((MNM_Dlink_Pq *) l)->m_max_stamp : up (len / ffs);
      fill (r, l->m_N_in, l->m_N_out, x.in[0], x.out[0], std::min (8, (int) x.ff[0]), end);
    }
  else
    {
      bool ctm = r.b ();
      MNM_Dlink_Multiclass *l = ctm ? (MNM_Dlink_Multiclass *) new MNM_Dlink_Ctm_Multiclass (id, 2, len, 0.15, 0.1, 0.5, 0.3, ffs, ffs * 0.8, unit, 2, 1)
        : (MNM_Dlink_Multiclass *) new MNM_Dlink_Pq_Multiclass (id, 2, len, 0.15, 0.1, 0.5, 0.3, ffs, ffs * 0.8, unit, 2, 1);
      x.l = l;
      l->install_cumulative_curve_multiclass ();
      x.ff[1] = ctm ? (double) ((MNM_Dlink_Ctm_Multiclass *) l)->m_num_cells : (double) ((MNM_Dlink_Pq_Multiclass *) l)->m_max_stamp;
      x.ff[2] = (double) l->get_link_freeflow_tt_loading_truck ();
      fill (r, l->m_N_in_car, l->m_N_out_car, x.in[1], x.out[1], (int) x.ff[1], end);
      fill (r, l->m_N_in_truck, l->m_N_out_truck, x.in[2], x.out[2], (int) x.ff[2], end);
    }
  return x;
}
static bool eq (double a, double b) { return std::fabs (a - b) <= 1e-6 * (1 + std::fabs (a) + std::fabs (b)); }
static double ltt (L &x, int cl, double s, int end) { return reading (x.in[cl], x.out[cl], s, valid_until (x.in[cl], x.out[cl], end), x.ff[cl]); }
static double code_tt (L &x, int cl, double s, int end)
{
  if (cl == 0) return G::get_travel_time (x.l, TFlt (s), TFlt (5), TInt (end));
  auto *m = (MNM_Dlink_Multiclass *) x.l;
  return cl == 1 ? G::get_travel_time_car (m, TFlt (s), TFlt (5), TInt (end)) : G::get_travel_time_truck (m, TFlt (s), TFlt (5), TInt (end));
}

static void c12 (Rng &r)
{
  bool two = r.b ();
  int end = r.i (20, 80);
  L x = make (r, 1, two, end);
  std::string base = g_case;
  for (int q = 0; q < 30; ++q)
    {
      int cl = two ? r.i (1, 2) : 0;
      double s = r.b () ? r.i (0, end + 5) : r.i (0, 2 * end) / 2.0, e = s + r.i (0, 10);
      g_case = base + " class " + std::to_string (cl) + " end " + std::to_string (end) + " start " + std::to_string (s) + " to " + std::to_string (e);
      auto *m = (MNM_Dlink_Multiclass *) x.l;
      double fi, fj, fo;
      if (cl == 0) { fi = G::get_link_inflow (x.l, TFlt (s), TFlt (e)); fj = G::get_link_inflow (x.l, TInt ((int) s), TInt ((int) e)); fo = G::get_link_outflow (x.l, TInt ((int) s), TInt ((int) e)); }
      else if (cl == 1) { fi = G::get_link_inflow_car (m, TFlt (s), TFlt (e)); fj = G::get_link_inflow_car (m, TInt ((int) s), TInt ((int) e)); fo = G::get_link_outflow_car (m, TInt ((int) s), TInt ((int) e)); }
      else { fi = G::get_link_inflow_truck (m, TFlt (s), TFlt (e)); fj = G::get_link_inflow_truck (m, TInt ((int) s), TInt ((int) e)); fo = G::get_link_outflow_truck (m, TInt ((int) s), TInt ((int) e)); }
      double wi = count_at (x.in[cl], e) - count_at (x.in[cl], s), wj = count_at (x.in[cl], (int) e) - count_at (x.in[cl], (int) s), wo = count_at (x.out[cl], (int) e) - count_at (x.out[cl], (int) s);
      if (!eq (fi, wi) || !eq (fj, wj)) FAILC ("inflow %g / %g, the entry curve says %g / %g", fi, fj, wi, wj);
      if (!eq (fo, wo)) FAILC ("outflow %g, the exit curve says %g", fo, wo);
      double v = valid_until (x.in[cl], x.out[cl], end);
      if (v < 0) continue;
      double got, want = ltt (x, cl, s, end);
      try { got = code_tt (x, cl, s, end); } catch (std::exception &ex) { FAILC ("exception: %s", ex.what ()); }
      if (got < x.ff[cl] - 1e-9) FAILC ("travel time %g below the free-flow intervals %g", got, x.ff[cl]);
      if (!eq (got, want)) FAILC ("travel time %g, the curves say %g (free flow %g, valid until %g)", got, want, x.ff[cl], v);
      int tr = r.i (1, 4); double e2 = s + r.i (1, 6);
      double rb = cl == 0 ? G::get_travel_time_robust (x.l, TFlt (s), TFlt (e2), TFlt (5), TInt (end), TInt (tr))
        : cl == 1 ? G::get_travel_time_car_robust (m, TFlt (s), TFlt (e2), TFlt (5), TInt (end), TInt (tr)) : G::get_travel_time_truck_robust (m, TFlt (s), TFlt (e2), TFlt (5), TInt (end), TInt (tr));
      if (rb < x.ff[cl] - 1e-9) FAILC ("average travel time %g below the free-flow intervals %g", rb, x.ff[cl]);
      double direct = G::get_travel_time_from_cc (TFlt (s), cl == 0 ? x.l->m_N_in : cl == 1 ? m->m_N_in_car : m->m_N_in_truck, cl == 0 ? x.l->m_N_out : cl == 1 ? m->m_N_out_car : m->m_N_out_truck, TFlt (v), TFlt (x.ff[cl] + 0.25));
      if (!eq (direct, reading (x.in[cl], x.out[cl], s, v, x.ff[cl] + 0.25))) FAILC ("reading %g, the curves say %g", direct, reading (x.in[cl], x.out[cl], s, v, x.ff[cl] + 0.25));
    }
}

static void c17 (Rng &r)
{
  Path_Table t;
  int no = r.i (1, 3), nd = r.i (1, 3), cols = r.i (1, 4), col = r.i (0, cols - 1);
  std::vector<std::pair<MNM_Pathset *, std::vector<double>>> all;
  bool neg = false;
  for (int o = 0; o < no; ++o)
    {
      auto *m = new std::unordered_map<TInt, MNM_Pathset *> ();
      t.insert (std::pair<TInt, std::unordered_map<TInt, MNM_Pathset *> *> (o, m));
      for (int d = 0; d < nd; ++d)
        {
          auto *ps = new MNM_Pathset ();
          m->insert (std::pair<TInt, MNM_Pathset *> (100 + d, ps));
          std::vector<double> w;
          int n = r.i (0, 9) ? r.i (1, 5) : r.i (6, 30), kind = r.i (0, 8);
          double same = r.b () ? r.i (1, 9) : r.d (0, 3);
          for (int k = 0; k < n; ++k)
            {
              auto *p = new MNM_Path ();
              p->allocate_buffer (cols);
              for (int c = 0; c < cols; ++c) p->m_buffer[c] = 1000 + r.d (0, 9);
              double v = kind == 0 ? 0 : kind == 1 ? (r.b () ? 0 : r.d (0, 5)) : kind == 2 ? r.d (0, 1e-5) : kind == 3 ? r.i (0, 3) : kind == 4 ? same : kind == 5 ? 0.25 * r.i (0, 4) : kind == 6 ? r.i (1, 9) : r.d (0, 300);
              if (r.i (0, 60) == 0) { v = -r.d (0.01, 1); neg = true; }
              p->m_buffer[col] = v;
              p->m_p = r.d (0, 2);
              w.push_back (v);
              ps->m_path_vec.push_back (p);
            }
          all.push_back ({ ps, w });
        }
    }
  MNM::copy_buffer_to_p (&t, TInt (col));
  for (auto &x : all) for (size_t k = 0; k < x.second.size (); ++k) if (double (x.first->m_path_vec[k]->m_p) != x.second[k]) FAILC ("path got portion %g from column %d, which holds %g", double (x.first->m_path_vec[k]->m_p), col, x.second[k]);
  bool thrown = false;
  try { MNM::normalize_path_table_p (&t); } catch (std::exception &) { thrown = true; }
  if (thrown != neg) FAILC ("negative portions %s, refused %d", neg ? "given" : "not given", thrown);
  if (thrown) return;
  for (auto &x : all)
    {
      double T = 0, S = 0;
      for (double w : x.second) T += w;
      for (size_t k = 0; k < x.second.size (); ++k)
        {
          double got = x.first->m_path_vec[k]->m_p, want = T == 0 ? 1.0 / x.second.size () : x.second[k] / T;
          S += got;
          if (!(std::fabs (got - want) <= 1e-9)) FAILC ("portion %g after normalising, expected %g (weight %g of %g, %zu paths)", got, want, x.second[k], T, x.second.size ());
        }
      if (!(std::fabs (S - 1) <= 1e-9)) FAILC ("portions add up to %g", S);
    }
  MNM::copy_p_to_buffer (&t, TInt (col));
  for (auto &x : all) for (auto *p : x.first->m_path_vec) if (p->m_buffer[col] != double (p->m_p)) FAILC ("buffer column %d holds %g, portion is %g", col, p->m_buffer[col], double (p->m_p));
  for (auto &x : all) for (auto *p : x.first->m_path_vec) for (int c = 0; c < cols; ++c) if (c != col && p->m_buffer[c] < 1000) FAILC ("buffer column %d overwritten", c);
}

static void c22 (Rng &r)
{
  bool two = r.b ();
  int end = r.i (20, 60), n = r.i (1, 6);
  MNM_Link_Factory f;
  std::vector<L> ls;
  MNM_Path p;
  std::unordered_map<TInt, TFlt *> tt, cost;
  std::unordered_map<TInt, TFlt> snap;
  double len = 0, fft = 0, now = 0, sn = 0;
  p.m_node_vec.push_back (0);
  std::vector<int> order;
  for (int k = 0; k < n; ++k) order.push_back (k);
  for (int k = 0; k < n; ++k)
    {
      L x = make (r, 10 + k, two, end);
      f.m_link_map.insert (std::pair<TInt, MNM_Dlink *> (x.id, x.l));
      TFlt *a = new TFlt[end], *b = new TFlt[end];
      for (int i = 0; i < end; ++i) { a[i] = r.b () ? r.i (0, 6) : r.d (0.2, 7); b[i] = r.d (0, 20); }
      tt.insert (std::pair<TInt, TFlt *> (x.id, a));
      cost.insert (std::pair<TInt, TFlt *> (x.id, b));
      snap.insert (std::pair<TInt, TFlt> (x.id, TFlt (r.d (0, 9))));
      ls.push_back (x);
    }
  int steps = r.i (0, 8);
  std::vector<int> walk;
  for (int k = 0; k < steps; ++k) { int j = r.i (0, n - 1); walk.push_back (j); p.m_link_vec.push_back (ls[j].id); p.m_node_vec.push_back (k + 1); }
  for (int j : walk) { len += ls[j].l->m_length; if (!two) { fft += ls[j].l->m_length / ls[j].l->m_ffs; now += ls[j].l->get_link_tt (); } sn += snap[ls[j].id]; }
  if (!eq (p.get_path_length (&f), len)) FAILC ("length %g, the links add up to %g", double (p.get_path_length (&f)), len);
  if (!two && !eq (p.get_path_fftt (&f), fft)) FAILC ("free-flow time %g, the links add up to %g", double (p.get_path_fftt (&f)), fft);
  if (!two && !eq (p.get_path_tt (&f), now)) FAILC ("travel time %g, the links add up to %g", double (p.get_path_tt (&f)), now);
  if (!eq (MNM::get_path_tt_snapshot (&p, snap), sn)) FAILC ("cost %g, the links add up to %g", double (MNM::get_path_tt_snapshot (&p, snap)), sn);
  std::string base = g_case;
  for (int q = 0; q < 10; ++q)
    {
      double s = r.b () ? r.i (0, end + 3) : r.d (0, end);
      g_case = base + " start " + std::to_string (s);
      auto clamp = [&] (int t) { return t < end ? t : end - 1; };
      int t1 = (int) std::floor (s + 0.5), t2 = t1, t3 = t1; double c = 0;
      for (int j : walk)
        {
          c += cost[ls[j].id][clamp (t1)];
          t1 += up (tt[ls[j].id][clamp (t1)]);
          t2 = (int) (t2 + tt[ls[j].id][clamp (t2)]);
        }
      double g1 = G::get_path_travel_time (&p, TFlt (s), tt, TInt (end)), g2 = MNM::get_path_tt (TFlt (s), &p, tt, TInt (end)), gc = G::get_path_travel_cost (&p, TFlt (s), tt, cost, TInt (end));
      if (!eq (g1, t1 - s)) FAILC ("travel time %g, walking the links takes %g", g1, t1 - s);
      if (!eq (G::get_path_travel_time_car (&p, TFlt (s), tt, TInt (end)), t1 - s)) FAILC ("travel time of cars differs from walking the links (%g)", t1 - s);
      if (!eq (G::get_path_travel_time_truck (&p, TFlt (s), tt, TInt (end)), t1 - s)) FAILC ("travel time of trucks differs from walking the links (%g)", t1 - s);
      if (!eq (g2, t2 - s)) FAILC ("tabled travel time %g, walking the links takes %g", g2, t2 - s);
      if (!eq (gc, c)) FAILC ("cost %g, the links add up to %g", gc, c);
      for (int cl = two ? 1 : 0; cl <= (two ? 2 : 0); ++cl)
        {
          bool ok = true;
          t3 = (int) std::floor (s + 0.5);
          for (int j : walk) { if (valid_until (ls[j].in[cl], ls[j].out[cl], end) < 0) { ok = false; break; } t3 += up (ltt (ls[j], cl, t3 + 1, end)); }
          if (!ok) continue;
          double g = 0;
          try { g = cl == 0 ? G::get_path_travel_time (&p, TFlt (s), &f, TFlt (5), TInt (end)) : cl == 1 ? G::get_path_travel_time_car (&p, TFlt (s), &f, TFlt (5), TInt (end)) : G::get_path_travel_time_truck (&p, TFlt (s), &f, TFlt (5), TInt (end)); }
          catch (std::exception &ex) { FAILC ("exception: %s", ex.what ()); }
          if (!eq (g, t3 - s)) FAILC ("travel time (class %d) %g, walking the links takes %g", cl, g, t3 - s);
        }
    }
  f.m_link_map.clear ();
}

int main (int argc, char **argv)
{
  h_init ();
  std::string prop = argv[1];
  int seed = atoi (argv[2]);
  long cases = atol (argv[3]);
  for (long cs = 0; cs < cases; ++cs)
    {
      Rng r (seed * 1000003ull + cs);
      MNM_Ults::set_random_state (seed + cs);
      CASE ("case %ld", cs);
      if (prop == "C12") c12 (r);
      if (prop == "C17") c17 (r);
      if (prop == "C22") c22 (r);
    }
  return h_ok (cases);
}
