// single-class link models: conservation, order, admission
#include "h.h"
#include "dlink.h"
#include "vehicle.h"
#include "ults.h"
#include <map>
#include <deque>
#include <algorithm>

static std::vector<MNM_Veh *> content (MNM_Dlink *l, int type)
{
  // order: first to leave first
  std::vector<MNM_Veh *> v (l->m_finished_array.begin (), l->m_finished_array.end ());
  if (type == 0) { auto *c = (MNM_Dlink_Ctm *) l; for (int i = (int) c->m_cell_array.size () - 1; i >= 0; --i) for (auto x : c->m_cell_array[i]->m_veh_queue) v.push_back (x); }
  if (type == 1) for (auto &x : ((MNM_Dlink_Pq *) l)->m_veh_queue) v.push_back (x.first);
  if (type == 2) for (auto x : ((MNM_Dlink_Lq *) l)->m_veh_queue) v.push_back (x);
  if (type == 3) for (auto x : ((MNM_Dlink_Ltm *) l)->m_veh_queue) v.push_back (x);
  for (auto x : l->m_incoming_array) v.push_back (x);
  return v;
}

#define EPS(x) (1e-6 * (1 + std::abs (double (x))))
// capacity, storage and counts of one link, computed from the parameters it was made with
struct Cap
{
  int type, lanes; double len, ffs, unit, s, cap, hold;
  double nominal () const { return lanes * cap * unit; }
  double most () const { return type == 0 || type == 2 ? std::max (nominal (), 1 / s) : nominal (); }
  bool bumped () const { return nominal () * s < 1; }
  double cell_supply (MNM_Dlink_Ctm::Ctm_Cell *c) const
  {
    double v = int (c->m_volume) / s, h = c->m_hold_cap, q = nominal ();
    return v >= h ? 0 : v < q ? q : (h - v) * q / (h - q);
  }
  void supply (MNM_Dlink *l) const
  {
    double x = l->get_link_supply ();
    if (x > most () + EPS (most ())) FAILC ("supply %.17g above the capacity %.17g per interval", x, most ());
    if (type != 2 && x < 0) FAILC ("supply %.17g is negative", x);
    if (type == 1 && std::abs (x - nominal ()) > EPS (x)) FAILC ("point queue: supply %.17g, capacity %.17g", x, nominal ());
    if (type == 2)
      {
        auto *q = (MNM_Dlink_Lq *) l;
        double d = int (q->m_volume) / s / len, f = most () / unit / lanes, kc = f / ffs * lanes;
        double e = d <= kc ? most () : (hold * lanes - d) * f / (hold - f / ffs) * unit;
        if (std::abs (d - kc) > EPS (kc) && hold > f / ffs && std::abs (x - e) > EPS (e)) FAILC ("link queue: supply %.17g at density %.17g, expected %.17g", x, d, e);
      }
    if (type == 0 && !bumped ())
      for (auto c : ((MNM_Dlink_Ctm *) l)->m_cell_array)
        {
          double y = c->get_supply (), e = cell_supply (c), v = int (c->m_volume) / s, dm = c->get_demand ();
          if (std::abs (y - e) > EPS (e)) FAILC ("cell holding %g of %g: supply %.17g, expected %.17g", v, double (c->m_hold_cap), y, e);
          if (std::abs (dm - std::min (v, nominal ())) > EPS (dm)) FAILC ("cell holding %g: demand %.17g, capacity %.17g", v, dm, nominal ());
        }
  }
  void counts (MNM_Dlink *l, int ph) const
  {
    int n = l->m_finished_array.size ();
    if (type == 0)
      {
        auto &a = ((MNM_Dlink_Ctm *) l)->m_cell_array;
        if (ph == 0) { if (int (a[0]->m_volume) != (int) a[0]->m_veh_queue.size ()) FAILC ("first cell counts %d vehicles, holds %zu", int (a[0]->m_volume), a[0]->m_veh_queue.size ()); return; }
        for (size_t i = 0; i < a.size (); ++i)
          { int h = a[i]->m_veh_queue.size () + (i + 1 == a.size () ? n : 0); if (int (a[i]->m_volume) != h) FAILC ("cell %zu counts %d vehicles, holds %d", i, int (a[i]->m_volume), h); }
      }
    else if (ph == 0)
      {
        int v = type == 1 ? int (((MNM_Dlink_Pq *) l)->m_volume) : type == 2 ? int (((MNM_Dlink_Lq *) l)->m_volume) : int (((MNM_Dlink_Ltm *) l)->m_volume);
        n += type == 1 ? ((MNM_Dlink_Pq *) l)->m_veh_queue.size () : type == 2 ? ((MNM_Dlink_Lq *) l)->m_veh_queue.size () : ((MNM_Dlink_Ltm *) l)->m_veh_queue.size ();
        if (v != n) FAILC ("link counts %d vehicles, holds %d", v, n);
      }
    else if (type >= 2 && n >= most () * s + 1 + 1e-6) FAILC ("%d vehicles at the exit, capacity is %g per interval", n, most () * s);
  }
  std::vector<double> before (MNM_Dlink *l) const
  {
    std::vector<double> r;
    if (type == 0) for (auto c : ((MNM_Dlink_Ctm *) l)->m_cell_array) { r.push_back (c->m_veh_queue.size ()); r.push_back (std::min (int (c->m_volume) / s, most ())); r.push_back (cell_supply (c)); }
    r.push_back (l->m_finished_array.size ());
    return r;
  }
  void moves (MNM_Dlink *l, const std::vector<double> &b) const
  {
    if (type != 0) return;
    auto &a = ((MNM_Dlink_Ctm *) l)->m_cell_array;
    double in = 0;
    for (size_t i = 0; i < a.size (); ++i)
      {
        double m = b[3 * i] - a[i]->m_veh_queue.size () + in;
        if (m < 0 || m > b[3 * i]) FAILC ("cell %zu held %g vehicles and passed on %g", i, b[3 * i], m);
        if (i + 1 == a.size ()) { if (m != b[3 * i]) FAILC ("last cell held %g vehicles and passed on %g", b[3 * i], m); break; }
        if (m >= b[3 * i + 1] * s + 1 + 1e-6) FAILC ("cell %zu passed on %g vehicles, its capacity and content allow %g", i, m, b[3 * i + 1] * s);
        double x = std::min (b[3 * i + 1], b[3 * i + 5]) * s;
        if (!bumped () && m >= x + 1 + 1e-6) FAILC ("cell %zu passed on %g vehicles, the next cell takes %g", i, m, b[3 * i + 5] * s);
        if (!bumped () && m <= x - 1 - 1e-6 && m != b[3 * i]) FAILC ("cell %zu passed on only %g of %g vehicles", i, m, x);
        in = m;
      }
  }
  double tt (double flow) const
  {
    double f = type == 2 ? most () / unit / lanes : cap, rho = flow / lanes / len, rk = f / ffs;
    if (rho >= hold) return 3600;
    if (rho <= rk) return len / ffs;
    return len / std::max ((type == 0 ? 0.001 : 2.220446049250313e-16) * ffs, f * (hold - rho) / ((hold - rk) * rho));
  }
  bool near (double flow) const { double rho = flow / lanes / len; return std::abs (rho - hold) < 1e-3 * hold; }
};

int main (int argc, char **argv)
{
  h_init ();
  std::string prop = argv[1];
  int seed = atoi (argv[2]);
  long cases = atol (argv[3]);
  for (long cs = 0; cs < cases; ++cs)
    {
      Rng r (seed * 1000003ull + cs);
      MNM_Ults::set_random_state (seed + cs);
      int type = r.i (0, 3);
      double ffs = r.d (5, 35), unit = r.i (1, 10), scalar = r.b () ? 1 : r.d (0.5, 12);
      int lanes = r.i (1, 4);
      double cap = r.d (0.1, 1.2), hold = std::max (r.d (0.03, 0.25), 2.2 * cap / ffs);
      if (hold > 300. / 1600) { hold = 300. / 1600; cap = std::min (cap, hold * ffs / 2.2); }
      if (prop == "C13" || prop == "C14") cap = std::min (cap, 0.97); // the cell model limits what a lane can carry
      double len = ffs * unit * r.d (0.6, 6);
      CASE ("case %ld type=%d lanes=%d len=%.17g ffs=%.17g unit=%g scalar=%.17g cap=%.17g hold=%.17g", cs, type, lanes, len, ffs, unit, scalar, cap, hold);
      MNM_Dlink *l = nullptr;
      try {
        if (type == 0) l = new MNM_Dlink_Ctm (1, hold, cap, lanes, len, ffs, unit, scalar);
        if (type == 1) l = new MNM_Dlink_Pq (1, hold, cap, lanes, len, ffs, unit, scalar);
        if (type == 2) l = new MNM_Dlink_Lq (1, hold, cap, lanes, len, ffs, unit, scalar);
        if (type == 3) l = new MNM_Dlink_Ltm (1, hold, cap, lanes, len, ffs, unit, scalar);
      } catch (std::exception &) { continue; }
      Cap cp { type, lanes, len, ffs, unit, scalar, cap, hold };
      if ((prop == "C13" || prop == "C14") && type == 2 && cp.most () / unit / lanes / ffs > 0.9 * hold) continue; // raised capacity beyond the storage
      if (prop == "C14")
        {
          for (int q = 0; q < 40; ++q)
            {
              double flow = q == 0 ? 0 : r.d (0, 1.3) * hold * lanes * len, x = l->get_link_tt_from_flow (flow), e = cp.tt (flow);
              if (!cp.near (flow) && std::abs (x - e) > EPS (e)) FAILC ("flow %.17g: travel time %.17g, expected %.17g", flow, x, e);
            }
        }
      int id = 0;
      std::vector<MNM_Veh *> all;
      std::map<MNM_Veh *, int> entered;
      int last_out = 0, steps = r.i (5, 40);
      bool jam = r.i (0, 3) == 0;
      std::string base = g_case;
      for (int t = 0; t < steps; ++t)
        {
          g_case = base + " step " + std::to_string (t);
          int room = (int) (l->get_link_supply () * scalar) - (int) l->m_incoming_array.size ();
          int k = room > 0 ? (r.i (0, 2) == 0 ? room : r.i (0, room)) : 0;
          if (type == 1 && r.i (0, 4) == 0) k += r.i (0, 40);
          if (k > 400) k = 400;
          for (int i = 0; i < k; ++i)
            {
              MNM_Veh *v = new MNM_Veh (++id, t);
              v->set_next_link (type == 0 || r.i (0, 5) ? l : nullptr);
              all.push_back (v);
              l->m_incoming_array.push_back (v);
            }
          for (int ph = 0; ph < 2; ++ph)
            {
              auto b = content (l, type);
              if (prop == "C13") cp.supply (l);
              auto cb = cp.before (l);
              int inc = l->m_incoming_array.size ();
              std::map<MNM_Veh *, int> stamp;
              if (type == 1) for (auto &x : ((MNM_Dlink_Pq *) l)->m_veh_queue) stamp[x.first] = x.second;
              try { if (ph == 0) l->clear_incoming_array (t); else l->evolve (t); }
              catch (std::exception &e) { if (ph == 0 && inc > room) break; goto next; }
              if (prop == "C03" && type == 1 && ph == 1)
                {
                  int need = std::max (0, int (((MNM_Dlink_Pq *) l)->m_max_stamp) - 1);
                  for (auto &x : ((MNM_Dlink_Pq *) l)->m_veh_queue) if (stamp[x.first] >= need || int (x.second) != stamp[x.first] + 1) FAILC ("vehicle held %d intervals stays with %d, free-flow time is %d", stamp[x.first], int (x.second), int (((MNM_Dlink_Pq *) l)->m_max_stamp));
                  for (auto v : l->m_finished_array) if (stamp.count (v) && stamp[v] < need) FAILC ("vehicle released after %d intervals", stamp[v]);
                }
              if (prop == "C13") { cp.counts (l, ph); if (ph == 1) cp.moves (l, cb); }
              if (prop == "C13" && ph == 0 && inc - (int) l->m_incoming_array.size () > cp.most () * scalar + 1e-6) FAILC ("%d vehicles admitted, capacity is %g", inc - (int) l->m_incoming_array.size (), cp.most () * scalar);
              if (prop == "C14")
                {
                  double f = l->get_link_flow (), x = l->get_link_tt (), e = cp.tt (f);
                  int n = content (l, type).size () - l->m_incoming_array.size ();
                  if (type != 0 && ph == 0 && std::abs (f * scalar - n) > 1e-6) FAILC ("flow %.17g with %d vehicles", f, n);
                  if (!cp.near (f) && std::abs (x - e) > EPS (e)) FAILC ("current travel time %.17g at flow %.17g, expected %.17g", x, f, e);
                }
              auto a = content (l, type);
              if (prop == "C01")
                {
                  auto x = a, y = b;
                  std::sort (x.begin (), x.end ());
                  std::sort (y.begin (), y.end ());
                  if (x != y) FAILC ("vehicles on the link changed in a %s: %zu before, %zu after", ph ? "step" : "admission", b.size (), a.size ());
                  if (ph == 0 && type != 1 && !l->m_incoming_array.empty ()) FAILC ("admission left vehicles behind");
                }
              if (prop == "C03" && a != b) FAILC ("order of vehicles changed in a %s", ph ? "step" : "admission");
            }
          // downstream takes some
          {
            int n = jam ? 0 : r.i (0, (int) l->m_finished_array.size ());
            for (int i = 0; i < n; ++i) l->m_finished_array.pop_front ();
            (void) last_out;
          }
        }
    next:;
      for (auto v : all) delete v;
    }
  return h_ok (cases);
}
