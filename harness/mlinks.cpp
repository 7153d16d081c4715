// two-class link models: conservation and class separation (C02), order within a class and point-queue dwell (C26)
#include "h.h"
#include "multiclass.h"
#include "ults.h"
#include <map>
#include <deque>
#include <algorithm>
typedef std::vector<MNM_Veh *> VV;
typedef MNM_Veh_Multiclass MV;

static VV content (MNM_Dlink *l, int type, int cls)   // cls -1: all; order: first to leave first
{
  VV v;
  auto put = [&] (MNM_Veh *x) { if (cls < 0 || (int (((MV *) x)->m_class) != 0) == (cls != 0)) v.push_back (x); };
  for (auto x : l->m_finished_array) put (x);
  if (type == 0) { auto *c = (MNM_Dlink_Ctm_Multiclass *) l; for (int i = (int) c->m_cell_array.size () - 1; i >= 0; --i) { for (auto x : c->m_cell_array[i]->m_veh_queue_car) put (x); for (auto x : c->m_cell_array[i]->m_veh_queue_truck) put (x); } }
  if (type == 1) { auto *c = (MNM_Dlink_Lq_Multiclass *) l; for (auto x : c->m_veh_out_buffer_car) put (x); for (auto x : c->m_veh_out_buffer_truck) put (x); for (auto x : c->m_veh_queue_car) put (x); for (auto x : c->m_veh_queue_truck) put (x); }
  if (type == 2) for (auto &x : ((MNM_Dlink_Pq_Multiclass *) l)->m_veh_pool) put (x.first);
  for (auto x : l->m_incoming_array) put (x);
  return v;
}

int main (int argc, char **argv)
{
  h_init ();
  std::string prop = argv[1];
  int seed = atoi (argv[2]);
  long cases = atol (argv[3]);
  for (long cs = 0; cs < cases; ++cs)
    {
      Rng r (seed * 1000003ull + cs);
      MNM_Ults::set_random_state (seed + cs);
      int type = r.i (0, 2);
      double ffs = r.d (8, 35), ffst = ffs * r.d (0.6, 1.0), unit = r.i (1, 10), scalar = r.b () ? 1 : r.d (1, 12), conv = r.d (1, 3);
      int lanes = r.i (1, 4);
      double cap = r.d (0.2, 0.9), capt = cap * r.d (0.4, 1), hold = r.d (0.1, 0.25), holdt = hold * r.d (0.4, 1);
      double len = ffs * unit * r.d (0.6, 6);
      CASE ("case %ld type=%d lanes=%d len=%.17g ffs=%.17g/%.17g unit=%g scalar=%.17g cap=%.17g/%.17g hold=%.17g/%.17g conv=%.17g", cs, type, lanes, len, ffs, ffst, unit, scalar, cap, capt, hold, holdt, conv);
      MNM_Dlink_Multiclass *l = nullptr;
      try {
        if (type == 0) l = new MNM_Dlink_Ctm_Multiclass (1, lanes, len, hold, holdt, cap, capt, ffs, ffst, unit, conv, scalar);
        if (type == 1) l = new MNM_Dlink_Lq_Multiclass (1, lanes, len, hold, holdt, cap, capt, ffs, ffst, unit, conv, scalar);
        if (type == 2) l = new MNM_Dlink_Pq_Multiclass (1, lanes, len, hold, holdt, cap, capt, ffs, ffst, unit, conv, scalar);
      } catch (std::exception &) { continue; }
      if (!l) continue;
      int id = 0, steps = r.i (5, 40);
      VV all;
      bool jam = r.i (0, 3) == 0;
      double ptruck = r.b () ? 0.3 : r.d ();
      std::string base = g_case;
      for (int t = 0; t < steps; ++t)
        {
          g_case = base + " step " + std::to_string (t);
          double room = l->get_link_supply () * scalar - (double) l->m_incoming_array.size ();
          int k = room > 0 ? (r.i (0, 2) == 0 ? (int) room : r.i (0, (int) room)) : 0;
          if (r.i (0, 4) == 0) k += r.i (0, 20);
          if (k > 300) k = 300;
          for (int i = 0; i < k; ++i)
            {
              MV *v = new MV (++id, r.d () < ptruck ? 1 : 0, t);
              v->set_next_link (type != 2 || r.i (0, 5) ? l : nullptr);
              all.push_back (v);
              l->m_incoming_array.push_back (v);
            }
          for (int ph = 0; ph < 2; ++ph)
            {
              VV b = content (l, type, -1), bc = content (l, type, 0), bt = content (l, type, 1);
              size_t inc = l->m_incoming_array.size ();
              std::map<MNM_Veh *, int> stamp;
              if (type == 2) for (auto &x : ((MNM_Dlink_Pq_Multiclass *) l)->m_veh_pool) stamp[x.first] = x.second;
              double sup = l->get_link_supply () * scalar;
              try { if (ph == 0) l->clear_incoming_array (t); else l->evolve (t); }
              catch (std::exception &e) { goto next; }
              VV a = content (l, type, -1), ac = content (l, type, 0), at = content (l, type, 1);
              if (prop == "C02")
                {
                  std::sort (a.begin (), a.end ());
                  std::sort (b.begin (), b.end ());
                  if (a != b) FAILC ("vehicles on the link changed in a %s: %zu before, %zu after", ph ? "step" : "admission", b.size (), a.size ());
                  if (ph == 0 && type != 2 && !l->m_incoming_array.empty ()) FAILC ("admission left vehicles behind");
                  if (ph == 0 && type == 2)
                    {
                      size_t in = inc - l->m_incoming_array.size ();
                      if (in < inc && (double) in < sup) FAILC ("admission took %zu of %zu, supply allows %g", in, inc, sup);
                      if ((double) in >= sup + 1) FAILC ("admission took %zu, supply allows %g", in, sup);
                    }
                  auto chk = [&] (std::deque<MNM_Veh *> &q, bool car) { for (auto x : q) if ((int (((MV *) x)->m_class) == 0) != car) FAILC ("a %s stands in a queue of the other class", car ? "truck" : "car"); };
                  if (type == 0) for (auto c : ((MNM_Dlink_Ctm_Multiclass *) l)->m_cell_array) { chk (c->m_veh_queue_car, true); chk (c->m_veh_queue_truck, false); }
                  if (type == 1) { auto *c = (MNM_Dlink_Lq_Multiclass *) l; chk (c->m_veh_queue_car, true); chk (c->m_veh_queue_truck, false); if (!c->m_veh_out_buffer_car.empty () || !c->m_veh_out_buffer_truck.empty ()) FAILC ("vehicles left in the out buffer"); }
                }
              else
                {
                  if (ac != bc) FAILC ("order of cars changed in a %s", ph ? "step" : "admission");
                  if (at != bt) FAILC ("order of trucks changed in a %s", ph ? "step" : "admission");
                  if (type == 2 && ph == 1)
                    {
                      auto *c = (MNM_Dlink_Pq_Multiclass *) l;
                      int need = std::max (0, int (c->m_max_stamp) - 1);
                      for (auto &x : c->m_veh_pool) if (stamp[x.first] >= need || int (x.second) != stamp[x.first] + 1) FAILC ("vehicle held %d intervals stays with %d, free-flow time is %d", stamp[x.first], int (x.second), int (c->m_max_stamp));
                      for (auto v : l->m_finished_array) if (stamp.count (v) && stamp[v] < need) FAILC ("vehicle released after %d intervals", stamp[v]);
                    }
                  if (type == 2 && ph == 0)
                    {
                      auto *c = (MNM_Dlink_Pq_Multiclass *) l;
                      for (auto &x : c->m_veh_pool) if (int (x.second) != (stamp.count (x.first) ? stamp[x.first] : 0)) FAILC ("admission changed a waiting time to %d", int (x.second));
                    }
                }
            }
          int n = jam ? 0 : r.i (0, (int) l->m_finished_array.size ());
          for (int i = 0; i < n; ++i) l->m_finished_array.pop_front ();
        }
    next:;
      for (auto v : all) delete v;
    }
  return h_ok (cases);
}
