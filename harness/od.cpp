// vehicle register, destinations, origins (single- and two-class)
#include "h.h"
#include "multiclass.h"
#include "routing.h"
#include "ults.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>

typedef std::vector<MNM_Veh *> VV;
struct NoRoute : public MNM_Routing
{
  macposts::Graph g;
  std::map<MNM_Veh *, int> seen;
  NoRoute () : MNM_Routing (g, nullptr, nullptr, nullptr) {}
  int init_routing (Path_Table *) override { return 0; }
  int update_routing (TInt) override { return 0; }
  int remove_finished (MNM_Veh *v, bool) override { seen[v]++; return 0; }
};
#define CK(c, ...) do { if (!(c)) FAILC (__VA_ARGS__); } while (0)

static void registry (Rng &r)
{
  bool two = r.b ();
  MNM_Veh_Factory *f = two ? new MNM_Veh_Factory_Multiclass () : new MNM_Veh_Factory ();
  auto *m = dynamic_cast<MNM_Veh_Factory_Multiclass *> (f);
  long num[2] = { 0, 0 }, fin[2] = { 0, 0 };
  double tt[2] = { 0, 0 };
  std::map<int, MNM_Veh *> reg;
  std::map<MNM_Veh *, int> cl, st;
  std::vector<MNM_Veh *> live;
  std::set<int> ids;
  auto same = [&] (const char *when) {
    CK (int (f->m_num_veh) == num[0] + num[1] && int (f->m_finished) == fin[0] + fin[1] && int (f->m_enroute) == num[0] + num[1] - fin[0] - fin[1],
        "%s: made %d under way %d finished %d, expected %ld %ld %ld", when, (int) f->m_num_veh, (int) f->m_enroute, (int) f->m_finished, num[0] + num[1],
        num[0] + num[1] - fin[0] - fin[1], fin[0] + fin[1]);
    CK (fabs (f->m_total_time - tt[0] - tt[1]) < 1e-6, "%s: total travel time %g, expected %g", when, f->m_total_time, tt[0] + tt[1]);
    if (m)
      {
        CK (m->m_num_car == num[0] && m->m_num_truck == num[1] && m->m_finished_car == fin[0] && m->m_finished_truck == fin[1]
              && m->m_enroute_car == num[0] - fin[0] && m->m_enroute_truck == num[1] - fin[1], "%s: class counters wrong", when);
        CK (fabs (m->m_total_time_car - tt[0]) < 1e-6 && fabs (m->m_total_time_truck - tt[1]) < 1e-6, "%s: class travel times wrong", when);
      }
    CK (f->m_veh_map.size () == reg.size (), "%s: %d registered, expected %d", when, (int) f->m_veh_map.size (), (int) reg.size ());
    for (auto &x : reg) CK (f->m_veh_map.count (x.first) && f->m_veh_map[x.first] == x.second && x.second->m_veh_ID == x.first, "%s: vehicle %d not filed under its number", when, x.first);
  };
  for (int i = 0, n = r.i (1, 60); i < n; ++i)
    {
      if (live.empty () || r.i (0, 2))
        {
          int c = two ? r.i (0, 1) : 0, t = r.i (0, 50);
          Vehicle_type ty = r.b () ? MNM_TYPE_ADAPTIVE : MNM_TYPE_STATIC;
          MNM_Veh *v = m ? m->make_veh_multiclass (t, ty, c) : f->make_veh (t, ty);
          num[c]++;
          CK (v->m_start_time == t && v->m_type == ty && v->get_class () == c && v->m_finish_time < 0 && !v->has_next_link () && !v->get_current_link (), "new vehicle not as ordered");
          CK (ids.insert (v->m_veh_ID).second, "vehicle number %d used twice", (int) v->m_veh_ID);
          reg[v->m_veh_ID] = v;
          cl[v] = c, st[v] = t;
          live.push_back (v);
          same ("make");
        }
      else
        {
          int k = r.i (0, live.size () - 1);
          MNM_Veh *v = live[k];
          live.erase (live.begin () + k);
          bool del = r.b ();
          int end = st[v] + r.i (1, 30);
          v->finish (end);
          int id = v->m_veh_ID, c = cl[v];
          f->remove_finished_veh (v, del);
          fin[c]++, tt[c] += end - st[v];
          if (del) reg.erase (id);
          same (del ? "remove+delete" : "remove");
        }
      if (r.i (0, 9) == 0)
        {
          MNM_Veh *x = two ? new MNM_Veh_Multiclass (r.b () ? 1 + r.i (0, 5) : 1000000, 0, 0) : new MNM_Veh (r.b () ? 1 + r.i (0, 5) : 1000000, 0);
          x->finish (3);
          bool thrown = false;
          try { f->remove_finished_veh (x, true); } catch (std::exception &) { thrown = true; }
          CK (thrown, "an unregistered vehicle was accepted as finished");
          break;      // state after the error is not specified
        }
    }
}

static void destination (Rng &r)
{
  MNM_DMDND node (7, 1);
  MNM_Destination d (1), other (2);
  d.m_dest_node = &node, other.m_dest_node = &node;
  MNM_Veh_Factory *f = new MNM_Veh_Factory ();
  NoRoute rt;
  std::vector<MNM_Veh *> keep, q;
  int n = r.i (0, 25), cur = r.i (60, 90);
  bool bad = r.i (0, 5) == 0 && n > 0, full = r.i (0, 3) > 0, del = r.b ();
  int badat = n ? r.i (0, n - 1) : 0;
  double tt = 0;
  for (int i = 0; i < n + r.i (0, 5); ++i)
    {
      MNM_Veh *v = f->make_veh (r.i (0, 50), MNM_TYPE_STATIC);
      v->set_destination (bad && i == badat ? &other : &d);
      if (i < n) q.push_back (v), tt += cur - v->m_start_time; else keep.push_back (v);
    }
  for (auto v : q) node.m_out_veh_queue.push_back (v);
  int num = f->m_num_veh;
  bool thrown = false;
  try { if (full) d.receive (cur, &rt, f, del); else d.receive (cur); } catch (std::exception &) { thrown = true; }
  CK (thrown == bad, bad ? "a vehicle heading elsewhere was received" : "error raised without reason");
  if (bad) return;
  CK (node.m_out_veh_queue.empty (), "%d vehicles left in the arrival queue", (int) node.m_out_veh_queue.size ());
  if (full)
    {
      CK (f->m_finished == n && f->m_enroute == num - n && f->m_num_veh == num, "finished %d under way %d of %d, arrived %d", (int) f->m_finished, (int) f->m_enroute, num, n);
      CK (fabs (f->m_total_time - tt) < 1e-6, "total travel time %g, expected %g", f->m_total_time, tt);
      CK (f->m_veh_map.size () == size_t (del ? num - n : num), "register holds %d vehicles", (int) f->m_veh_map.size ());
      for (auto v : q) CK (rt.seen[v] == 1, "routing told %d times about a finished vehicle", rt.seen[v]);
    }
  if (!full || !del) for (auto v : q) CK (v->m_finish_time == cur, "arrival time %d recorded, expected %d", (int) v->m_finish_time, cur);
  for (auto v : keep) CK (v->m_finish_time < 0, "vehicle not received marked finished");
}

static void origin (Rng &r)
{
  int kind = r.i (0, 2);                    // single, two-class, two-class with separate ratios
  bool two = kind > 0;
  int maxi = r.i (1, 4), freq = r.i (1, 20);
  double scalar = r.b () ? 1 : r.i (2, 10);
  MNM_DMOND node (5, scalar);
  auto *o1 = two ? nullptr : new MNM_Origin (1, maxi, scalar, freq);
  auto *o2 = two ? new MNM_Origin_Multiclass (1, maxi, scalar, freq) : nullptr;
  MNM_Origin *o = two ? o2 : o1;
  o->m_origin_node = &node;
  node.m_origin = o;
  MNM_Veh_Factory *f = two ? new MNM_Veh_Factory_Multiclass () : new MNM_Veh_Factory ();
  auto *fm = dynamic_cast<MNM_Veh_Factory_Multiclass *> (f);
  int nd = r.i (0, 5), nt = two ? maxi * 15 : maxi;
  std::vector<MNM_Destination *> D;
  std::map<MNM_Destination *, std::vector<double>> dem[2], rat[2];
  std::string s;
  for (int i = 0; i < nd; ++i)
    {
      auto *d = two ? new MNM_Destination_Multiclass (i) : new MNM_Destination (i);
      D.push_back (d);
      if (r.i (0, 5) == 0) continue;
      std::vector<double> a (nt), b (nt), ra (nt), rb (nt);
      for (int t = 0; t < nt; ++t)
        {
          a[t] = r.i (0, 3) == 0 ? 0 : r.b () ? r.i (0, 4) : r.d (0, 3);
          b[t] = r.i (0, 3) == 0 ? 0 : r.b () ? r.i (0, 4) : r.d (0, 3);
          ra[t] = r.i (0, 4) == 0 ? r.d () : r.i (0, 1);
          rb[t] = r.i (0, 4) == 0 ? r.d () : r.i (0, 1);
        }
      dem[0][d] = a, dem[1][d] = b;
      if (two) o2->add_dest_demand_multiclass ((MNM_Destination_Multiclass *) d, a.data (), b.data ());
      else o1->add_dest_demand (d, a.data ());
      if (r.i (0, 2) == 0)
        {
          rat[0][d] = ra, rat[1][d] = rb;
          if (two) o2->add_dest_adaptive_ratio_multiclass ((MNM_Destination_Multiclass *) d, ra.data (), rb.data ());
          else o1->add_dest_adaptive_ratio (d, ra.data ());
        }
    }
  if (r.b ())
    {
      std::vector<TFlt> l;
      for (int i = 0; i < r.i (1, 3); ++i) l.push_back (r.d (0, 1));
      if (two) { o2->m_car_label_ratio = l; if (r.b ()) o2->m_truck_label_ratio = l; } else o1->m_vehicle_label_ratio = l;
    }
  std::set<MNM_Veh *> before;
  int made = 0;
  std::string base = g_case;
  for (int step = 0; step < r.i (1, 3); ++step)
    {
      int ai = r.i (-1, nt - 1), cur = r.i (0, 200);
      double p[2] = { r.i (0, 2) == 0 ? r.d () : r.i (0, 1), r.i (0, 2) == 0 ? r.d () : r.i (0, 1) };
      if (kind < 2) p[1] = p[0];
      g_case = base + " kind=" + std::to_string (kind) + " step=" + std::to_string (step) + " interval=" + std::to_string (ai) + " destinations=" + std::to_string (nd) +
               " own ratios=" + std::to_string (rat[0].size ()) + " ratio=" + std::to_string (p[0]) + "," + std::to_string (p[1]);
      int num0 = f->m_num_veh;
      if (kind == 2) o->release_one_interval_biclass (cur, f, ai, p[0], p[1]);
      else o->release_one_interval (cur, f, ai, p[0]);
      std::map<MNM_Destination *, int> cnt[2];
      std::set<MNM_Veh *> now;
      for (auto v : node.m_in_veh_queue) CK (now.insert (v).second, "vehicle queued twice");
      for (auto v : before) CK (now.count (v), "waiting vehicle lost");
      for (auto v : now)
        {
          if (before.count (v)) continue;
          ++made;
          int c = v->get_class ();
          CK (v->get_origin () == o && v->m_start_time == cur && v->m_assign_interval == cur / freq && v->m_finish_time < 0, "new vehicle not set up for this origin and interval");
          CK (c == 0 || (two && c == 1), "vehicle class %d", c);
          CK (f->m_veh_map.count (v->m_veh_ID) && f->m_veh_map[v->m_veh_ID] == v, "new vehicle not registered");
          auto *d = v->get_destination ();
          CK (dem[c].count (d), "vehicle to a destination without demand");
          cnt[c][d]++;
          double ra = rat[c].count (d) ? rat[c][d][ai] : p[c];
          CK (!(ra == 0 && v->m_type != MNM_TYPE_STATIC), "adaptive vehicle although the adaptive ratio for its destination is 0");
          CK (!(ra == 1 && v->m_type != MNM_TYPE_ADAPTIVE), "fixed-route vehicle although the adaptive ratio for its destination is 1");
        }
      CK (int (f->m_num_veh) == made && int (f->m_enroute) == made && f->m_num_veh - num0 == int (now.size () - before.size ()), "register counts %d, made %d", (int) f->m_num_veh, made);
      for (int c = 0; c < (two ? 2 : 1); ++c)
        for (auto d : D)
          {
            double x = ai < 0 || !dem[c].count (d) ? 0 : dem[c][d][ai] * scalar;
            int n = cnt[c][d];
            CK (n >= floor (x) && n <= ceil (x), "%d vehicles of class %d released for demand %g", n, c, x);
          }
      before = now;
    }
}

int main (int argc, char **argv)
{
  h_init ();
  std::string prop = argv[1];
  int seed = atoi (argv[2]);
  long cases = atol (argv[3]);
  for (long cs = 0; cs < cases; ++cs)
    {
      Rng r (seed * 1000003ull + cs);
      MNM_Ults::set_random_state (seed + cs);
      srand (seed + cs);
      CASE ("case %ld", cs);
      if (prop == "C07") registry (r);
      else if (prop == "C08") destination (r);
      else origin (r);
    }
  return h_ok (cases);
}
