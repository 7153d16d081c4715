// fixed routes: choice of a path, one link of it after the other (single class and one class of two)
#include "h.h"
#include "multiclass.h"
#include "routing.h"
#include "ults.h"
#include <cmath>
#include <fstream>
#include <iostream>
#include <map>
#include <set>

#define CK(c, ...) do { if (!(c)) FAILC (__VA_ARGS__); } while (0)
struct Special : public MNM_Veh_Multiclass
{
  int bus; bool pnr;
  Special (int id, int c, int t, int b, bool p) : MNM_Veh_Multiclass (id, c, t), bus (b), pnr (p) {}
  TInt get_bus_route_ID () override { return bus; }
  bool get_ispnr () override { return pnr; }
};
typedef std::vector<int> VI;

static void routes (Rng &r)
{
  bool two = r.b (), asp = r.i (0, 2) > 0;
  int cls = two ? r.i (0, 1) : 0, freq = r.i (1, 5), nint = r.i (1, 4), T = r.i (3, 30);
  macposts::Graph g;
  MNM_OD_Factory od;
  MNM_Link_Factory lf;
  MNM_Routing_Fixed *rt = two ? new MNM_Routing_Biclass_Fixed (g, &od, nullptr, &lf, asp ? freq : -1, asp ? 2 * nint : -1, cls)
                              : new MNM_Routing_Fixed (g, &od, nullptr, &lf, asp ? freq : -1, asp ? nint : -1);
  // the other class of the network: shares the path table and takes its turn before or after this one
  MNM_Routing_Fixed *other = two && r.b () ? new MNM_Routing_Biclass_Fixed (g, &od, nullptr, &lf, asp ? freq : -1, asp ? 2 * nint : -1, 1 - cls) : nullptr;
  int no = r.i (1, 3), nd = r.i (1, 3), id = 1;
  std::vector<MNM_Origin *> O;
  std::vector<MNM_Destination *> D;
  MNM_Dnode *mid[4];
  for (int i = 0; i < 4; ++i) mid[i] = new MNM_Dnode_FWJ (300 + i, 1);
  for (int i = 0; i < no; ++i)
    {
      auto *o = new MNM_Origin (i + 1, 1, 1, 1);
      o->m_origin_node = new MNM_DMOND (100 + i, 1);
      od.m_origin_map[i + 1] = o;
      O.push_back (o);
    }
  for (int i = 0; i < nd; ++i)
    {
      auto *d = new MNM_Destination (i + 1);
      d->m_dest_node = new MNM_DMDND (200 + i, 1);
      od.m_destination_map[i + 1] = d;
      D.push_back (d);
    }
  auto mklink = [&] (MNM_Dnode *to) {
    auto *l = new MNM_Dlink_Pq (id, 10, 10, 1, 10, 10, 1, 1);
    l->m_to_node = to;
    lf.m_link_map[id++] = l;
    return l;
  };
  // links to share between paths
  std::vector<std::vector<MNM_Dlink *>> pool (4), last (nd);
  for (int i = 0; i < 4; ++i) for (int k = r.i (1, 3); k-- > 0;) pool[i].push_back (mklink (mid[i]));
  for (int i = 0; i < nd; ++i) for (int k = r.i (1, 3); k-- > 0;) last[i].push_back (mklink (D[i]->m_dest_node));
  auto *pt = new Path_Table ();
  std::map<std::pair<int, int>, std::vector<VI>> hot;       // portions per interval
  int cols = two ? 2 * nint : nint;
  for (int o = 0; o < no; ++o)
    {
      auto *row = new std::unordered_map<TInt, MNM_Pathset *> ();
      (*pt)[100 + o] = row;
      for (int d = 0; d < nd; ++d)
        {
          auto *ps = new MNM_Pathset ();
          (*row)[200 + d] = ps;
          int np = r.i (1, 4), h = r.i (0, np - 1);
          VI hs (cols);
          for (auto &x : hs) x = r.i (0, np - 1);
          for (int p = 0; p < np; ++p)
            {
              auto *pa = new MNM_Path ();
              for (int k = r.i (0, 5); k-- > 0;)
                {
                  auto &po = pool[r.i (0, 3)];
                  pa->m_link_vec.push_back (po[r.i (0, po.size () - 1)]->m_link_ID);
                }
              // no link twice in a row (the router steps when current == next)
              std::deque<TInt> q;
              for (auto x : pa->m_link_vec) if (q.empty () || q.back () != x) q.push_back (x);
              pa->m_link_vec = q;
              pa->m_link_vec.push_back (last[d][r.i (0, last[d].size () - 1)]->m_link_ID);
              pa->m_p = asp ? 0 : p == h ? 1 : 0;
              pa->allocate_buffer (cols);
              for (int k = 0; k < cols; ++k) pa->m_buffer[k] = hs[k] == p ? r.d (0.5, 3) : 0;
              ps->m_path_vec.push_back (pa);
            }
          if (!asp) hs.assign (cols, h);
          hot[{ o, d }].push_back (hs);
        }
    }
  rt->init_routing (pt);
  if (other) other->init_routing (pt);
  bool first = r.b ();
  auto turn = [&] (int t) {   // (its vehicles are kept out of the way: only the portions matter here)
    MNM_OD_Factory empty_od;
    MNM_Link_Factory empty_lf;
    other->m_od_factory = &empty_od, other->m_link_factory = &empty_lf;
    try { other->update_routing (t); } catch (std::exception &e) { FAILC ("error: %s", e.what ()); }
    other->m_od_factory = &od, other->m_link_factory = &lf;
  };
  struct S { MNM_Veh *v; int o, d, want; bool mine, adaptive; size_t done; bool in; MNM_Dlink *set; };
  std::vector<S> all;
  std::map<MNM_Veh *, int> ix;
  std::string base = g_case;
  int nv = 0, stuck = r.i (0, 3), t0 = asp ? 0 : r.i (0, 10);
  for (int t = t0; t < t0 + T; ++t)
    {
      g_case = base + (two ? " two-class" : " single") + " time " + std::to_string (t) + " vehicles " + std::to_string (nv);
      for (int k = r.i (0, 4); k-- > 0;)
        {
          int o = r.i (0, no - 1), d = r.i (0, nd - 1), c = two ? r.i (0, 1) : 0, bus = r.i (0, 5) == 0 ? 3 : -1;
          bool pnr = r.i (0, 5) == 0, ad = r.i (0, 3) == 0;
          MNM_Veh *v = two ? (MNM_Veh *) new Special (++nv, c, t, bus, pnr) : new MNM_Veh (++nv, t);
          v->m_type = ad ? MNM_TYPE_ADAPTIVE : MNM_TYPE_STATIC;
          v->set_origin (O[o]), v->set_destination (D[d]);
          O[o]->m_origin_node->m_in_veh_queue.push_back (v);
          ix[v] = all.size ();
          bool past = asp && other && !first && t / freq >= nint;   // no portions are given for this time
          int col = asp ? std::min (t / freq, nint - 1) + (two ? cls * nint : 0) : 0;
          all.push_back ({ v, o, d, past ? -1 : hot[{ o, d }][0][col], !two || (c == cls && bus == -1 && !pnr), ad, 0, true, nullptr });
        }
      if (other && first) turn (t);
      try { rt->update_routing (t); }
      catch (std::exception &e) { FAILC ("error: %s", e.what ()); }
      if (other && !first) turn (t);
      for (auto &s : all)
        {
          if (!s.v) continue;
          auto *ps = (*(*pt)[100 + s.o])[200 + s.d];
          bool tracked = rt->m_tracker.count (s.v);
          if (!s.mine) { CK (!tracked && !s.v->m_path && s.v->get_next_link () == s.set, "vehicle of another class or kind routed"); continue; }
          CK (s.v->m_path && ps->is_in (s.v->m_path), "path is not one of the OD pair");
          CK (s.want < 0 || s.v->m_path == ps->m_path_vec[s.want], "path has portion 0 in this interval");
          if (s.adaptive) { CK (!tracked && s.v->get_next_link () == s.set, "adaptive vehicle given a fixed route"); continue; }
          auto &L = s.v->m_path->m_link_vec;
          CK (tracked && rt->m_tracker[s.v]->size () == L.size () - (s.done < L.size () ? s.done + 1 : s.done), "%d links left of the route, %d of %d used",
              tracked ? (int) rt->m_tracker[s.v]->size () : -1, (int) s.done, (int) L.size ());
          MNM_Dlink *want = s.done < L.size () ? lf.m_link_map[L[s.done]] : nullptr;
          CK (s.v->get_next_link () == want, "next link is %d, link %d of its path is %d", s.v->get_next_link () ? (int) s.v->get_next_link ()->m_link_ID : -1, (int) s.done, want ? (int) want->m_link_ID : -1);
        }
      // toy network step
      std::vector<std::pair<MNM_Veh *, MNM_Dlink *>> mv;
      for (auto *o : O)
        for (auto it = o->m_origin_node->m_in_veh_queue.begin (); it != o->m_origin_node->m_in_veh_queue.end ();)
          {
            auto &s = all[ix[*it]];
            if (!s.mine || s.adaptive)
              {
                if (!s.set && r.b ()) { s.set = pool[0][0]; (*it)->set_next_link (s.set); }
                ++it;
                continue;
              }
            if (r.i (0, 3) < stuck) { ++it; continue; }
            mv.push_back ({ *it, (*it)->get_next_link () });
            it = o->m_origin_node->m_in_veh_queue.erase (it);
          }
      for (auto &x : lf.m_link_map)
        {
          auto &q = x.second->m_finished_array;
          for (auto it = q.begin (); it != q.end ();)
            {
              auto &s = all[ix[*it]];
              if (r.i (0, 3) < stuck && s.done < s.v->m_path->m_link_vec.size ()) { ++it; continue; }
              mv.push_back ({ *it, (*it)->get_next_link () });
              it = q.erase (it);
            }
        }
      for (auto &m : mv)
        {
          auto &s = all[ix[m.first]];
          if (m.second == nullptr)
            {
              bool del = r.b ();
              size_t n = rt->m_tracker.size ();
              m.first->finish (t + 1);
              rt->remove_finished (m.first, del);
              CK (rt->m_tracker.count (m.first) == size_t (!del) && rt->m_tracker.size () == n - del, "route of a finished vehicle %s", del ? "kept, or another one lost" : "lost");
              s.v = nullptr;
              continue;
            }
          m.first->set_current_link (m.second);
          s.done++;
          if (r.i (0, 3)) m.second->m_finished_array.push_back (m.first); else m.second->m_finished_array.push_front (m.first);
        }
    }
  // a given route
  MNM_Veh v (100000, 0);
  std::deque<TInt> q;
  for (int k = r.i (0, 6); k-- > 0;) q.push_back (r.i (1, 20));
  rt->add_veh_path (&v, &q);
  CK (rt->m_tracker.count (&v) && *rt->m_tracker[&v] == q && rt->m_tracker[&v] != &q, "given route not kept");
}

static void shares (Rng &r)
{
  macposts::Graph g;
  MNM_OD_Factory od;
  MNM_Link_Factory lf;
  MNM_Routing_Fixed rt (g, &od, nullptr, &lf);
  MNM_Origin o (1, 1, 1, 1);
  MNM_Destination d (1);
  o.m_origin_node = new MNM_DMOND (100, 1);
  d.m_dest_node = new MNM_DMDND (200, 1);
  auto *pt = new Path_Table ();
  auto *row = new std::unordered_map<TInt, MNM_Pathset *> ();
  auto *ps = new MNM_Pathset ();
  (*pt)[100] = row, (*row)[200] = ps;
  int np = r.i (1, 5);
  std::map<MNM_Path *, int> cnt;
  std::string s;
  for (int i = 0; i < np; ++i)
    {
      auto *p = new MNM_Path ();
      p->m_link_vec.push_back (i + 1);
      p->m_p = r.i (0, 3) ? r.d (0.05, 1) : 0;
      if (i == np - 1) p->m_p += 0.1;
      ps->m_path_vec.push_back (p);
    }
  ps->normalize_p ();
  for (auto *p : ps->m_path_vec) s += " " + std::to_string (p->m_p);
  g_case += " portions" + s;
  rt.init_routing (pt);
  const int N = 600;
  for (int i = 0; i < N; ++i)
    {
      MNM_Veh *v = new MNM_Veh (i + 1, 0);
      v->set_origin (&o), v->set_destination (&d);
      bool track = r.b ();
      try { rt.register_veh (v, track); } catch (std::exception &e) { FAILC ("error: %s", e.what ()); }
      CK (v->m_path && ps->is_in (v->m_path), "path is not one of the OD pair");
      CK (rt.m_tracker.count (v) == size_t (track), "vehicle %stracked", track ? "not " : "");
      if (track) CK (*rt.m_tracker[v] == v->m_path->m_link_vec, "route is not the links of the path");
      cnt[v->m_path]++;
    }
  for (auto *p : ps->m_path_vec)
    {
      double e = N * p->m_p, sd = sqrt (N * p->m_p * (1 - p->m_p));
      CK (fabs (cnt[p] - e) <= 6 * sd + 1, "path with portion %g chosen %d times out of %d", (double) p->m_p, cnt[p], N);
    }
}

struct Call { int who, t; MNM_Veh *v; bool del; };
static std::vector<Call> calls;
struct SF : public MNM_Routing_Fixed
{
  int who;
  SF (int w, macposts::Graph &g) : MNM_Routing_Fixed (g, nullptr, nullptr, nullptr), who (w) {}
  int update_routing (TInt t) override { calls.push_back ({ who, t, nullptr, false }); return 0; }
  int remove_finished (MNM_Veh *v, bool del) override { calls.push_back ({ who, -1, v, del }); return 0; }
};
struct SB : public MNM_Routing_Biclass_Fixed
{
  int who;
  SB (int w, macposts::Graph &g) : MNM_Routing_Biclass_Fixed (g, nullptr, nullptr, nullptr, -1, -1, w), who (w) {}
  int update_routing (TInt t) override { calls.push_back ({ who, t, nullptr, false }); return 0; }
  int remove_finished (MNM_Veh *v, bool del) override { calls.push_back ({ who, -1, v, del }); return 0; }
};

static void hybrid (Rng &r)
{
  bool two = r.b ();
  g_case += two ? " two-class hybrid routing" : " hybrid routing";
  { std::ofstream f ("config.conf"); f << "[DTA]\nadaptive_ratio = 0\nadaptive_ratio_car = 0\nadaptive_ratio_truck = 0\n[ADAPTIVE]\nroute_frq = 5\nvot = 1\n"; }
  macposts::Graph g;
  MNM_OD_Factory od;
  MNM_Link_Factory lf;
  MNM_Routing *h;
  if (two)
    {
      auto *x = new MNM_Routing_Biclass_Hybrid (".", g, nullptr, &od, nullptr, &lf, 5, 10);
      x->m_routing_fixed_car = new SB (0, g), x->m_routing_fixed_truck = new SB (1, g);
      h = x;
    }
  else
    {
      auto *x = new MNM_Routing_Hybrid (".", g, nullptr, &od, nullptr, &lf, 5, 10);
      x->m_routing_fixed = new SF (0, g);
      h = x;
    }
  for (int k = r.i (1, 8); k-- > 0;)
    {
      calls.clear ();
      int t = r.i (0, 100);
      bool fin = r.b (), del = r.b ();
      MNM_Veh v (1, 0);
      if (fin) h->remove_finished (&v, del); else h->update_routing (t);
      int n[2] = { 0, 0 };
      for (auto &c : calls) { n[c.who]++; CK (fin ? c.v == &v && c.del == del && c.t == -1 : c.t == t && !c.v, "handed over with other arguments"); }
      CK (n[0] == 1 && n[1] == int (two), "%s handed over %d and %d times", fin ? "finished vehicle" : "step", n[0], n[1]);
    }
}

int main (int argc, char **argv)
{
  h_init ();
  std::cout.setstate (std::ios_base::failbit);
  int seed = atoi (argv[2]);
  long cases = atol (argv[3]);
  for (long cs = 0; cs < cases; ++cs)
    {
      Rng r (seed * 1000003ull + cs);
      MNM_Ults::set_random_state (seed + cs);
      srand (seed + cs);
      CASE ("case %ld", cs);
      if (cs % 8 == 7) shares (r); else if (cs % 16 == 6) hybrid (r); else routes (r);
    }
  return h_ok (cases);
}
