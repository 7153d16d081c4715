PRE = r'''
#include "dta.h"
#include "multiclass.h"
#include "ults.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <vector>
#define REQ(c, ...) do { if (!(c)) { printf (__VA_ARGS__); printf ("\n"); return 1; } } while (0)
static std::vector<std::string> LG;
static void note (std::string s, int t) { LG.push_back (s + "@" + std::to_string (t)); }
struct O : public MNM_Origin { O () : MNM_Origin (1, 1, 1, 1) {}
  int release_one_interval (TInt t, MNM_Veh_Factory *f, TInt a, TFlt r) override { if (a >= 0) note ("release" + std::to_string (a), t); return 0; } };
struct De : public MNM_Destination { De () : MNM_Destination (1) {}
  int receive (TInt t) override { note ("receive", t); return 0; }
  int receive (TInt t, MNM_Routing *, MNM_Veh_Factory *, bool) override { note ("receive", t); return 0; } };
struct N : public MNM_Dnode { N () : MNM_Dnode (1, 1) {} int evolve (TInt t) override { note ("node", t); return 0; } };
struct L : public MNM_Dlink { L (int i) : MNM_Dlink (i, 1, 100., 10.) { m_link_type = MNM_TYPE_CTM; }
  int clear_incoming_array (TInt t) override { note ("clear", t); return 0; } int evolve (TInt t) override { note ("link", t); return 0; } };
struct Rt : public MNM_Routing { Rt (macposts::Graph &g) : MNM_Routing (g, nullptr, nullptr, nullptr) {} int update_routing (TInt t) override { note ("route", t); return 0; } };
struct St : public MNM_Statistics { St (MNM_ConfReader *a, MNM_ConfReader *b) : MNM_Statistics (".", a, b, nullptr, nullptr, nullptr) {}
  int update_record (TInt t) override { return 0; } int post_record () override { return 0; } };
static MNM_Dta *make (int freq, int nint, int start, int total)
{
  std::cout.setstate (std::ios_base::failbit);
  { std::ofstream f ("config.conf");
    f << "[DTA]\nunit_time = 5\nflow_scalar = 1\nassign_frq = " << freq << "\nstart_assign_interval = " << start << "\nmax_interval = " << nint << "\ntotal_interval = " << total
      << "\nrouting_type = Fixed\ninit_demand_split = 0\nev_label = 0\n[STAT]\nrec_mode = LRn\nrec_mode_para = 5\nrec_folder = record\nrec_volume = 0\nrec_tt = 0\n"; }
  MNM_Dta *d = new MNM_Dta (".");
  d->m_statistics = new St (d->m_config, new MNM_ConfReader ("./config.conf", "STAT"));
  d->m_routing = new Rt (d->m_graph);
  d->m_od_factory->m_origin_map[1] = new O (); d->m_od_factory->m_destination_map[1] = new De (); d->m_node_factory->m_node_map[1] = new N ();
  for (int i = 1; i <= 2; ++i) { d->m_link_factory->m_link_map[i] = new L (i); d->m_queue_veh_map[i] = new std::deque<TInt> (); }
  return d;
}
static int count (std::string s) { int n = 0; for (auto &x : LG) n += x == s; return n; }
'''
SEEDS = [
 dict(id='S20', property='C19', edits=[('src/dta.cpp', """      if (++_current_inter % m_assign_freq == 0)
        {
          ++_assign_inter;
        }
    }
  if (verbose)
    {
      MNM::print_vehicle_statistics (m_veh_factory);
    }
  m_statistics->post_record ();
  if (m_gridlock""", """      ++_current_inter;
      _assign_inter = TInt (_current_inter + m_start_assign_interval)
                      / m_assign_freq;
    }
  if (verbose)
    {
      MNM::print_vehicle_statistics (m_veh_factory);
    }
  m_statistics->post_record ();
  if (m_gridlock""")],
  needs='a loading that starts at an assignment interval other than 0, with assign_frq above 1',
  what='the start interval is taken for a time, so after the first interval the demand of the wrong interval is released',
  demo=PRE + r'''
int main ()
{
  for (int freq = 1; freq <= 4; ++freq)
    for (int start = 0; start < 2; ++start)
      {
        LG.clear ();
        MNM_Dta *d = make (freq, 4, start, 20);
        int n = d->loading (false);
        REQ (n == 20, "%d steps instead of 20", n);
        for (int a = start; a < 4; ++a) REQ (count ("release" + std::to_string (a) + "@" + std::to_string ((a - start) * freq)) == 1, "assign_frq %d: demand of interval %d not released at %d", freq, a, (a - start) * freq);
      }
  return 0;
}
'''),
 dict(id='S21', property='C19', edits=[('src/dta.cpp', """      _link->clear_incoming_array (load_int);
      _link->evolve (load_int);
    }
""", """      _link->clear_incoming_array (load_int);
      // nothing can have moved once the last vehicle is gone
      if (load_int == 0 || m_enroute_veh_num.back () > 0)
        _link->evolve (load_int);
    }
""")],
  needs='vehicles released in a step that follows one at whose end no vehicle was under way (a gap in the demand)',
  what='links stand still in the first step after the network was empty, although vehicles have entered it',
  demo=PRE + r'''
int main ()
{
  MNM_Dta *d = make (2, 3, 0, 8);
  int n = d->loading (false);
  REQ (n == 8, "%d steps instead of 8", n);
  for (int t = 0; t < n; ++t) REQ (count ("link@" + std::to_string (t)) == 2, "%d of 2 links moved at %d", count ("link@" + std::to_string (t)), t);
  return 0;
}
'''),
 dict(id='S22', property='C19', edits=[('src/multiclass.cpp', """      _queue_size_car = 0, _queue_size_truck = 0;
      for (auto *_v : _link->m_finished_array)
        {
""", """      if (_queue_size > 0)
        _queue_size_car = 0, _queue_size_truck = 0;
      for (auto *_v : _link->m_finished_array)
        {
""")],
  needs='a two-class network with a link where vehicles wait and, later in the register, one where none do',
  what='an empty link is noted with the waiting cars and trucks of another link',
  demo=PRE + r'''
struct L2 : public MNM_Dlink_Multiclass { L2 (int i) : MNM_Dlink_Multiclass (i, 1, 100., 10., 10.) { m_link_type = MNM_TYPE_CTM_MULTICLASS; } };
int main ()
{
  make (1, 1, 0, 1);
  MNM_Dta_Multiclass *d = new MNM_Dta_Multiclass (".");
  for (int i = 1; i <= 6; ++i)
    {
      auto *l = new L2 (i);
      d->m_link_factory->m_link_map[i] = l;
      d->m_queue_veh_map[i] = new std::deque<TInt> (); d->m_queue_veh_map_car[i] = new std::deque<TInt> (); d->m_queue_veh_map_truck[i] = new std::deque<TInt> ();
      if (i % 2) for (int k = 0; k < 3; ++k) l->m_finished_array.push_back (new MNM_Veh_Multiclass (10 * i + k, k % 2, 0));
    }
  d->record_queue_vehicles ();
  for (int i = 1; i <= 6; ++i)
    REQ (d->m_queue_veh_map_car[i]->back () == (i % 2 ? 2 : 0) && d->m_queue_veh_map_truck[i]->back () == (i % 2 ? 1 : 0), "link %d noted with %d cars and %d trucks", i, (int) d->m_queue_veh_map_car[i]->back (), (int) d->m_queue_veh_map_truck[i]->back ());
  return 0;
}
'''),
]
