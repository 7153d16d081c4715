PRE = r'''
#include "multiclass.h"
#include "dta_gradient_utls.h"
#include "path.h"
#include "ults.h"
#include <cstdio>
#include <cmath>
#include <vector>
#define REQ(c, ...) do { if (!(c)) { printf (__VA_ARGS__); printf ("\n"); return 1; } } while (0)
typedef std::pair<TFlt, TFlt> P;
namespace G = MNM_DTA_GRADIENT;
'''
SEEDS = [
 dict(id='S12', property='C12', edits=[('src/dta_gradient_utls.cpp', """              return TFlt (_last_valid_time + i - 1);
""", """              return TFlt (_last_valid_time + i);
""")],
  needs='a link still holding vehicles at the end of the loading, asked for an entry time after the last one whose vehicles left',
  what='the last valid entry time is one interval late: vehicles that never left are taken as reference and free flow is reported for a jammed link',
  demo=PRE + r'''
int main ()
{
  MNM_Dlink_Pq l (1, 0.15, 0.5, 2, 300, 20, 5, 1);
  l.install_cumulative_curve ();
  l.m_N_in->add_increment (P (10, 5)); l.m_N_in->add_increment (P (12, 5)); l.m_N_in->add_increment (P (14, 5));
  l.m_N_out->add_increment (P (30, 5)); l.m_N_out->add_increment (P (45, 5));
  // last vehicles that left entered at 12 (left 45); 14 never left
  double v = G::get_last_valid_time (l.m_N_in, l.m_N_out, 60);
  double t = G::get_travel_time (&l, 20, 5, 60);
  REQ (v == 13 && t == 32, "valid until %g, travel time %g", v, t);
  return 0;
}
'''),
 dict(id='S13', property='C12', edits=[('src/multiclass.cpp', """  if (link->m_last_valid_time_truck < 0)
    {
      link->m_last_valid_time_truck
        = get_last_valid_time (link->m_N_in_truck, link->m_N_out_truck,
                               end_loading_timestamp);
    }
  IAssert (link->m_last_valid_time_truck >= 0);

  return get_travel_time_from_cc (start_time, link->m_N_in_truck,
                                  link->m_N_out_truck,
                                  link->m_last_valid_time_truck, fftt);
}
""", """  if (link->m_last_valid_time < 0)
    {
      link->m_last_valid_time
        = get_last_valid_time (link->m_N_in_truck, link->m_N_out_truck,
                               end_loading_timestamp);
    }
  IAssert (link->m_last_valid_time >= 0);

  return get_travel_time_from_cc (start_time, link->m_N_in_truck,
                                  link->m_N_out_truck,
                                  link->m_last_valid_time, fftt);
}
""")],
  needs='travel times of both classes read from one link, cars and trucks clearing at different times',
  what='cars and trucks share the cached valid range, so whichever class is asked second is read at the wrong entry time',
  demo=PRE + r'''
int main ()
{
  MNM_Dlink_Pq_Multiclass l (1, 2, 300, 0.15, 0.1, 0.5, 0.3, 20, 16, 5, 2, 1);
  l.install_cumulative_curve_multiclass ();
  l.m_N_in_car->add_increment (P (10, 5)); l.m_N_out_car->add_increment (P (20, 5));
  l.m_N_in_truck->add_increment (P (5, 5)); l.m_N_in_truck->add_increment (P (12, 5)); l.m_N_out_truck->add_increment (P (40, 5));
  double c = G::get_travel_time_car (&l, 10, 5, 60), t = G::get_travel_time_truck (&l, 30, 5, 60);
  REQ (c == 10 && t == 29, "car %g truck %g", c, t);
  return 0;
}
'''),
 dict(id='S14', property='C17', edits=[('src/path.cpp', """  for (MNM_Path *_path : m_path_vec)
    {
      _tot_p += _path->m_p - _min_p;
    }
  if (_tot_p == TFlt (0))
""", """  _min_p = m_path_vec.empty () ? TFlt (0) : m_path_vec.front ()->m_p;
  for (MNM_Path *_path : m_path_vec)
    {
      _tot_p += _path->m_p - _min_p;
    }
  if (_tot_p == TFlt (0))
""")],
  needs='a pair whose first path has exactly the average portion of the pair',
  what='unequal portions are replaced by equal shares although they are not all zero',
  demo=PRE + r'''
int main ()
{
  double w[3][3] = { { 2, 1, 3 }, { 1, 2, 5 }, { 0, 0, 0 } };
  for (auto &x : w)
    {
      MNM_Pathset s; double T = x[0] + x[1] + x[2];
      for (double v : x) { auto *p = new MNM_Path (); p->m_p = v; s.m_path_vec.push_back (p); }
      s.normalize_p ();
      for (int k = 0; k < 3; ++k)
        {
          double want = T == 0 ? 1. / 3 : x[k] / T;
          REQ (std::fabs (s.m_path_vec[k]->m_p - want) < 1e-12, "path %d: %g, expected %g", k, (double) s.m_path_vec[k]->m_p, want);
        }
    }
  return 0;
}
'''),
 dict(id='S15', property='C22', edits=[('src/dta_gradient_utls.cpp', """      _cost += link_cost_map[_link_ID][_cur_time < (int) end_loading_timestamp
                                         ? _cur_time
                                         : (int) end_loading_timestamp - 1];
      _cur_time += MNM_Ults::round_up_time (
        link_tt_map[_link_ID][_cur_time < (int) end_loading_timestamp
                                ? _cur_time
                                : (int) end_loading_timestamp - 1]);
    }
  return _cost;
""", """      _cur_time = std::min (_cur_time, (int) end_loading_timestamp - 1);
      _cost += link_cost_map[_link_ID][_cur_time];
      _cur_time += std::max (1, (int) round (link_tt_map[_link_ID][_cur_time]));
    }
  return _cost;
""")],
  needs='a link whose travel time has a fraction below one half, followed by a link whose cost changes from one interval to the next',
  what='the walk for the cost rounds to the nearest interval while the walk for the travel time rounds up',
  demo=PRE + r'''
int main ()
{
  MNM_Path p; p.m_link_vec.push_back (1); p.m_link_vec.push_back (2);
  std::unordered_map<TInt, TFlt *> tt, c;
  TFlt a[6] = { 1.3, 1.3, 1.3, 1.3, 1.3, 1.3 }, b[6] = { 1, 1, 1, 1, 1, 1 }, ca[6] = { 0, 0, 0, 0, 0, 0 }, cb[6] = { 10, 11, 12, 13, 14, 15 };
  tt[1] = a; tt[2] = b; c[1] = ca; c[2] = cb;
  double x = G::get_path_travel_cost (&p, 1, tt, c, 6);
  REQ (x == 13, "cost %g", x);
  REQ (G::get_path_travel_cost (&p, 9, tt, c, 6) == 15, "cost beyond the end");
  return 0;
}
'''),
]
