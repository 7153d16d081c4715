PRE = r'''
#include "multiclass.h"
#include "ults.h"
#include <cstdio>
#include <map>
#include <vector>
#include <algorithm>
#define REQ(c, ...) do { if (!(c)) { printf (__VA_ARGS__); printf ("\n"); return 1; } } while (0)
typedef MNM_Veh_Multiclass MV;
struct SLink : public MNM_Dlink_Pq_Multiclass
{
  double s;
  SLink (int id, double s_) : MNM_Dlink_Pq_Multiclass (TInt (id), 1, 100, 99, 99, 99, 99, 10, 10, 5, 1, 1), s (s_) { }
  TFlt get_link_supply () override { return TFlt (s); }
};
'''
SEEDS = [
 dict(id='S05', property='C25', edits=[('src/multiclass.cpp', """                              _out_link->m_incoming_array.push_back (_veh);
                              _veh->set_current_link (_out_link);
                              // accumulated miles for non-Pq links
                              _veh->update_miles_traveled (_in_link);
""", """                              _out_link->m_incoming_array.push_front (_veh);
                              _veh->set_current_link (_out_link);
                              // accumulated miles for non-Pq links
                              _veh->update_miles_traveled (_in_link);
""")],
  needs='the last vehicle moved through a two-class junction being worth more than the flow left to move (a truck, or a fractional supply)',
  what='that vehicle is put in front of those already waiting to enter the link',
  demo=PRE + r'''
int main ()
{
  SLink a (1, 10), b (2, 1.5);
  MNM_Dnode_FWJ_Multiclass J (1, 1, 2);
  J.add_in_link (&a); J.add_out_link (&b); J.prepare_loading ();
  MV *v[3];
  for (int i = 0; i < 3; ++i) { v[i] = new MV (i, i != 0, 0); v[i]->set_current_link (&a); v[i]->set_next_link (&b); a.m_finished_array.push_back (v[i]); }
  MV *w = new MV (9, 0, 0); w->set_next_link (&b); w->set_current_link (&b); b.m_incoming_array.push_back (w);
  J.evolve (0);
  REQ (b.m_incoming_array.size () > 1, "nothing moved");
  REQ (b.m_incoming_array.front () == w, "a vehicle moved in front of the one already waiting");
  return 0;
}
'''),
 dict(id='S06', property='C02', edits=[('src/multiclass.cpp', """  _veh_to_move_truck
    = std::min (_veh_to_move_truck, TInt (m_veh_queue_truck.size ()));""", """  _veh_to_move_truck
    = std::min (_veh_to_move_truck, TInt (m_veh_queue_truck.size () + _count_truck));""")],
  needs='a two-class link-queue link with trucks already in the exit queue and a high truck share of the sending flow',
  what='more trucks are taken out of the body than are there',
  demo=PRE + r'''
int main ()
{
  for (int rep = 0; rep < 50; ++rep)
    {
      MNM_Ults::set_random_state (rep);
      MNM_Dlink_Lq_Multiclass l (1, 2, 60, 0.15, 0.1, 0.6, 0.4, 15, 12, 5, 3, 1);
      std::vector<MNM_Veh *> all;
      for (int i = 0; i < 20; ++i) { MV *v = new MV (i, 1, 0); v->set_next_link (&l); all.push_back (v); if (i < 3) l.m_finished_array.push_back (v); else if (i < 4) l.m_veh_queue_truck.push_back (v); }
      size_t n = l.m_finished_array.size () + l.m_veh_queue_truck.size () + l.m_veh_queue_car.size ();
      l.m_veh_queue_truck.shrink_to_fit ();
      l.evolve (0);
      size_t m = l.m_finished_array.size () + l.m_veh_queue_truck.size () + l.m_veh_queue_car.size ();
      REQ (m == n, "vehicles on the link: %zu -> %zu", n, m);
    }
  return 0;
}
'''),
 dict(id='S07', property='C26', edits=[('src/multiclass.cpp', """      m_veh_out_buffer_truck.push_back (_v);
      m_veh_queue_truck.pop_front ();""", """      m_veh_out_buffer_truck.push_front (_v);
      m_veh_queue_truck.pop_front ();""")],
  needs='two or more trucks leaving a two-class link-queue link in the same step',
  what='trucks that leave in the same step leave in reverse order',
  demo=PRE + r'''
int main ()
{
  MNM_Dlink_Lq_Multiclass l (1, 2, 600, 0.15, 0.1, 0.6, 0.4, 15, 12, 5, 1.5, 1);
  for (int i = 0; i < 30; ++i) { MV *v = new MV (i, 1, 0); v->set_next_link (&l); l.m_veh_queue_truck.push_back (v); }
  for (int t = 0; t < 10; ++t)
    {
      l.evolve (t);
      int last = -1;
      for (auto v : l.m_finished_array) { REQ (int (v->m_veh_ID) > last, "truck %d leaves after truck %d", int (v->m_veh_ID), last); last = v->m_veh_ID; }
    }
  return 0;
}
'''),
]
