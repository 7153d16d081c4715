PRE = r'''
#include "dlink.h"
#include "dnode.h"
#include "vehicle.h"
#include "ults.h"
#include <cstdio>
#include <map>
#include <vector>
#include <algorithm>
#define REQ(c, ...) do { if (!(c)) { printf (__VA_ARGS__); printf ("\n"); return 1; } } while (0)
struct SLink : public MNM_Dlink
{
  double s;
  SLink (int id, double s_) : MNM_Dlink (TInt (id), TInt (1), TFlt (100), TFlt (10)), s (s_) {}
  TFlt get_link_supply () override { return TFlt (s); }
};
'''
SEEDS = [
 dict(id='S01', property='C03', edits=[('src/dlink.cpp', 'm_veh_queue.push_front (_veh);', ('m_veh_queue.push_back (_veh);', 0))],
  needs='a link-queue link whose sending capacity drops below the vehicles already in its exit queue while others wait in the body (congestion after free flow)',
  what='vehicles taken back from the exit queue go behind the vehicles in the body: they are overtaken',
  demo=PRE + r'''
int main ()
{
  MNM_Dlink_Lq l (1, 0.1, 0.5, 1, 300, 10, 5, 1);
  std::vector<MNM_Veh *> v;
  for (int i = 0; i < 12; ++i) { v.push_back (new MNM_Veh (TInt (i), TInt (0))); v[i]->set_next_link (&l); }
  for (int i = 0; i < 4; ++i) l.m_finished_array.push_back (v[i]);
  for (int i = 4; i < 6; ++i) l.m_veh_queue.push_back (v[i]);
  l.m_volume = 1;   // the model computes a small sending flow
  l.evolve (0);
  std::vector<MNM_Veh *> line (l.m_finished_array.begin (), l.m_finished_array.end ());
  line.insert (line.end (), l.m_veh_queue.begin (), l.m_veh_queue.end ());
  REQ (line.size () == 6, "lost vehicles");
  for (int i = 0; i < 6; ++i) REQ (line[i] == v[i], "vehicle order changed at position %d", i);
  return 0;
}
'''),
 dict(id='S02', property='C10', edits=[('src/dlink.cpp', """          auto _lower_i = std::
            lower_bound (m_recorder.begin (), _lower_j,
                         m_recorder[j - 1].second,""", """          auto _lower_i = std::
            lower_bound (m_recorder.begin (), _lower_j,
                         m_recorder[j].second,""")],
  needs='a count strictly between two recorded counts, queried with rounding down',
  what='the lookup runs to the record that first exceeds the count, so the time returned is that of a later record (one past the intended plateau)',
  demo=PRE + r'''
int main ()
{
  MNM_Cumulative_Curve c;
  double t[] = { 0, 1, 5, 9 }, q[] = { 0, 4, 0, 6 };
  for (int i = 0; i < 4; ++i) c.add_increment (std::pair<TFlt, TFlt> (TFlt (t[i]), TFlt (q[i])));
  double r = c.get_time (TFlt (7), false);
  REQ (r == 1, "time at count 7 rounded down is %g, expected 1", r);
  return 0;
}
'''),

 dict(id='S03', property='C04', edits=[
   ('src/dnode.cpp', """                      _out_link->m_incoming_array.push_back (_veh);
                      _veh->set_current_link (_out_link);""", """                      _out_link->m_incoming_array.push_back (_veh);
                      if (_out_link->m_link_type != MNM_TYPE_LTM)
                        _veh->set_current_link (_out_link);""")],
  needs='a junction whose outgoing link uses the link transmission model',
  what='vehicles entering such a link stay registered on the link they left',
  demo=PRE + r"""
int main ()
{
  SLink a (1, 10), b (2, 10);
  b.m_link_type = MNM_TYPE_LTM;
  MNM_Dnode_FWJ n (5, 1);
  n.add_in_link (&a); n.add_out_link (&b);
  n.prepare_loading ();
  std::vector<MNM_Veh *> v;
  for (int i = 0; i < 3; ++i) { auto x = new MNM_Veh (TInt (i), TInt (0)); x->set_next_link (&b); x->set_current_link (&a); a.m_finished_array.push_back (x); v.push_back (x); }
  n.evolve (0);
  REQ (b.m_incoming_array.size () == 3, "moved %zu", b.m_incoming_array.size ());
  for (auto x : v) REQ (x->get_current_link () == &b, "vehicle %d not registered on the link it entered", int (x->m_veh_ID));
  return 0;
}
"""),
 dict(id='S04', property='C01', edits=[('src/dlink.cpp', """          _veh = m_finished_array.back ();
          m_veh_queue.push_front (_veh);
          m_finished_array.pop_back ();""", """          _veh = m_finished_array.back ();
          if (_veh->has_next_link ())
            m_veh_queue.push_front (_veh);
          m_finished_array.pop_back ();""")],
  needs='a link-queue link whose sending flow falls below its exit queue while that queue holds a vehicle with no further link',
  what='that vehicle is dropped from the network',
  demo=PRE + r"""
int main ()
{
  MNM_Dlink_Lq l (1, 0.1, 0.5, 1, 300, 10, 5, 1);
  for (int i = 0; i < 6; ++i) { auto x = new MNM_Veh (TInt (i), TInt (0)); x->set_next_link (i == 5 ? nullptr : &l); l.m_finished_array.push_back (x); }
  l.m_volume = 1;
  l.evolve (0);
  REQ (l.m_finished_array.size () + l.m_veh_queue.size () == 6, "%zu of 6 vehicles left", l.m_finished_array.size () + l.m_veh_queue.size ());
  return 0;
}
"""),
]
