PRE = r'''
#include "dnode.h"
#include "dlink.h"
#include "vehicle.h"
#include "ults.h"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <vector>
#define REQ(c, ...) do { if (!(c)) { printf (__VA_ARGS__); printf ("\n"); return 1; } } while (0)
struct L : public MNM_Dlink
{
  double s;
  L (int id, double s_) : MNM_Dlink (TInt (id), TInt (1), TFlt (100), TFlt (10)), s (s_) { m_link_type = MNM_TYPE_CTM; install_cumulative_curve (); }
  TFlt get_link_supply () override { return TFlt (s); }
};
static double last (MNM_Cumulative_Curve *c) { return c->m_recorder.empty () ? 0. : double (c->m_recorder.back ().second); }
'''
SEEDS = [
 dict(id='S16', property='C05', edits=[('src/dnode.cpp', """      while (TFlt (_to_move) > (_out_link->get_link_supply () * m_flow_scalar))
""", """      TFlt _room = _out_link->get_link_supply () * m_flow_scalar;
      if (m_in_link_array.size () > 2)
        _room = TFlt (MNM_Ults::round (_room));
      while (TFlt (_to_move) > _room)
""")],
  needs='a junction of three or more in-links into a link whose receiving capacity is not a whole number of vehicles',
  what='a junction may send a vehicle that no longer fits into a link',
  demo=PRE + r'''
int main ()
{
  for (int k = 0; k < 200; ++k)
    {
      srand (k); MNM_Ults::set_random_state (k);
      L *a = new L (1, 50), *b = new L (2, 50), *d = new L (4, 50), *c = new L (3, 4.5);
      MNM_Dnode_FWJ J (1, 1);
      J.add_in_link (a); J.add_in_link (b); J.add_in_link (d); J.add_out_link (c);
      J.prepare_loading ();
      for (int i = 0; i < 6; ++i) { MNM_Veh *v = new MNM_Veh (i, 0); v->set_next_link (c); L *f = i % 3 == 0 ? a : i % 3 == 1 ? b : d; v->set_current_link (f); f->m_finished_array.push_back (v); }
      J.evolve (0);
      REQ (c->m_incoming_array.size () <= 4, "%zu vehicles entered a link with room for 4.5", c->m_incoming_array.size ());
    }
  return 0;
}
'''),
 dict(id='S17', property='C11', edits=[('src/dnode.cpp', """      _link = m_out_link_array[i];
      if ((_link->get_link_supply () * m_flow_scalar)
""", """      _link = m_out_link_array[i];
      if (_link->m_N_in != nullptr && m_out_volume.find (_link)->second > 0)
        {
          _link->m_N_in->add_increment (
            std::pair<TFlt, TFlt> (TFlt (timestamp + 1),
                                   TFlt (m_out_volume.find (_link)->second)
                                     / m_flow_scalar));
        }
      if ((_link->get_link_supply () * m_flow_scalar)
"""), ('src/dnode.cpp', """      _link = m_out_link_array[i];
      if (_link->m_N_in != nullptr && m_out_volume.find (_link)->second > 0)
        {
          _link->m_N_in->add_increment (
            std::pair<TFlt, TFlt> (TFlt (timestamp + 1),
                                   TFlt (m_out_volume.find (_link)->second)
                                     / m_flow_scalar));
        }
      _que_it = m_in_veh_queue.begin ();
""", """      _link = m_out_link_array[i];
      _que_it = m_in_veh_queue.begin ();
""")],
  needs='more vehicles waiting at an origin than its connector can take in the interval',
  what='the entry curve of the connector counts the vehicles that wanted to enter, and counts the ones held back again later',
  demo=PRE + r'''
int main ()
{
  L *c = new L (3, 2);
  MNM_DMOND O (1, 1);
  O.add_out_link (c);
  for (int i = 0; i < 5; ++i) { MNM_Veh *v = new MNM_Veh (i, 0); v->set_next_link (c); O.m_in_veh_queue.push_back (v); }
  for (int t = 0; t < 3; ++t) O.evolve (t);
  REQ (c->m_incoming_array.size () == 5 && last (c->m_N_in) == 5, "%zu vehicles entered, the curve counts %g", c->m_incoming_array.size (), last (c->m_N_in));
  return 0;
}
'''),
]
