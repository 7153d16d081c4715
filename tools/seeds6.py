PRE = r'''
#include "dnode.h"
#include "dlink.h"
#include "multiclass.h"
#include "routing.h"
#include "ults.h"
#include <cstdio>
#include <cstdlib>
#include <vector>
#define REQ(c, ...) do { if (!(c)) { printf (__VA_ARGS__); printf ("\n"); return 1; } } while (0)
struct Net
{
  macposts::Graph g; MNM_OD_Factory od; MNM_Link_Factory lf; Path_Table *pt; MNM_Pathset *ps;
  MNM_Origin *o; MNM_Destination *d; MNM_Dnode *mid;
  Net ()
  {
    o = new MNM_Origin (1, 1, 1, 1); o->m_origin_node = new MNM_DMOND (100, 1); od.m_origin_map[1] = o;
    d = new MNM_Destination (1); d->m_dest_node = new MNM_DMDND (200, 1); od.m_destination_map[1] = d;
    mid = new MNM_Dnode_FWJ (300, 1);
    pt = new Path_Table (); (*pt)[100] = new std::unordered_map<TInt, MNM_Pathset *> (); ps = new MNM_Pathset (); (*(*pt)[100])[200] = ps;
    for (int i = 1; i <= 5; ++i) { auto *l = new MNM_Dlink_Pq (i, 10, 10, 1, 10, 10, 1, 1); l->m_to_node = i == 5 ? (MNM_Dnode *) d->m_dest_node : mid; lf.m_link_map[i] = l; }
  }
  void path (std::vector<int> l, int cols) { auto *p = new MNM_Path (); for (int x : l) p->m_link_vec.push_back (x); p->m_p = 0; p->allocate_buffer (cols); for (int i = 0; i < cols; ++i) p->m_buffer[i] = 0; ps->m_path_vec.push_back (p); }
};
'''
STEP = """                  if (_veh->get_current_link () == _veh->get_next_link ())
                    {
                      _next_link_ID = m_tracker.find (_veh)->second->front ();
                      if (_next_link_ID == -1)
                        {
                          throw std::runtime_error ("invalid state");
                        }
                      _next_link = m_link_factory->get_link (_next_link_ID);
                      _veh->set_next_link (_next_link);
                      m_tracker.find (_veh)->second->pop_front ();
                    }
                } // end if-else
            }     // end if veh->m_type
        }         // end for veh_it
    }             // end for link_it

  return 0;
}

// register each"""
NEW = STEP.replace("""                      _next_link_ID = m_tracker.find (_veh)->second->front ();
""", """                      const std::deque<TInt> &_route = _veh->m_path->m_link_vec;
                      auto _at = std::find (_route.begin (), _route.end (),
                                            _link->m_link_ID);
                      _next_link_ID = _at + 1 < _route.end () ? *(_at + 1)
                                                              : TInt (-1);
""")
SEEDS = [
 dict(id='S18', property='C18', edits=[('src/routing.cpp', STEP, NEW)],
  needs='a path that passes the same link twice (a loop), single-class fixed routing, a vehicle at its second pass',
  what='the next link is looked up by the link the vehicle is on, so after the second pass of a link it takes the link that followed the first pass',
  demo=PRE + r'''
int main ()
{
  MNM_Ults::set_random_state (1);
  Net n; n.path ({ 1, 2, 1, 3, 5 }, 1); n.ps->m_path_vec[0]->m_p = 1;
  MNM_Routing_Fixed rt (n.g, &n.od, nullptr, &n.lf);
  rt.init_routing (n.pt);
  MNM_Veh *v = new MNM_Veh (1, 0); v->m_type = MNM_TYPE_STATIC; v->set_origin (n.o); v->set_destination (n.d);
  n.o->m_origin_node->m_in_veh_queue.push_back (v);
  int want[] = { 1, 2, 1, 3, 5 };
  for (int i = 0; i < 5; ++i)
    {
      rt.update_routing (i);
      MNM_Dlink *l = v->get_next_link ();
      REQ (l && l->m_link_ID == want[i], "link %d of the route should be %d, is %d", i, want[i], l ? (int) l->m_link_ID : -1);
      n.o->m_origin_node->m_in_veh_queue.clear ();
      for (auto &x : n.lf.m_link_map) x.second->m_finished_array.clear ();
      v->set_current_link (l); l->m_finished_array.push_back (v);
    }
  rt.update_routing (6);
  REQ (v->get_next_link () == nullptr, "not at the end of the route");
  return 0;
}
'''),
 dict(id='S19', property='C18', edits=[('src/routing.cpp', """      if (_cur_ass_int < TInt (m_buffer_length / 2))
        { // first half""", """      if (timestamp % m_routing_freq == 0
          && _cur_ass_int < TInt (m_buffer_length / 2))
        { // first half""")],
  needs='two classes with different portions sharing a path table, and a car released in the middle of a routing interval, after the trucks took their turn',
  what='cars released in the middle of an interval draw their path with the portions of the trucks',
  demo=PRE + r'''
int main ()
{
  MNM_Ults::set_random_state (1);
  Net n; n.path ({ 1, 5 }, 4); n.path ({ 2, 5 }, 4);
  for (int k = 0; k < 2; ++k) { n.ps->m_path_vec[0]->m_buffer[k] = 1; n.ps->m_path_vec[1]->m_buffer[2 + k] = 1; }   // cars: first path, trucks: second
  MNM_Routing_Biclass_Fixed car (n.g, &n.od, nullptr, &n.lf, 10, 4, 0), truck (n.g, &n.od, nullptr, &n.lf, 10, 4, 1);
  car.init_routing (n.pt); truck.m_path_table = n.pt;
  for (int t = 0; t < 20; ++t)
    {
      MNM_Veh *v[2];
      n.o->m_origin_node->m_in_veh_queue.clear ();
      for (int c = 0; c < 2; ++c)
        {
          v[c] = new MNM_Veh_Multiclass (2 * t + c + 1, c, t); v[c]->m_type = MNM_TYPE_STATIC; v[c]->set_origin (n.o); v[c]->set_destination (n.d);
          n.o->m_origin_node->m_in_veh_queue.push_back (v[c]);
        }
      car.update_routing (t);
      truck.update_routing (t);
      for (int c = 0; c < 2; ++c)
        REQ (v[c]->m_path == n.ps->m_path_vec[c], "time %d: a %s got the path of the other class", t, c ? "truck" : "car");
    }
  truck.m_path_table = nullptr;
  _Exit (0);
}
'''),
]
