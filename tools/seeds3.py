PRE = r'''
#include "multiclass.h"
#include "routing.h"
#include "ults.h"
#include <cstdio>
#include <vector>
#define REQ(c, ...) do { if (!(c)) { printf (__VA_ARGS__); printf ("\n"); return 1; } } while (0)
struct NoRoute : public MNM_Routing
{
  macposts::Graph g;
  NoRoute () : MNM_Routing (g, nullptr, nullptr, nullptr) {}
  int init_routing (Path_Table *) override { return 0; }
  int update_routing (TInt) override { return 0; }
  int remove_finished (MNM_Veh *v, bool) override { return 0; }
};
'''
SEEDS = [
 dict(id='S08', property='C07', edits=[('src/multiclass.cpp', """  else if (_veh_multiclass->m_class == 1)
    {
      m_finished_truck += 1;
      m_enroute_truck -= 1;
      m_total_time_truck += (veh->m_finish_time - veh->m_start_time);
    }
  MNM_Veh_Factory::remove_finished_veh (veh, del);
""", """  MNM_Veh_Factory::remove_finished_veh (veh, del);
  if (!del && _veh_multiclass->m_class == 1)
    {
      m_finished_truck += 1;
      m_enroute_truck -= 1;
      m_total_time_truck += (veh->m_finish_time - veh->m_start_time);
    }
""")],
  needs='finished trucks that are deleted when they arrive',
  what='deleted trucks stay counted as under way',
  demo=PRE + r'''
int main ()
{
  MNM_Veh_Factory_Multiclass f;
  MNM_Veh *a = f.make_veh_multiclass (3, MNM_TYPE_STATIC, 1), *b = f.make_veh_multiclass (4, MNM_TYPE_STATIC, 1), *c = f.make_veh_multiclass (4, MNM_TYPE_STATIC, 0);
  a->finish (10); b->finish (12);
  f.remove_finished_veh (a, false);
  f.remove_finished_veh (b, true);
  REQ (f.m_finished_truck == 2 && f.m_enroute_truck == 0 && f.m_enroute_car == 1 && f.m_total_time_truck == 15, "trucks finished %d under way %d", (int) f.m_finished_truck, (int) f.m_enroute_truck);
  return 0;
}
'''),
 dict(id='S09', property='C08', edits=[('src/od.cpp', """      _veh->finish (current_interval);
      // printf("Receive Vehicle ID: %d, origin node is %d, destination node is
      // %d\\n", _veh -> m_veh_ID(), _veh -> get_origin() -> m_origin_node ->
      // m_node_ID(), _veh -> get_destination() -> m_dest_node -> m_node_ID());
      m_dest_node->m_out_veh_queue.pop_front ();

      routing""", """      if (!del)
        _veh->finish (current_interval);
      m_dest_node->m_out_veh_queue.pop_front ();

      routing""")],
  needs='arrivals whose vehicle objects are deleted',
  what='the arrival time is not stamped before the trip is added to the total travel time',
  demo=PRE + r'''
int main ()
{
  MNM_Veh_Factory f; NoRoute rt; MNM_DMDND n (7, 1); MNM_Destination d (1); d.m_dest_node = &n;
  for (int del = 0; del < 2; ++del)
    {
      MNM_Veh *v = f.make_veh (5, MNM_TYPE_STATIC); v->set_destination (&d); n.m_out_veh_queue.push_back (v);
      double t0 = f.m_total_time;
      d.receive (30, &rt, &f, del);
      REQ (f.m_total_time - t0 == 25 && n.m_out_veh_queue.empty (), "travel time grew by %g", f.m_total_time - t0);
    }
  return 0;
}
'''),
 dict(id='S10', property='C09', edits=[('src/multiclass.cpp', """      if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
        adaptive_ratio_truck = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];""",
"""      if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
        adaptive_ratio_truck = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];""")],
  needs='a destination with own adaptive shares that differ between cars and trucks, released with separate class ratios',
  what='trucks are released with the cars share',
  demo=PRE + r'''
int main ()
{
  MNM_DMOND n (5, 1); MNM_Origin_Multiclass o (1, 1, 1, 15); o.m_origin_node = &n; n.m_origin = &o;
  MNM_Veh_Factory_Multiclass f; MNM_Destination_Multiclass d (1);
  TFlt dem[15], one[15], zero[15];
  for (int i = 0; i < 15; ++i) dem[i] = 3, one[i] = 1, zero[i] = 0;
  o.add_dest_demand_multiclass (&d, dem, dem);
  o.add_dest_adaptive_ratio_multiclass (&d, one, zero);
  o.release_one_interval_biclass (0, &f, 0, 0.5, 0.5);
  REQ (n.m_in_veh_queue.size () == 6, "released %d", (int) n.m_in_veh_queue.size ());
  for (auto v : n.m_in_veh_queue) REQ (v->m_type == (v->get_class () == 0 ? MNM_TYPE_ADAPTIVE : MNM_TYPE_STATIC), "class %d has the wrong kind of route", (int) v->get_class ());
  return 0;
}
'''),
 dict(id='S11', property='C09', edits=[('src/od.cpp', """      _veh_to_release = TInt (MNM_Ults::round (
        (_demand_it->second)[assign_interval] * m_flow_scalar));
""", """      _veh_to_release = TInt (MNM_Ults::round (
                          (_demand_it->second)[assign_interval]))
                        * int (m_flow_scalar);
""")],
  needs='demand that is not whole before scaling but is after it (or any fraction), with a flow scalar above 1',
  what='the rounding error is multiplied by the scalar: the count is not the scaled demand rounded',
  demo=PRE + r'''
int main ()
{
  MNM_DMOND n (5, 4); MNM_Origin o (1, 1, 4, 15); o.m_origin_node = &n; n.m_origin = &o;
  MNM_Veh_Factory f; MNM_Destination d (1);
  TFlt dem[1] = { 2.5 };
  o.add_dest_demand (&d, dem);
  o.release_one_interval (0, &f, 0, 0);
  REQ (n.m_in_veh_queue.size () == 10, "released %d vehicles, demand 10", (int) n.m_in_veh_queue.size ());
  return 0;
}
'''),
]
