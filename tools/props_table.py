add('C01', 'Links neither create nor lose vehicles (single-class link models)',
    'In one admission of waiting arrivals or one simulation step of a single-class link, of any of the four traffic-flow models (cell '
    'transmission, point queue, link queue, link transmission), every vehicle that was on the link, its entry queue or its exit queue '
    'is afterwards there exactly once more: none is lost, duplicated or invented. Unless it raises an error, admission takes in all '
    'waiting arrivals (the point queue: as many as its supply allows).',
    ['inputs', 'histories', 'configurations'], 'every queue content, every cell count, every rounding outcome, every step of every run',
    'they cannot cover every queue content, rounding outcome and link model.',
    ['src/dlink.cpp', 'src/dlink.h'],
    [('link step', 'src/dlink.cpp MNM_Dlink_{Ctm,Pq,Lq,Ltm}::evolve'), ('admission', 'src/dlink.cpp *::clear_incoming_array'),
     ('queue transfer', 'src/dlink.cpp MNM_Dlink::move_veh_queue')],
    [('m_finished_array / m_incoming_array / m_veh_queue / m_cell_array', 'vehicles on the link')])

add('C03', 'Vehicles do not overtake each other on a link; point queues hold free-flow time',
    'On a single-class link of any of the four traffic-flow models, the line formed by exit queue, link body and entry queue keeps its '
    'order in every admission and every step: a vehicle never passes another one. On a point queue, in addition, a vehicle moves to the '
    'exit queue in exactly the first step at which it has been held for the free-flow number of intervals (at least one), never earlier or later.',
    ['inputs', 'histories', 'configurations'], 'every queue content and order, every number of cells, all steps',
    'they never compare vehicle order.',
    ['src/dlink.cpp'],
    [('link step', 'src/dlink.cpp MNM_Dlink_{Ctm,Pq,Lq,Ltm}::evolve'), ('admission', 'src/dlink.cpp *::clear_incoming_array')],
    [('m_veh_queue', 'vehicles (point queue: with intervals waited)')])

add('C04', 'Junctions move vehicles only onto their chosen link and lose none (single class)',
    'When a single-class junction moves vehicles, each vehicle of the incoming exit queues and outgoing entry queues is afterwards '
    'present exactly as often as before; a vehicle enters an outgoing link only if that is the next link it chose, is then registered as '
    'being on that link, and is appended behind those already waiting there.',
    ['inputs', 'histories', 'configurations'], 'every number of links, queue content, move plan and shuffle of the incoming links',
    'they only see aggregate counts for two networks.',
    ['src/dnode.cpp'], [('junction move', 'src/dnode.cpp MNM_Dnode_Inout::move_vehicle')])

add('C06', 'Origin and destination connectors lose no vehicle (single class)',
    'In one step of an origin connector every waiting vehicle either stays waiting or enters exactly the link it chose (and is registered on '
    'it), and none is lost or duplicated. In one step of a destination connector every vehicle in the exit queues of its incoming links '
    'leaves the network exactly once, and a vehicle that still has a next link never does (an error is raised).',
    ['inputs', 'histories', 'configurations'], 'every queue content, supply value and number of links',
    'they only see aggregate counts for two networks.',
    ['src/dnode.cpp'], [('origin connector', 'src/dnode.cpp MNM_DMOND::evolve'), ('destination connector', 'src/dnode.cpp MNM_DMDND::evolve')])

add('C10', 'Cumulative curves record and return exactly the flow added to them',
    'Adding an increment to a cumulative curve raises its final count by exactly that amount at that time and leaves earlier records '
    'untouched, so times stay increasing and counts non-decreasing. Reading the count at a time gives the count of the last record not '
    'after it; reading the time at a count gives -1 when the count was not passed, otherwise (rounding up) the first recorded time at '
    'which it was reached or (rounding down) the earliest recorded time of the largest count not exceeding it.',
    ['inputs', 'histories'], 'every sequence of increments at non-decreasing non-negative times (differences above the comparison tolerance) and every query',
    'they read curves only at a few grid times.',
    ['src/dlink.cpp'], [('record', 'src/dlink.cpp MNM_Cumulative_Curve::add_increment'), ('read', 'src/dlink.cpp MNM_Cumulative_Curve::get_result, get_time')])

add('C02', 'Two-class links neither create, lose nor mix up cars and trucks',
    'In one admission of waiting arrivals or one simulation step of a two-class link (cell transmission, link queue or point queue model), every '
    'car and truck that was on the link, its entry queue or its exit queue is afterwards there exactly once more. The separate car and truck '
    'queues inside a link only ever hold vehicles of their own class.',
    ['inputs', 'histories', 'configurations'], 'every mix of cars and trucks, every cell count, every rounding outcome, every step',
    'they cannot cover every mix of classes and every rounding outcome.',
    ['src/multiclass.cpp'],
    [('link step', 'src/multiclass.cpp MNM_Dlink_{Ctm,Lq,Pq}_Multiclass::evolve'), ('admission', 'src/multiclass.cpp *::clear_incoming_array')])

add('C26', 'On two-class links vehicles of one class do not overtake each other',
    'On a two-class link (cell transmission, link queue or point queue model) the line formed by exit queue, link body and entry queue keeps, '
    'for cars and for trucks separately, its order in every admission and every step. On a point queue a vehicle moves to the exit queue in '
    'exactly the first step at which it has been held for the free-flow number of intervals (at least one).',
    ['inputs', 'histories', 'configurations'], 'every mix and order of cars and trucks, every cell count, all steps',
    'they never compare vehicle order.',
    ['src/multiclass.cpp'],
    [('link step', 'src/multiclass.cpp MNM_Dlink_{Ctm,Lq,Pq}_Multiclass::evolve'), ('admission', 'src/multiclass.cpp *::clear_incoming_array'),
     ('queue transfer', 'src/multiclass.cpp MNM_Dlink_Multiclass::move_veh_queue_in_cell')])

add('C25', 'Two-class junctions and connectors lose no vehicle and respect its chosen link',
    'When a two-class junction or origin connector moves vehicles, each vehicle is afterwards present exactly as often as before over all the '
    'exit queues, entry queues and the waiting queue; a vehicle enters a link only if that is the next link it chose, is then registered on it, '
    'and is appended behind those already there. A two-class destination connector removes every vehicle waiting at the end of its '
    'incoming links exactly once, and raises an error for one that still has a next link.',
    ['inputs', 'histories', 'configurations'], 'every number of links, mix of classes, conversion factor, move plan and shuffle',
    'they only see aggregate counts for a few networks.',
    ['src/multiclass.cpp'], [('junction move', 'src/multiclass.cpp MNM_Dnode_Inout_Multiclass::move_vehicle'),
                             ('connectors', 'src/multiclass.cpp MNM_DMOND_Multiclass::evolve, MNM_DMDND_Multiclass::evolve')])

add('C07', 'The vehicle register counts every vehicle made, under way and finished',
    'After making a vehicle or removing a finished one, the number made equals the number under way plus the number finished, also for cars '
    'and trucks separately, and the totals are the sums over both classes. A new vehicle gets a number never used before, is filed under it and '
    'starts with the given time, type and class; removing one adds exactly its time under way to the total travel time and takes only it out of the register.',
    ['inputs', 'histories'], 'every register content, every sequence of makes and removals that raises no error',
    'they only read the counters at the end of a few runs.',
    ['src/factory.cpp', 'src/multiclass.cpp'],
    [('register', 'src/factory.cpp MNM_Veh_Factory::make_veh, remove_finished_veh'),
     ('two classes', 'src/multiclass.cpp MNM_Veh_Factory_Multiclass::make_veh_multiclass, remove_finished_veh')],
    [('m_veh_map / m_num_veh / m_enroute / m_finished', 'the register and its counters')])

add('C08', 'A destination receives each arrived vehicle once, stamps it and counts it',
    'When a destination receives vehicles, its arrival queue is emptied from the front, each vehicle is stamped with the current time and, where '
    'trips are closed, removed from the register once: the finished count rises and the under-way count falls by the number of vehicles, and total '
    'travel time rises by the sum of their times under way. A vehicle heading elsewhere is never received (an error is raised).',
    ['inputs', 'histories'], 'every arrival queue of distinct vehicles and every current time',
    'they only see totals at the end of a run.',
    ['src/od.cpp', 'src/routing.cpp'],
    [('arrival', 'src/od.cpp MNM_Destination::receive'), ('routing bookkeeping', 'src/routing.cpp *::remove_finished')],
    [('m_out_veh_queue', 'vehicles arrived and not yet received')])

add('C09', 'Origins release exactly the demand of each interval, rounded, per destination',
    'For every destination (and class) an origin releases demand times the flow scalar, rounded down or up, vehicles for an interval (exactly that '
    'many when it is whole). Each released vehicle is new, waits at the origin exactly once, carries its origin, a destination with demand, the '
    'release time and its assignment interval, and takes a fixed route when the adaptive share valid for its destination is 0 and an adaptive one when it is 1.',
    ['inputs', 'histories', 'configurations'], 'every demand table, scalar, set of per-destination shares, and rounding and random outcome',
    'they release demand for a few origins with no per-destination shares.',
    ['src/od.cpp', 'src/multiclass.cpp'],
    [('release', 'src/od.cpp MNM_Origin::release_one_interval'), ('two classes', 'src/multiclass.cpp MNM_Origin_Multiclass::release_one_interval, release_one_interval_biclass')],
    [('m_demand / m_adaptive_ratio', 'demand and adaptive share per destination'), ('m_in_veh_queue', 'vehicles waiting at the origin')])

add('C05', 'A junction sends no link more vehicles than it can receive, nor more than wait',
    'In one interval a junction sends into each out-link at most as many vehicles as the link can receive (its supply times the flow scalar), the '
    'planned numbers are not negative, and at a proportional junction never more are planned for a movement than are waiting for it. What is planned '
    'is moved: every out-link gains and every in-link loses exactly the planned vehicles. An origin connector exceeds the supply by less than one vehicle (rounding).',
    ['inputs', 'histories', 'configurations'], 'every number of in- and out-links, queues, supplies, flow scalar, rounding and random outcome',
    'their junctions are rarely supply-limited, and then for a few random draws.',
    ['src/dnode.cpp'],
    [('demand', 'src/dnode.cpp MNM_Dnode_Inout::prepare_supplyANDdemand'), ('flow', 'src/dnode.cpp MNM_Dnode_FWJ::compute_flow'),
     ('rounding', 'src/dnode.cpp MNM_Dnode_Inout::round_flow_to_vehicle'), ('move', 'src/dnode.cpp MNM_Dnode_Inout::move_vehicle'), ('origin', 'src/dnode.cpp MNM_DMOND::evolve')],
    [('m_veh_tomove', 'planned vehicles per in-link and out-link'), ('m_supply / m_demand', 'what links can receive / what waits')])

add('C11', 'Cumulative curves count exactly the vehicles that entered and left each link',
    'When a junction, an origin connector or a destination connector moves vehicles in an interval, the entry curve of every out-link grows by the '
    'vehicles that entered it and the exit curve of every in-link by the vehicles that left it, both divided by the flow scalar and recorded for the end of the '
    'interval. Nothing is recorded for links no vehicle entered or left.',
    ['inputs', 'histories', 'configurations'], 'every number of links, queues, supplies, flow scalar and random order of the in-links',
    'they never compare curves with queue contents.',
    ['src/dnode.cpp'],
    [('junction', 'src/dnode.cpp MNM_Dnode_Inout::record_cumulative_curve, move_vehicle, evolve'), ('connectors', 'src/dnode.cpp MNM_DMOND::evolve, MNM_DMDND::evolve')],
    [('m_N_in / m_N_out', 'cumulative entry / exit curve of a link'), ('m_finished_array / m_incoming_array', 'vehicles about to leave / that just entered')])

add('C12', 'Link flows and travel times are read off the curves, never below free flow',
    'The inflow (outflow) of a link over a time window is the difference of its entry (exit) counts at both ends, for the class asked for. The '
    'travel time of a link for an entry time is the time until its exit curve reaches the count at entry, no earlier reading than the link’s own '
    'free-flow intervals ever being returned, and entry times after the last one whose vehicles left are read at that one. Averages of '
    'readings are not below free flow either, and the curves are not changed by reading.',
    ['inputs', 'histories', 'configurations'], 'every pair of curves, every entry time, window, end of loading and class',
    'they read a few times off two loadings.',
    ['src/dta_gradient_utls.cpp', 'src/multiclass.cpp'],
    [('flows', 'src/dta_gradient_utls.cpp get_link_inflow, get_link_outflow; src/multiclass.cpp *_car, *_truck'),
     ('travel time', 'src/dta_gradient_utls.cpp get_travel_time_from_cc, get_last_valid_time, get_travel_time, get_travel_time_robust; src/multiclass.cpp *_car, *_truck')],
    [('m_N_in / m_N_out (_car, _truck)', 'cumulative curves of a link'), ('m_last_valid_time', 'last entry time with a reading')])

add('C17', 'Route choice portions of every OD pair are normalised to add up to one',
    'Normalising divides the portion of each path of an origin-destination pair by the sum over the pair (equal shares when all are zero), so that '
    'they add up to one, refuses negative portions, and leaves other pairs alone. Over a whole path table every pair is normalised, and taking the '
    'portions of an interval from (or keeping them in) the buffers reaches every path.',
    ['inputs', 'configurations'], 'every path table and every portions, also all zero',
    'their path tables have one or two paths per pair.',
    ['src/path.cpp'],
    [('normalise', 'src/path.cpp MNM_Pathset::normalize_p, MNM::normalize_path_table_p'), ('buffers', 'src/path.cpp MNM::copy_buffer_to_p, MNM::copy_p_to_buffer')],
    [('m_p', 'portion of a path'), ('m_buffer', 'portions of a path per interval')])

add('C22', 'Path travel times, costs and lengths are the sums over the links in order',
    'The length, free-flow time, current travel time and cost of a path are the sums over its links. Its time-dependent travel time (single class, '
    'car or truck, from curves or from a table) is obtained by walking the links in order, each being entered in the interval in which the previous '
    'one was left and taking its travel time for that entry, rounded up to at least one whole interval; its cost adds each link’s cost at that entry.',
    ['inputs', 'configurations'], 'every path, departure time, set of link travel times and end of loading',
    'they never compare a path value with its links.',
    ['src/path.cpp', 'src/dta_gradient_utls.cpp', 'src/multiclass.cpp', 'src/ults.cpp'],
    [('static sums', 'src/path.cpp MNM_Path::get_path_tt, get_path_fftt, get_path_length, MNM::get_path_tt_snapshot'),
     ('walks', 'src/dta_gradient_utls.cpp get_path_travel_time, get_path_travel_cost; src/multiclass.cpp get_path_travel_time_car, _truck; src/path.cpp MNM::get_path_tt')],
    [('m_link_vec', 'links of a path')])

add('C18', 'A fixed-route vehicle gets a path of its OD pair and follows it link by link',
    'A fixed-route vehicle waiting at its origin is given, once, one of the paths of its origin-destination pair, drawn with the portions in force for the '
    'current interval (in a two-class network: those of its own class), and its next link is the first link of that path. At the end of a link it takes the next link '
    'of its path in order, one per link travelled, keeps waiting while it has not moved, and reaches its destination with the path used up. Other vehicles, of '
    'the other class or adaptive, are not rerouted, and forgetting a finished vehicle leaves the routes of the others alone.',
    ['inputs', 'histories', 'configurations'], 'every path table, portions, set of vehicles and order in which they move',
    'their vehicles have one path each and nothing looks at the links taken.',
    ['src/routing.cpp'],
    [('choice', 'src/routing.cpp MNM_Routing_Fixed::register_veh, change_choice_portion; MNM_Routing_Biclass_Fixed::change_choice_portion'),
     ('routing step', 'src/routing.cpp MNM_Routing_Fixed::update_routing, MNM_Routing_Biclass_Fixed::update_routing'),
     ('routes', 'src/routing.cpp MNM_Routing_Fixed::remove_finished, add_veh_path; MNM_Routing_Biclass_Fixed::remove_finished'),
     ('hybrid routing', 'src/routing.cpp MNM_Routing_Hybrid, MNM_Routing_Biclass_Hybrid update_routing, remove_finished')],
    [('m_tracker', 'links each vehicle has still to take'), ('m_path_table', 'paths and portions per OD pair')])

add('C19', 'Each step releases, routes, moves and receives every part of the network once',
    'A loading runs the steps 0, 1, 2, ... until it is finished (given length reached, or no vehicle under way) and all demand intervals are released, and returns their number. '
    'Each step, at its time: every origin releases the demand of an assignment interval once, at its start, with the share of adaptive vehicles of the routing type; '
    'then vehicles are routed once, then every junction moves vehicles once, then the vehicles waiting at each link are noted (per class and in total without connectors), '
    'then every link takes in its new vehicles and moves its vehicles once, then every destination receives once; the record is updated and the vehicles under way noted.',
    ['inputs', 'histories', 'configurations'], 'every network, loading length, assignment frequency and routing type',
    'they run three networks with one or two settings.',
    ['src/dta.cpp', 'src/multiclass.cpp'],
    [('step', 'src/dta.cpp MNM_Dta::load_once'), ('loading', 'src/dta.cpp MNM_Dta::loading, finished_loading; src/multiclass.cpp MNM_Dta_Multiclass::loading_vehicle_tracking'),
     ('counts', 'src/dta.cpp MNM_Dta::record_queue_vehicles, record_enroute_vehicles; src/multiclass.cpp MNM_Dta_Multiclass::record_queue_vehicles')],
    [('m_current_loading_interval', 'steps done'), ('m_queue_veh_num, m_queue_veh_map', 'vehicles waiting per step'), ('m_enroute_veh_num', 'vehicles under way per step')])

add('C13', 'A link lets in and passes on no more than capacity and space allow (one class)',
    'The supply a single-class link offers per interval is never above its capacity, and not negative while it is not overfull; a full cell of the cell '
    'transmission model offers none and any cell at most its free space. Admission takes in no more than the capacity. In a step each cell passes on what '
    'its content, its capacity and the supply of the next cell before the step allow, rounded down or up; the exit queue of a link queue or link '
    'transmission link holds at most the capacity (rounded up). The counts these rest on are the vehicles really there (per cell after a step, per link after admission).',
    ['inputs', 'histories', 'configurations'], 'every content, capacity, storage, flow scalar and number of cells',
    'they never look at the supply of a link or the vehicles per cell.',
    ['src/dlink.cpp'],
    [('supply and demand', 'src/dlink.cpp Ctm_Cell::get_supply/get_demand, MNM_Dlink_{Pq,Lq,Ltm}::get_link_supply/get_demand'),
     ('step', 'src/dlink.cpp MNM_Dlink_Ctm::update_out_veh/evolve, MNM_Dlink_{Lq,Ltm}::evolve'), ('admission', 'src/dlink.cpp *::clear_incoming_array')],
    [('m_volume', 'vehicles on the link or in the cell'), ('m_out_veh', 'vehicles a cell passes on')])

add('C14', 'The travel time of a link at a given load follows its flow-density relation',
    'The travel time of a single-class link (any of the four models) for a number of vehicles on it, given or current, is the free-flow time up to the critical '
    'density, the length divided by the speed of the triangular flow-density relation between critical and jam density, and the fixed largest cost from jam '
    'density on. The load of a point queue, link queue or link transmission link is its vehicle count divided by the flow scalar. Reading changes nothing.',
    ['inputs', 'configurations'], 'every load, length, number of lanes, capacity, storage and speed',
    'they compare a few travel times of uncongested links.',
    ['src/dlink.cpp'],
    [('travel time', 'src/dlink.cpp MNM_Dlink_{Ctm,Pq,Lq,Ltm}::get_link_tt, get_link_tt_from_flow'), ('load', 'src/dlink.cpp MNM_Dlink_{Pq,Lq,Ltm}::get_link_flow')],
    [('m_volume', 'vehicles on the link')])

add('C90', 'Network, demand and configuration files are read into what they describe',
    'Reading the network, demand and configuration files gives links, nodes, demands and settings with the values written in the files, and malformed files are refused.',
    ['inputs'], 'every set of input files', 'they read two sets of files.',
    ['src/io.cpp'], [('readers', 'src/io.cpp MNM_IO')],
    claim=False, reason='the meaning of the code is in iostream formatting, string splitting and file contents, for which no contracts within reach of the VC generator exist (strings and streams are opaque to it)')

add('C91', 'The Python interface returns the values of the simulation it wraps',
    'The arrays handed to Python hold, entry by entry, the flows, costs and path values of the underlying simulation, in the order of the links and paths asked for.',
    ['inputs'], 'every network and query', 'they compare few entries.',
    ['macposts'], [('binding', 'macposts')],
    claim=False, reason='the code is pybind11/numpy template glue; its behaviour is that of the binding library, which is outside the C++ subset of the VC generator')

add('C92', 'Shortest paths are paths of least cost in the network',
    'The successor tables and path costs computed for a destination (static or time-dependent) are those of paths of least cost under the given link costs.',
    ['inputs', 'configurations'], 'every network and every link cost', 'their networks have at most three routes.',
    ['src/shortest_path.cpp'], [('searches', 'src/shortest_path.cpp MNM_Shortest_Path, MNM_TDSP_Tree')],
    claim=False, reason='needs an induction over paths of an arbitrary graph (a potential argument over templated graph iterators and priority queues); the VC generator has no model of macposts::Graph iterators, and invariants of that shape are beyond its candidate templates; the termination-free partial result (tables hold upper bounds) was not brought within reach')
