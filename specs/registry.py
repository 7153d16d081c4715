"""property id -> contracts, concrete harness, declared limits"""
from . import links, nodes, curves, mlinks, mnodes, veh, paths, flows, routing, sim, supply

TRUSTED = [
    'clang 18 front end (AST of the code that is compiled, same language level, NDEBUG and include path)',
    'vcgen: the verification-condition generator in /verif/vcgen (symbolic semantics of the C++ subset, STL container models)',
    'z3 4.x (python bindings and z3-new), cvc5 1.1.2',
]
ASSUME = [
    'double is treated as exact real arithmetic (no rounding, no NaN/infinity)',
    'signed int arithmetic is mathematical (no overflow); unsigned subtraction and signed/unsigned casts wrap at 2^64',
    'containers hold fewer than 2^31 elements',
    'std:: containers and algorithms behave as the C++ standard says (modelled, not verified)',
    'allocation succeeds; new returns an object distinct from all existing ones',
    'rand() and shuffles may return any value / any permutation',
    'partial correctness: termination is not verified; an exception ends the operation',
    'object-structure invariants stated as preconditions (ownership, distinct sub-objects) are established by the constructors unless a constructor contract is listed',
]

MC_FILES = ['ults.cpp', 'vehicle.cpp', 'dlink.cpp', 'dnode.cpp']
MC_ASSUME = ['in a two-class network every vehicle is a two-class vehicle and every link a two-class link (connectors: two-class point queue), so the '
             'downcasts in multiclass.cpp succeed']

VEH_FILES = ['ults.cpp', 'vehicle.cpp', 'factory.cpp', 'od.cpp', 'routing.cpp']

PROPS = {
    'C01': dict(contracts=links.C01, harness='links', files=['ults.cpp', 'vehicle.cpp']),
    'C03': dict(contracts=links.C03, harness='links', files=['ults.cpp', 'vehicle.cpp']),
    'C04': dict(contracts=nodes.C04, harness='nodes', files=['ults.cpp', 'vehicle.cpp', 'dlink.cpp']),
    'C06': dict(contracts=nodes.C06, harness='nodes', files=['ults.cpp', 'vehicle.cpp', 'dlink.cpp']),
    'C10': dict(contracts=curves.C10, harness='curves', files=['ults.cpp']),
    'C02': dict(contracts=mlinks.C02, harness='mlinks', files=MC_FILES, assume=MC_ASSUME),
    'C26': dict(contracts=mlinks.C26, harness='mlinks', files=MC_FILES, assume=MC_ASSUME),
    'C25': dict(contracts=mnodes.C25, harness='mnodes', files=MC_FILES, assume=MC_ASSUME + ['the bus route of a vehicle does not change during a node step']),
    'C07': dict(contracts=veh.C07, harness='od', files=VEH_FILES + ['multiclass.cpp'], assume=[
        'a vehicle is made or removed through the register only; class numbers are 0 (car) or 1 (truck)']),
    'C08': dict(contracts=veh.C08, harness='od', files=VEH_FILES, assume=[
        'the vehicles in the arrival queue are pairwise distinct (C04, C06, C25)']),
    'C09': dict(contracts=veh.C09, harness='od', files=VEH_FILES + ['multiclass.cpp'], assume=MC_ASSUME[:1] + [
        'demand is not negative, flow scalar and interval length are positive, the current interval is not negative',
        'the vehicle factory given to a two-class origin is the two-class one']),
    'C05': dict(contracts=flows.C05, harness='nodes', files=['ults.cpp', 'vehicle.cpp', 'dlink.cpp'], iters=1500, assume=[
        'the receiving capacity of a link does not change during a node step and is not negative',
        'the general road junction (GRJ) is covered for the receiving capacity only: its flows are not bounded by the demand of a pair (see DESIGN.md)']),
    'C11': dict(contracts=flows.C11, harness='nodes', files=['ults.cpp', 'vehicle.cpp', 'dlink.cpp'], iters=1500, assume=[
        'a link has both curves installed or neither, and no two links share a curve (install_cumulative_curve)',
        'a shuffle permutes: sums and counts over the sequence stay (property of std::random_shuffle)',
        'MNM_Dnode_GRJ::compute_flow writes flows only (frame assumed; checked for the proportional junction)']),
    'C12': dict(contracts=paths.C12, harness='paths', files=['ults.cpp', 'dlink.cpp', 'multiclass.cpp'], assume=[
        'free-flow intervals of a link are not negative; the counts and times read from a curve are those of the curve contracts (C10)',
        'a loading ends at a non-negative interval']),
    'C17': dict(contracts=paths.C17, harness='paths', files=['path.cpp'], assume=[
        'the paths of a pair are distinct objects, path sets of different pairs share no path, each path has its own buffer with room for the interval']),
    'C22': dict(contracts=paths.C22, harness='paths', files=['ults.cpp', 'factory.cpp', 'path.cpp', 'dlink.cpp'], assume=[
        'departure times are not negative; a travel time table has a row of at least one interval for every link of the path',
        'the travel time of a link for an entry time is that of the contracts of C12']),
    'C18': dict(contracts=routing.C18, harness='routing', files=['ults.cpp', 'vehicle.cpp', 'factory.cpp', 'od.cpp', 'path.cpp', 'multiclass.cpp'], assume=[
        'a vehicle waits in one place only: at most once in one origin queue or at the end of one link (C01, C02, C04, C06, C25)',
        'the path table holds the OD pair of every vehicle; the paths of a pair are distinct and have at least one link',
        'a fixed-route vehicle at the end of a link was registered at its origin; each route object belongs to one vehicle (kept by the contracts)']),
    'C19': dict(contracts=sim.C19, harness='sim', files=['ults.cpp', 'factory.cpp', 'od.cpp', 'routing.cpp', 'statistics.cpp', 'multiclass.cpp', 'vehicle.cpp'], assume=[
        'the parts of the network (origins, nodes, links, destinations) are distinct objects, each entered once in its register; no step changes the registers or the configuration',
        'releasing with interval -1 releases nothing (MNM_Origin::release_one_interval returns at once)',
        'each link has a link number and a queue record of its own (pre_loading)']),
    'C13': dict(contracts=supply.C13, harness='links', files=['ults.cpp', 'vehicle.cpp'], iters=8000, assume=[
        'cells and links have the capacities, storage and wave ratio the constructors compute (triangular diagram, storage of at least two capacities per cell)']),
    'C14': dict(contracts=supply.C14, harness='links', files=['ults.cpp', 'vehicle.cpp'], iters=8000, assume=[
        'length, lanes, capacity and free-flow speed are positive and the storage exceeds the critical density']),
}
