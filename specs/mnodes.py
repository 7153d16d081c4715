"""Contracts of the two-class nodes (multiclass.cpp)."""
import z3
from .common import *
from . import nodes

ISA = ('MNM_Veh_Multiclass', 'MNM_Dlink_Multiclass', 'MNM_Dlink_Pq_Multiclass')


bus_route = z3.Function('bus_route', I, I)


def more_contracts():
    d = nodes.frame_contracts()
    for k in ('MNM_Veh_Multiclass', 'MNM_Veh'):
        d[k + '::get_bus_route_ID'] = lambda cc: bus_route(cc.this)
    return d


class MNodeMove(nodes.NodeMove):
    isa = ISA
    retry = True
    mbqi = False
    uf_div = True
    uf_mul = True

    def contracts(self):
        return more_contracts()


class MOrigin(nodes.OriginEvolve):
    isa = ISA
    retry = True
    mbqi = False
    uf_div = True
    uf_mul = True

    def contracts(self):
        return more_contracts()


class MDest(nodes.DestEvolve):
    isa = ISA
    retry = True
    mbqi = False
    uf_div = True
    uf_mul = True

    def contracts(self):
        return more_contracts()


def C25():
    f = 'multiclass.cpp'
    return [MNodeMove('two-class junction moves vehicles', 'MNM_Dnode_Inout_Multiclass::move_vehicle', f),
            MOrigin('two-class origin connector step', 'MNM_DMOND_Multiclass::evolve', f),
            MDest('two-class destination connector step', 'MNM_DMDND_Multiclass::evolve', f)]
