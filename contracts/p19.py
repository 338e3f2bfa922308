"""P19 tables"""
from dv.api import contract
COM = 'xboa/common/_common.py:'

def comm(V): return V.mod('xboa.common')

@contract('P19', 'foreign-codes', [COM + 'icool_pid_to_pdg', COM + 'mars_pid_to_pdg', COM + 'pdg_pid_to_muon1', COM + 'pdg_pid_to_icool', COM + 'pdg_pid_to_mars', COM + 'muon1_pid_to_pdg'])
def codes(V):
    c = comm(V)
    mass = c.pdg_pid_to_mass
    for name, fwd, back in (('icool', c.icool_pid_to_pdg, c.pdg_pid_to_icool), ('mars', c.mars_pid_to_pdg, c.pdg_pid_to_mars), ('muon1', c.muon1_pid_to_pdg, c.pdg_pid_to_muon1)):
        V.check(name + '.non-empty', len(fwd) > 0)
        for k, v in fwd.items():
            V.check(name + '.mass-known', abs(v) in mass, '%s code %s -> %s' % (name, k, v))
            V.check(name + '.invertible', v in back, '%s' % v)
            V.check(name + '.name-known', abs(v) in c.pdg_pid_to_name and abs(v) in c.pdg_pid_to_charge, str(v))
        for k, v in back.items():
            V.check(name + '.round-trip', v in fwd and fwd[v] == k, '%s -> %s' % (k, v))
        standard = set(fwd.values())
        V.check(name + '.same-domain', set(back) == standard)
    # one meaning per code
    for k, v in c.icool_pid_to_pdg.items():
        if k != 0:
            V.check('icool.distinct', c.pdg_pid_to_icool[v] == k, str(k))
            V.check('icool.conjugate', c.icool_pid_to_pdg[-k] == -v, str(k))
    for k, v in c.mars_pid_to_pdg.items():
        if v != 0: V.check('mars.distinct', c.pdg_pid_to_mars[v] == k, str(k))

ICOOL = {1: -11, 2: -13, 3: 211, 4: 321, 5: 2212}
MASS = {11: 0.51099895, 12: 0., 13: 105.6583755, 14: 0., 22: 0., 111: 134.9768, 211: 139.57039, 321: 493.677, 2112: 939.565420, 2212: 938.272088, 130: 497.611, 310: 497.611, 311: 497.611, 3122: 1115.683, 1000010020: 1875.61294, 1000010030: 2808.92113, 1000020030: 2808.39161, 1000020040: 3727.37940}
CHARGE = {11: -1, 12: 0, 13: -1, 14: 0, 22: 0, 111: 0, 211: 1, 321: 1, 2112: 0, 2212: 1, 130: 0, 310: 0, 311: 0, 3122: 0, 1000010020: 1, 1000010030: 1, 1000020030: 2, 1000020040: 2}
SELF = (0, 22, 111, 130, 310)

@contract('P19', 'masses', [COM + 'pdg_pid_to_mass'])
def masses(V):
    m = comm(V).pdg_pid_to_mass
    for k, v in MASS.items():
        V.check('known', k in m, str(k))
        V.check('value', abs(m[k] - v) <= 5e-4 * v + 1e-9, 'mass of %s is %s' % (k, m[k]))
    for k in m:
        V.check('non-negative', m[k] >= 0)
        if -k in m: V.check('antiparticle', m[k] == m[-k], str(k))

@contract('P19', 'charges', [COM + 'pdg_pid_to_charge', COM + 'pdg_pid_to_name'])
def charges(V):
    c = comm(V)
    q = c.pdg_pid_to_charge
    for k, v in CHARGE.items():
        V.check('value', k in q and q[k] == v, 'charge of %s is %s' % (k, q.get(k)))
    for k in q:
        if k != 0 and -k in q: V.check('antiparticle', q[-k] == -q[k], str(k))
        V.check('mass-known', abs(k) in c.pdg_pid_to_mass, str(k))
    names = c.pdg_pid_to_name
    for k in names:
        V.check('name-mass', abs(k) in c.pdg_pid_to_mass, str(k))
        V.check('name-charge', k in q, str(k))
        n = names[k]
        if n[-1:] in '+-': V.check('name-sign', q[k] == {'+': 1, '-': -1}[n[-1]], n)
    V.check('names-distinct', len(set(names.values())) == len(names))
    for k, v in CHARGE.items():
        if v != 0 and k < 10**9: V.check('antiparticle-present', -k in q, str(k))

DIM = {'length': {'mum': -3, 'mm': 0, 'cm': 1, 'm': 3, 'km': 6}, 'time': {'ns': 0, 'mus': 3, 'ms': 6, 's': 9},
       'energy': {'eV': -6, 'keV': -3, 'MeV': 0, 'GeV': 3, 'TeV': 6}, 'momentum': {'eV/c': -6, 'keV/c': -3, 'MeV/c': 0, 'GeV/c': 3, 'TeV/c': 6},
       'mass': {'eV/c2': -6, 'keV/c2': -3, 'MeV/c2': 0, 'GeV/c2': 3, 'TeV/c2': 6}, 'field': {'Gauss': -7, 'mT': -6, 'T': -3, 'kT': 0},
       'voltage': {'V': -6, 'kV': -3, 'MV': 0, 'GV': 3}, 'frequency': {'kHz': -6, 'MHz': -3, 'GHz': 0}, 'gradient': {'GV/m': 0, 'GV/mm': 3}}

@contract('P19', 'units', [COM + 'units', COM + 'constants'])
def units(V):
    c = comm(V); u = c.units
    for d, t in DIM.items():
        for k, e in t.items():
            V.check(d, k in u and abs(u[k] - 10. ** e) <= 1e-12 * 10. ** e, '%s = %s' % (k, u.get(k)))
    for a, b in (('kW', 'MW'), ('MW', 'GW')): V.check('power', abs(u[b] / u[a] - 1000.) < 1e-6)
    V.check('watt', abs(u['kW'] - 6241509.) < 10.)
    V.check('charge', u['echarge'] == 1. and abs(u['Coulomb'] / 6.24150974e18 - 1.) < 1e-6)
    for a, b, c_ in (('degrees', 'deg', 'degree'), ('radians', 'rad', 'radian')): V.check('angle-alias', u[a] == u[b] == u[c_])
    V.check('angle', u['radian'] == 1. and abs(u['degree'] * 180. - 3.14159265359) < 1e-7)
    V.check('dimensionless', u[''] == 1.)
    V.check('c-light', c.constants['c_light'] == 299.792458)
    V.check('pi', abs(c.constants['pi'] - 3.14159265359) < 1e-7)
