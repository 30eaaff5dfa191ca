"""C04: species classes and stoichiometric matrices."""
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.checks.c02 import atoms
from pbt.core import Test, check

RULE = ("non-trivial: at least two reactions and at least one species that occurs in two of them "
        "or on both sides of one")


def t_classes(case, ctx):
    net = ref.Net(case)
    m = ref.bare(case)
    keys = [k for i in range(len(net.rxns)) for k in set(net.lhs[i]) | set(net.rhs[i])
            if not k.startswith('*')]
    ctx.nontrivial(len(net.rxns) > 1 and (len(set(keys)) < len(keys) or any(
        not k.startswith('*') and k in net.rhs[i] for i in range(len(net.rxns)) for k in net.lhs[i])))
    for attr, want in (('gas_names', net.gas), ('liquid_names', net.liq), ('adsorbate_names', net.ads),
                       ('transition_state_names', net.ts), ('site_names', net.sites)):
        got = list(getattr(m, attr))
        check(got == want, '%s is %r, expected %r', attr, got, want)
        if want:
            ctx.label('with ' + attr)
    # The parsed reactions are the written ones.
    parsed = [[[(f.stoichiometry(), f.species(), f.nsite(), f.site()) for f in s] for s in r]
              for r in m.elementary_rxns_list]
    want = [[[tuple(sp) for sp in s] for s in r if s] for r in net.rxns]
    check(parsed == want, 'parsed reactions %r', parsed)
    for again in (False, True):
        smat, gmat = m.parser.get_stoichiometry_matrices()
        surf, fluid = net.sites + net.ads, net.gas + net.liq
        check(smat.shape == (len(net.rxns), len(surf)), 'site matrix has shape %r', smat.shape)
        check(gmat.shape == (len(net.rxns), len(fluid)), 'gas matrix has shape %r', gmat.shape)
        for i in range(len(net.rxns)):
            for mat, names in ((smat, surf), (gmat, fluid)):
                for j, nme in enumerate(names):
                    w = -net.net[i].get(nme, 0)
                    if net.lhs[i].get(nme) and net.rhs[i].get(nme):
                        ctx.label('species on both sides')
                    check(mat[i, j] == w, 'entry of %s in %s is %r, expected %r',
                          nme, net.exprs[i], mat[i, j], w)
            # elements and sites of the row balance
            el, si = {}, {}
            for mat, names in ((smat, surf), (gmat, fluid)):
                for j, nme in enumerate(names):
                    name, site = nme.split('_')
                    for e, k in atoms(name).items():
                        el[e] = el.get(e, 0) + k*mat[i, j]
                    if mat is smat:
                        k = int(''.join(c for c in site if c.isdigit()) or 1)
                        site = site.lstrip('0123456789')
                        si[site] = si.get(site, 0) + k*mat[i, j]
            check(not any(el.values()), 'elements of row %d do not balance: %r', i, el)
            check(not any(si.values()), 'sites of row %d do not balance: %r', i, si)


@st.composite
def cases(draw):
    rxns = draw(gen.networks(max_rxns=6, multisite=True, max_mult=3, max_sites=3))
    return draw(gen.conditions(rxns))


TESTS = [Test('classes', cases(), t_classes, 5000, 60000)]
