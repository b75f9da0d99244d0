"""Writes properties.jsonl and MANIFEST.json from one table (development aid,
run by hand; the checks do not use it)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'sa'))

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, note='', na=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over.split(), text=' '.join(text.split())),
                  why_tests_cant=' '.join(why.split()), files=files.split(), mech=mech, state=state or [],
                  observe=observe or [], note=' '.join(note.split()), na=na))


MO, PF, CZ = 'oneka/model.py', 'oneka/probabilityfield.py', 'oneka/capturezone.py'
ST, DE, ON = 'oneka/stochastic.py', 'oneka/deterministic.py', 'oneka/oneka.py'
UT, VI, AR = 'oneka/utilities.py', 'oneka/visualize.py', 'oneka/archive.py'

prop('C01', 'Discharge potential is the regional quadratic plus one logarithm per well',
     """At every point that is not a well, the discharge potential equals A dx^2 + B dy^2 + C dx dy + D dx + E dy + F
     about the model origin plus the sum over all wells of discharge times ln(r^2)/(4 pi), and the wells-only potential
     is that sum alone.  The six coefficients keep their order and value whether assigned as a flat or a column array;
     a model built without coefficients has no regional flow.""",
     'inputs', 'all points, coefficients, origins, aquifer parameters and well fields of any length',
     'The tests evaluate one model at a few points; the formula must hold for every model and point.',
     MO, [('superposition', 'oneka/model.py: compute_potential, compute_potential_wells_only'),
          ('coefficient storage', 'oneka/model.py: coef property')], observe=['compute_potential return value'])
prop('C02', 'Discharge vector is minus the exact gradient of the potential',
     """At every point that is not a well, the discharge vector returned for a model equals minus the gradient of the
     potential the same model reports there, for regional flow and wells alike.""",
     'inputs', 'all points, coefficients, origins and well fields of any length',
     'A numeric test compares a few points with a tolerance; a sign or factor error in one term can hide at symmetric points.',
     MO, [('gradient', 'oneka/model.py: compute_discharge'), ('potential', 'oneka/model.py: compute_potential')],
     note='The gradient is taken symbolically from the potential code itself, so both sides are read from the source.')
prop('C03', 'Head inverts the potential for unconfined and confined flow, dry is an error',
     """The head is sqrt(2 Phi/K) while the potential Phi is below K T^2/2 and Phi/(K T) + T/2 from there on, the two
     branches joining at head = T.  Exactly when the potential is not positive the aquifer error is raised instead of
     a head, and no other error is raised.""",
     'inputs', 'all potentials, conductivities K > 0 and thicknesses T > 0',
     'The tests use one confined model and a handful of heads; the branch boundary and the dry case are never reached.',
     MO, [('head from potential', 'oneka/model.py: compute_head')])
prop('C04', 'Seepage velocity is discharge over porosity times saturated thickness',
     """The velocity at a point is the discharge vector divided by porosity times the smaller of head and aquifer
     thickness, and the aquifer error is raised exactly when no positive head exists there.  The confined variant divides
     by porosity times full thickness and never needs a head.""",
     'inputs', 'all points, discharges, heads and aquifer parameters',
     'The tests evaluate the confined case only at a few points.',
     MO, [('velocity', 'oneka/model.py: compute_velocity, compute_velocity_confined')])
prop('C05', 'Observations become the documented weighted least-squares equations',
     """Each observation contributes one row [dx^2, dy^2, dx dy, dx, dy, 1]/s and one response (potential mean minus
     wells-only potential)/s, where mean and standard deviation s of the potential follow first-order second-moment
     theory from the observed level (confined when head >= thickness).  A range error is raised exactly when some
     observed level is at or below the aquifer base.""",
     'inputs', 'all observation lists of any length, models, well fields and fit origins',
     'The tests fit a single data set and compare the solution, which many wrong equations reproduce.',
     MO, [('observation equations', 'oneka/model.py: construct_fit')])
prop('C06', 'Fit returns the weighted least-squares estimate, covariance and fitted model',
     """Fitting returns the least-squares solution of the weighted equations of all observations about the given origin
     and the inverse normal matrix as covariance, and leaves the model with exactly that origin and those coefficients
     and its aquifer parameters unchanged.  A singular system or failed decomposition surfaces as an error, never as a result.""",
     'inputs fault_sequences', 'all weighted systems, origins and linear-algebra failures',
     'One well-conditioned system is tested; failure paths and the model state after the fit are not.',
     MO, [('solve', 'oneka/model.py: compute_fit'), ('install', 'oneka/model.py: fit_regional_flow')])
prop('C07', 'Grid keeps its spacing and lattice, covers every request and never shrinks',
     """A new field is empty if either origin coordinate is missing or NaN, else a clear 3 by 3 grid centred on the given
     origin; after any growth request the spacing is
     unchanged, the extent is a whole number of cells, the requested box lies strictly inside, old nodes remain nodes and
     a box already strictly inside changes nothing.  Non-positive spacings and inverted boxes raise the range error and leave the field as it was.""",
     'inputs histories', 'all fields reachable by construction and growth, and all requests',
     'The tests grow one field twice with round numbers.',
     PF, [('construction', 'oneka/probabilityfield.py: __init__'), ('growth', 'oneka/probabilityfield.py: expand')],
     state=[('grid', 'two arrays of nrows by ncols nodes at xmin + j deltax, ymin + i deltay', 'oneka/probabilityfield.py')])
prop('C08', 'Growing the grid keeps every accumulated value at its map location',
     """When a grid grows, every probability and every mark stays at the same map coordinates, nodes that are new start
     with zero probability and no mark, and the accumulated total weight is unchanged.""",
     'inputs histories', 'all fields with arbitrary contents and all growth requests',
     'The tests only look at the grid shape after growth, never at contents.',
     PF, [('copy into larger grids', 'oneka/probabilityfield.py: expand')])
prop('C09', 'A node is marked exactly when it lies within umbra of the path',
     """After a path of any length is rasterised, a grid node is marked exactly when it was marked before or its distance
     to some segment of the path is less than the umbra, and the grid has first been grown to contain every such node.
     Rasterising changes no probability and no weight.""",
     'inputs', 'all paths of any number of vertices, umbras, spacings and grid contents',
     'No test exercises rasterisation.',
     PF, [('growth by umbra', 'oneka/probabilityfield.py: rasterize'), ('node sweep', 'oneka/probabilityfield.py: insert')],
     note='Growth is used through its contract (C07, C08), the distance through C10.')
prop('C10', 'Point-to-segment distance is exact, end points and zero length included',
     """The squared distance between a point and a segment is the squared distance to the nearest point of the closed
     segment: perpendicular when the foot lies inside, to the nearer end otherwise.  A zero-length segment is treated as its point and no error is raised.""",
     'inputs', 'all points and segments',
     'One point and one segment are tested.',
     PF, [('distance', 'oneka/probabilityfield.py: distancesquared')])
prop('C11', 'Registering adds the weight once to marked nodes and clears all marks',
     """Registering a realization adds its weight exactly once to every marked node and to the total weight, changes no
     other node, and clears every mark; resetting clears every mark and changes nothing else.  Any positive weight,
     whole or fractional, is counted in full.""",
     'inputs histories', 'all field contents, marks and weights',
     'No test registers anything.',
     PF, [('accounting', 'oneka/probabilityfield.py: register, reset')])

sys.modules.setdefault('meta', sys.modules['__main__'])
import meta_more  # noqa: E402,F401


def main():
    import check
    rules = check.all_rules()
    claimed = [p for p in P if p['id'] in rules and not p['na']]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            if not p['na'] and p['id'] not in rules:
                continue
            d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant')}
            a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
            if p['state']:
                a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
            if p['observe']:
                a['observe_at'] = p['observe']
            a['hook_needed'] = None
            d['anchors'] = a
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(d) + '\n')
    tech = ('static analysis: abstract interpretation of the current source into a gated value graph with closed-form '
            'loop recurrences; required values, conditions and effects compared by normal forms and linear sign facts')
    checks = []
    for p in claimed:
        r = rules[p['id']]
        checks.append(dict(
            property=p['id'], quick_cmd='python3-vt sa/check.py %s quick' % p['id'],
            thorough_cmd='python3-vt sa/check.py %s thorough' % p['id'],
            technique=getattr(r, 'technique', tech), level='other',
            level_note=p['note'] or 'Decided from the source for all inputs; numbers are exact reals, library calls '
                                    'behave as documented.'))
    man = dict(version=1, setup_cmd='python3-vt -m compileall -q sa', checks=checks,
               not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if p['na']])
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(claimed), 'claimed', [p['id'] for p in P if p['id'] not in rules and not p['na']], 'pending')


if __name__ == '__main__':
    main()
