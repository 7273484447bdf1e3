"""C01-C11 and C17: one market, one dispatch, judged against the independent reference."""
import copy
from mcheck import MarketCheck
from gen_market import Market, table

BIG = ['load', 'bdu', 'lf', 'fcas', 'reg', 'maxavail', 'jointcap', 'engreg', 'jointramp', 'capacity', 'uigf', 'ramp', 'scada', 'inter', 'losses', 'generic']
FULL_HOSTILE = BIG + ['elastic', 'hostile', 'elastic:unit_bid_capacity', 'elastic:uigf_capacity', 'elastic:ramp', 'elastic:fcas_max_availability',
                      'elastic:joint_capacity', 'elastic:energy_and_regulation_capacity', 'elastic:joint_ramping']
COMMON = ['The reference model is written from the documentation and solved with HiGHS; MW comparisons use 2e-4 MW, costs 2e-6 relative.',
          'Markets whose feasibility is decided by less than 1e-4 MW are not judged.']

C01 = MarketCheck(
    ID='C01', ASSUMPTIONS=COMMON, CASES={'quick': 1400, 'thorough': 30000}, PRICE=False,
    PROFILES=[(3, ['load', 'bdu', 'lf', 'inter', 'losses']), (3, ['inter', 'links', 'transloss', 'losses', 'load', 'bdu']), (2, ['inter', 'transloss']),
              (2, ['load', 'bdu', 'fcas', 'inter', 'losses', 'uneven']), (2, ['inter', 'losses', 'elastic', 'hostile', 'load', 'bdu', 'fcas']),
              (1, BIG), (1, ['load', 'bdu', 'capacity', 'elastic:demand']), (0.5, ['load', 'bdu', 'inter', 'losses', 'infeasible']), (1, ['inter', 'losses', 'links', 'transloss', 'generic', 'fcas', 'bdu'])],
    REPORT=('group:demand', 'degree:demand', 'status', 'offers'), FOCUS=(), NONTRIVIAL=('con:demand',),
    RULE='an execution counts when a dispatch was returned and at least one regional balance was recomputed from the reported targets, flows and losses')

C02 = MarketCheck(
    ID='C02', ASSUMPTIONS=COMMON, CASES={'quick': 2000, 'thorough': 40000},
    PROFILES=[(3, ['capacity', 'uigf', 'load', 'bdu', 'lf']), (2, ['capacity', 'uigf', 'load', 'bdu', 'fcas']), (2, ['uigf', 'capacity', 'inter']),
              (1, ['load', 'bdu', 'fcas']), (1, ['capacity', 'uigf', 'bdu', 'load', 'elastic', 'hostile', 'lf'])],
    REPORT=('offers', 'group:unit_bid_capacity', 'group:uigf_capacity', 'degree:unit_bid_capacity', 'degree:uigf_capacity', 'objective', 'optimal', 'status', 'price'),
    FOCUS=(), NONTRIVIAL=('partial_offers',),
    RULE='an execution counts when a dispatch was returned and some offer was partly dispatched; every offer, capacity and forecast limit is recomputed from the reported targets')

C03 = MarketCheck(
    ID='C03', ASSUMPTIONS=COMMON, CASES={'quick': 1300, 'thorough': 30000}, PRICE=False,
    PROFILES=[(2, ['load', 'bdu', 'lf', 'inter', 'losses', 'capacity']), (3, BIG), (2, FULL_HOSTILE), (2, ['load', 'lf', 'bdu', 'ramp', 'scada', 'capacity']),
              (2, ['fcas', 'reg', 'maxavail', 'jointcap', 'engreg', 'jointramp', 'load', 'bdu', 'lf']), (2, ['inter', 'losses', 'links', 'transloss', 'uneven', 'lf', 'load']),
              (2, ['generic', 'load', 'bdu', 'fcas', 'inter', 'lf']), (1, ['faststart', 'fsprofile', 'ramp', 'scada', 'load', 'lf']),
              (1, ['ties', 'tiebreak', 'load', 'lf']), (0.5, ['load', 'bdu', 'inter', 'losses', 'infeasible', 'fcas']), (1, ['interval', 'ramp', 'bdu', 'scada', 'jointramp', 'fcas', 'reg'])],
    REPORT=('objective', 'optimal', 'status'), NONTRIVIAL=('objective_compared',),
    RULE='an execution counts when the reported objective and the cost of the reported dispatch were compared with the least cost of the reference model')

C04 = MarketCheck(
    ID='C04', ASSUMPTIONS=COMMON + ['Prices are judged only when the linear pricing problem is unambiguous (no gap between the market and its relaxation over loss segments and links); others are counted as price_ambiguous.'],
    CASES={'quick': 1000, 'thorough': 20000},
    PROFILES=[(3, ['load', 'bdu', 'lf', 'inter', 'losses']), (2, ['inter', 'links', 'transloss', 'losses', 'lf']), (2, ['inter', 'losses', 'uneven', 'load']),
              (3, ['fcas', 'reg', 'maxavail', 'jointcap', 'engreg', 'jointramp', 'load', 'bdu']), (2, ['fcas', 'elastic', 'hostile', 'inter', 'losses']), (1, BIG),
              (2, ['fcas', 'maxavail', 'generic', 'inter', 'load']), (1, ['ramp', 'capacity', 'lf', 'load', 'elastic', 'hostile', 'elastic:ramp', 'elastic:unit_bid_capacity']),
              (1, ['fcas', 'load', 'bdu'])],
    REPORT=('price',), NONTRIVIAL=('price_directions',),
    RULE='an execution counts when at least one regional or FCAS price was tested against the one sided rates of change of the least cost')

C05 = MarketCheck(
    ID='C05', ASSUMPTIONS=COMMON, CASES={'quick': 1200, 'thorough': 25000},
    PROFILES=[(4, ['fcas', 'maxavail', 'load', 'bdu']), (2, ['fcas', 'reg', 'maxavail', 'load', 'bdu']), (2, ['fcas', 'maxavail', 'elastic', 'hostile', 'load', 'bdu']),
              (2, ['fcas', 'load', 'bdu', 'inter', 'losses']), (1, ['fcas', 'reg', 'maxavail', 'jointcap', 'engreg', 'jointramp', 'load', 'bdu']), (1, ['fcas', 'maxavail', 'generic', 'bdu'])],
    REPORT=('group:fcas', 'degree:fcas', 'status', 'objective', 'optimal', 'price'), FOCUS=('fcas', 'maxavail'),
    NONTRIVIAL=('binding:fcas', 'binding:fcas_max_availability', 'violated:fcas'),
    RULE='an execution counts when a requirement set or maximum availability was met with equality or violated, recomputed from the reported enablement')

C06 = MarketCheck(
    ID='C06', ASSUMPTIONS=COMMON, CASES={'quick': 2000, 'thorough': 40000},
    PROFILES=[(3, ['ramp', 'scada', 'bdu', 'load', 'interval']), (2, ['ramp', 'scada', 'bdu', 'load', 'interval', 'inter']), (2, ['ramp', 'scada', 'faststart', 'load', 'interval']),
              (1, ['ramp', 'scada', 'faststart', 'fsprofile', 'interval']), (2, ['ramp', 'scada', 'bdu', 'load', 'elastic', 'hostile', 'elastic:ramp', 'interval']), (2, ['ramp', 'bdu', 'one_region'])],
    REPORT=('group:ramp', 'group:bidirectional_ramp', 'degree:ramp', 'degree:bidirectional_ramp', 'status', 'objective', 'optimal', 'price'), FOCUS=('ramp',),
    NONTRIVIAL=('binding:ramp_up', 'binding:ramp_down', 'binding:bidirectional_ramp_up', 'binding:bidirectional_ramp_down'),
    RULE='an execution counts when a ramp limit was reached, recomputed from initial output, rates and the reported target')


class FastStart(MarketCheck):
    """sets the fast start constraints, sometimes after a different set of them, sometimes removing them again"""

    def make(self, rng, seed):
        job = super().make(rng, seed)
        i = next((i for i, c in enumerate(job['calls']) if c.get('m') == 'set_fast_start_constraints'), None)
        if i is None:
            return job
        x = rng.random()
        cur = job['calls'][i]
        if x < 0.3:
            early = copy.deepcopy(cur)
            t = early['a']['fast_start_profiles']
            for row in t['rows']:
                row[t['cols'].index('end_mode')] = rng.choice([0, 1, 2, 3, 4, 5])
                row[t['cols'].index('min_loading')] = float(rng.randint(0, 80))
            if rng.random() < 0.5:
                early['a']['violation_cost'] = float(rng.choice([10, 1000]))
            if rng.random() < 0.3:
                t['rows'] = t['rows'][:max(1, len(t['rows']) // 2)]
            seq = [early]
            if rng.random() < 0.5:
                seq.append({'m': 'dispatch', 'a': {}, 'may_fail': True})
            if rng.random() < 0.5:
                seq.append({'m': 'remove_fast_start_constraints', 'a': {}, 'feat': 'fast_start'})
            job['calls'][i:i] = seq
        elif x < 0.45:
            seq = [{'m': 'dispatch', 'a': {}, 'may_fail': True}] if rng.random() < 0.5 else []
            seq.append({'m': 'remove_fast_start_constraints', 'a': {}, 'feat': 'fast_start'})
            if 'violation_cost' not in cur['a'] and rng.random() < 0.5:
                cur['a']['violation_cost'] = float(rng.choice([10, 1000]))
            job['calls'][i + 1:i + 1] = seq
        return job


C07 = FastStart(
    ID='C07', ASSUMPTIONS=COMMON, CASES={'quick': 1600, 'thorough': 30000},
    PROFILES=[(1.5, ['faststart', 'fsprofile', 'fcas', 'reg', 'jointramp', 'load', 'elastic:joint_ramping']), (4, ['faststart', 'fsprofile', 'load']), (2, ['faststart', 'fsprofile', 'ramp', 'scada', 'load']), (2, ['faststart', 'fsprofile', 'elastic', 'hostile', 'elastic:fast_start']),
              (1, ['faststart', 'fsprofile', 'capacity', 'inter', 'losses']), (1, ['faststart', 'fsprofile', 'bdu', 'fcas'])],
    REPORT=('group:fast_start', 'degree:fast_start', 'status', 'objective', 'optimal', 'price'), FOCUS=('fast_start',),
    NONTRIVIAL=('binding:fast_start', 'violated:fast_start'),
    RULE='an execution counts when a unit was held at its inflexibility profile (or paid for leaving it), recomputed from the profile and the reported target')

C08 = MarketCheck(
    ID='C08', ASSUMPTIONS=COMMON, CASES={'quick': 1500, 'thorough': 25000},
    PROFILES=[(1.5, ['faststart', 'fcas', 'reg', 'jointramp', 'load']), (3, ['fcas', 'reg', 'jointcap', 'engreg', 'jointramp', 'bdu', 'load']), (3, ['fcas', 'jointcap', 'load', 'bdu']), (2, ['fcas', 'reg', 'jointramp', 'load', 'bdu', 'interval']),
              (2, ['fcas', 'reg', 'engreg', 'load', 'bdu']), (2, ['fcas', 'reg', 'jointcap', 'load', 'bdu']),
              (2, ['fcas', 'reg', 'jointcap', 'engreg', 'jointramp', 'load', 'bdu', 'elastic', 'hostile', 'elastic:joint_capacity', 'elastic:energy_and_regulation_capacity', 'elastic:joint_ramping'])],
    REPORT=('group:joint', 'group:energy_and_regulation', 'degree:joint', 'degree:energy_and_regulation', 'status', 'objective', 'optimal', 'price'),
    FOCUS=('jointcap', 'engreg', 'jointramp'),
    NONTRIVIAL=('binding:joint_capacity', 'binding:energy_and_regulation_capacity', 'binding:joint_ramping_raise_reg', 'binding:joint_ramping_lower_reg',
                'binding:joint_ramping_raise_reg_bdu', 'binding:joint_ramping_lower_reg_bdu'),
    RULE='an execution counts when a trapezium edge or joint ramping limit was reached, recomputed from the reported energy and enablement')

C09 = MarketCheck(
    ID='C09', ASSUMPTIONS=COMMON, CASES={'quick': 1000, 'thorough': 20000},
    PROFILES=[(3, ['inter', 'losses']), (3, ['inter', 'losses', 'links', 'transloss']), (2, ['inter', 'losses', 'uneven', 'load', 'bdu']), (1, ['inter', 'links', 'transloss']),
              (1, ['inter', 'losses', 'links', 'elastic', 'hostile', 'uneven']), (1, ['inter', 'losses', 'generic'])],
    REPORT=('inter', 'group:demand', 'status', 'objective', 'optimal', 'price'), FOCUS=('inter', 'losses'), NONTRIVIAL=('flow_inside_segment', 'link_pairs'),
    RULE='an execution counts when a flow lay strictly inside a loss segment or a pair of links was observed; losses, limits and link use are recomputed from the reported flows')

C10 = MarketCheck(
    ID='C10', ASSUMPTIONS=COMMON, CASES={'quick': 1200, 'thorough': 25000},
    PROFILES=[(3, ['generic', 'load', 'bdu', 'fcas']), (3, ['generic', 'inter', 'links', 'load', 'bdu']), (2, ['generic', 'inter', 'losses', 'fcas', 'bdu']),
              (2, ['generic', 'load', 'bdu', 'fcas', 'elastic', 'hostile', 'inter']), (1, ['generic', 'one_region', 'load'])],
    REPORT=('group:generic', 'degree:generic', 'group:fcas', 'degree:fcas', 'status', 'objective', 'optimal', 'price'), FOCUS=('generic',),
    NONTRIVIAL=('binding:generic', 'violated:generic'),
    RULE='an execution counts when a generic constraint was met with equality or violated, its left hand side recomputed from the reported targets and flows')


def fast_start_limits(t):
    """whether any unit of the table is still inside its profile"""
    m, l = t['cols'].index('end_mode'), t['cols'].index('mode_four_length')
    return any(r[m] < 4 or (r[m] == 4 and r[l] > 0) for r in t['rows'])


class Elastic(MarketCheck):
    """costs given with the constraints, afterwards through make_constraints_elastic, and replaced"""
    KEYS = {'set_unit_bid_capacity_constraints': ['unit_bid_capacity'], 'set_unconstrained_intermittent_generation_forecast_constraint': ['uigf_capacity'],
            'set_demand_constraints': ['demand'], 'set_fcas_requirements_constraints': ['fcas'], 'set_fcas_max_availability': ['fcas_max_availability'],
            'set_joint_capacity_constraints': ['joint_capacity'], 'set_energy_and_regulation_capacity_constraints': ['energy_and_regulation_capacity'],
            'set_generic_constraints': ['generic'], 'set_fast_start_constraints': ['fast_start']}

    def make(self, rng, seed):
        job = super().make(rng, seed)
        out, tail = [], []
        for c in job['calls']:
            if c.get('m') == 'dispatch':
                out += tail
            out.append(c)
            ks = self.KEYS.get(c.get('m'))
            if not ks:
                continue
            vc = c['a'].get('violation_cost')
            if c['m'] == 'set_fast_start_constraints':
                if not fast_start_limits(c['a']['fast_start_profiles']):
                    continue        # no constraints are created, so there is nothing to make elastic
            if ks[0] in ('fcas', 'generic') and rng.random() < 0.12:
                # costs replaced by ones for other sets: these constraints are hard again
                tail.append({'m': 'make_constraints_elastic', 'feat': c.get('feat'),
                             'a': {'constraints_key': ks[0], 'violation_cost': table(['set', 'cost'], [['nobody', 3.0]], {'cost': 'float'})}})
            elif vc is not None and rng.random() < 0.35:
                # the same cost, given later, sometimes after a different one
                late = {'m': 'make_constraints_elastic', 'a': {'constraints_key': ks[0], 'violation_cost': vc}, 'feat': c.get('feat')}
                if rng.random() < 0.5:
                    c['a'] = {k: v for k, v in c['a'].items() if k != 'violation_cost'}
                else:
                    c['a'] = dict(c['a'], violation_cost=float(rng.choice([0.5, 50, 20000])))
                if rng.random() < 0.3:
                    tail.append(dict(late, a=dict(late['a'], violation_cost=float(rng.choice([1, 77, 30000])))))
                    if rng.random() < 0.5:
                        tail.append({'m': 'dispatch', 'a': {}, 'may_fail': True})
                tail.append(late)
        job['calls'] = out
        return job


C11 = Elastic(
    ID='C11', ASSUMPTIONS=COMMON, CASES={'quick': 1200, 'thorough': 25000}, PRICE=False,
    PROFILES=[(3, FULL_HOSTILE), (2, ['fcas', 'elastic', 'hostile', 'inter', 'losses', 'generic']), (2, ['ramp', 'scada', 'bdu', 'load', 'elastic', 'hostile', 'elastic:ramp', 'interval']),
              (2, ['fcas', 'maxavail', 'elastic', 'hostile', 'load', 'bdu', 'generic']), (2, ['generic', 'capacity', 'uigf', 'elastic', 'hostile', 'load']),
              (1, ['faststart', 'fsprofile', 'elastic', 'hostile', 'elastic:fast_start', 'ramp', 'elastic:ramp']), (2, BIG + ['elastic', 'zerocost']),
              (3, ['fcas', 'generic', 'elastic', 'elastic:fcas', 'elastic:generic', 'load', 'bdu', 'inter', 'zerocost', 'uigf', 'capacity', 'maxavail'])],
    REPORT=('degree', 'group', 'status', 'objective', 'optimal'),
    NONTRIVIAL=tuple('violated:' + g for g in ('demand', 'fcas', 'generic', 'unit_bid_capacity', 'uigf_capacity', 'ramp_up', 'ramp_down', 'bidirectional_ramp_up', 'bidirectional_ramp_down',
                                               'fast_start', 'fcas_max_availability', 'joint_capacity', 'energy_and_regulation_capacity', 'joint_ramping_raise_reg', 'joint_ramping_lower_reg',
                                               'joint_ramping_raise_reg_bdu', 'joint_ramping_lower_reg_bdu')),
    RULE='an execution counts when the returned dispatch broke at least one elastic constraint; the amount is recomputed and compared with the reported degree')

C17 = MarketCheck(
    ID='C17', ASSUMPTIONS=COMMON, CASES={'quick': 1200, 'thorough': 25000}, PRICE=False,
    PROFILES=[(3, ['inter', 'losses', 'load', 'bdu']), (3, ['inter', 'links', 'transloss', 'losses', 'load', 'bdu']), (1, ['load', 'bdu']),
              (4, ['fcas', 'reg', 'maxavail', 'jointcap', 'engreg', 'jointramp', 'load', 'bdu']), (2, ['fcas', 'maxavail', 'jointcap', 'load']), (1, BIG), (1, ['fcas', 'reg', 'jointramp', 'load', 'interval']),
              (1, ['fcas', 'reg', 'maxavail', 'jointcap', 'engreg', 'jointramp', 'load', 'elastic', 'hostile', 'elastic:joint_capacity', 'elastic:fcas_max_availability', 'elastic:energy_and_regulation_capacity', 'elastic:joint_ramping'])],
    REPORT=('summary', 'availability'), NONTRIVIAL=('summary_rows', 'availability_rows'),
    RULE='an execution counts when regional summary rows or FCAS availability rows were recomputed from the reported dispatch')

CHECKS = [C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C17]
