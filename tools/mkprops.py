import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    P.append(d)
L='lib/include/ellcpp/';S='lib/src/';O=L+'oracles/';N='lib/include/netoptim/'
SP=[L+'ell.hpp',S+'ell.cpp',L+'ell_stable.hpp',S+'ell_stable.cpp',L+'ell1d.hpp',S+'ell1d.cpp']
ST=[('region','centre and shape of the set that still can contain an answer',L+'ell.hpp (_xc,_Q,_kappa), '+L+'ell1d.hpp (_r,_xc)')]
p('C01','A search region never discards a point that every cut allows',
 'A point that lies in the initial search region and satisfies every cut the region has accepted lies in the current region, for the ellipsoid, the stable ellipsoid and the interval, with single and with parallel cuts. This holds for any sequence of cuts, however the cuts are delayed, repeated, reordered or lost on their way, and across snapshots and restores of the region.',
 ['histories','fault_sequences','configurations'],
 'every dimension, initial region, sequence of central, deep, shallow and parallel cuts satisfied by a hidden point, every delivery order, duplication, loss and restart',
 'The tests run a handful of fixed problems and look only at the final status and iteration count; a region that loses the answer in some histories still ends with a plausible status.',
 SP,[('deep, central and parallel cut formulas',S+'ell.cpp _calc_dc/_calc_cc/_calc_ll_core/_calc_ll_cc'),('rank-one update of centre and shape',S+'ell.cpp update, '+S+'ell_stable.cpp update'),('interval cut',S+'ell1d.cpp update')],ST,['E.update(cut) status, E.xc(), and the support width of the region, read through a refused probe cut on a copy'])
p('C02','Every accepted cut leaves the smallest covering region, so search progresses',
 'After an accepted single or parallel cut the new region is the smallest ellipsoid (or interval) that contains the part of the old region the cut keeps, and its volume is never larger than before; a central or deep cut in n dimensions shrinks it by at least the factor exp(-1/(2(n+1))). Hence, from any state reached under faults, once every query is answered by a valid cut the number of queries until a target ball is found is bounded by the logarithm of the volume ratio.',
 ['histories','fault_sequences','configurations'],
 'every dimension, region reached by any history, cut direction, depth and slab width; every fault prefix followed by a fault-free suffix',
 'A region that still covers the answer but shrinks less than it must passes every existing test that allows more iterations; the bound is over all histories.',
 SP,[('c1, c2, c3, sigma, rho, delta',S+'ell.cpp'),('halving of the interval',S+'ell1d.cpp')],ST,['volume and shape of the region before and after update'])
p('C03','The verdict on a cut is truthful, and a refused cut changes nothing',
 'A cut is reported as leaving no solution exactly when no point of the region satisfies it, as without effect exactly when no smaller covering ellipsoid exists for it, and as accepted otherwise; the reported size is the squared half-width of the region along the cut before the cut is applied. For a parallel cut this is claimed for slabs whose first plane meets the region. A refused cut leaves the centre, the shape and all later behaviour of the region exactly as they were.',
 ['histories','inputs'],
 'every region reached by any history and every cut, with refused cuts interleaved anywhere in the history',
 'Tests only see the first refusal, which ends the run; nothing looks at the region after a refused cut or at the boundary between verdicts.',
 SP+[L+'cut_config.hpp'],[('verdict tests',S+'ell.cpp _calc_dc/_calc_ll_core, '+S+'ell1d.cpp')],ST,['return value of update, later answers of the region against an undisturbed twin'])
p('C04','A copy of a region is an identical and independent snapshot',
 'A copied (or moved-to) search region answers every later sequence of cuts exactly as the original would have at the moment of copying, configuration flags included. Nothing done to the copy or to arrays it handed out is visible in the original, and the other way round.',
 ['histories','schedules'],
 'every history before the copy, every interleaving of operations on the original and its copies after it',
 'The tests copy a region once, through the bisection adaptor, and never use the original again in a way that would show sharing or a lost field.',
 SP,[('explicit copy and move constructors, copy()',L+'ell.hpp, '+L+'ell_stable.hpp, '+L+'ell1d.hpp')],ST,['xc(), update() of original and copies against twins that ran alone'])
p('C05','An interrupted search resumes as if it had never stopped',
 'Running the feasibility, the convex or the bisection driver in several budget slices on the same region, oracle and best value, or having the oracle fail (throw) at any query and calling the driver again, visits the same query points and ends in the same answer, best value and region as one uninterrupted run. What a driver returns is the answer of that call: a best point announced in a call that the failure ended has to be kept by the oracle.',
 ['crash_points','fault_sequences','histories'],
 'every problem, every set of stop points and every query at which the oracle fails',
 'No test stops and resumes a driver, and no test has an oracle that fails.',
 [L+'cutting_plane.hpp']+SP,[('all search state lives in the region, the oracle and the best value; drivers keep only counters',L+'cutting_plane.hpp'),('a query is issued before any state changes',L+'cutting_plane.hpp')],ST,['sequence of query points, final region, best value'])
p('C06','The feasibility driver reports what happened, within its budget',
 'The driver queries the oracle at the current centre of the region, hands every cut it gets to the region once and in order, and stops at the first of: no cut (reported feasible), a refused cut (its status), a cut whose size measure is below the tolerance (small enough), or the budget. It reports feasible only if the oracle accepted the region\'s current centre, never queries more often than the budget allows, and reports the number of queries made, or the limit when that ended the run.',
 ['histories','fault_sequences','configurations'],
 'every sequence of oracle answers and region verdicts, every budget (zero included) and tolerance',
 'The tests use a few cooperative oracles and one or two exits of the loop; scripted peers can produce every order of answers and verdicts.',
 [L+'cutting_plane.hpp',L+'cut_config.hpp'],[('cutting_plane_feas',L+'cutting_plane.hpp')],None,['CInfo, the recorded conversation of driver, oracle and region'])
p('C07','The optimisation drivers return the best point the oracle ever accepted',
 'The convex and the discrete optimisation driver return the point belonging to the last improvement the oracle announced together with the best value the oracle left, and report feasible exactly when that value differs from the initial one. They query at the current centre with the current best value, hand over every cut once and in order, and stop only on a terminal verdict, on a size measure below the tolerance, or at the budget, whose exit they report as such.',
 ['histories','fault_sequences','configurations'],
 'every sequence of oracle answers (improvement or not, any cut), region verdicts, budgets and tolerances',
 'The tests compare iteration counts of a few fixed problems; improvements right before or at a terminal verdict, or followed by long runs without one, are not sampled.',
 [L+'cutting_plane.hpp'],[('cutting_plane_dc, cutting_plane_q',L+'cutting_plane.hpp')],[('x_best, t','best point and value so far',L+'cutting_plane.hpp')],['returned tuple, final t, the recorded conversation'])
p('C08','A cut without effect makes the discrete driver ask for an alternative',
 'After a cut without effect, the discrete driver asks the oracle again at the same centre, telling it to give an alternative cut, as long as the oracle offers one, and ends the search when none is offered; after any effective cut it asks in the normal way. No query ever asks for an alternative unless the previous cut had no effect.',
 ['histories','fault_sequences'],
 'every sequence of effective and ineffective cuts and of offers of alternatives',
 'No test reaches a second query after a cut without effect with an oracle that minds the request.',
 [L+'cutting_plane.hpp',S+'profit_oracle.cpp'],[('retry argument and more_alt result',L+'cutting_plane.hpp cutting_plane_q'),('retry branch of the discrete profit oracle',S+'profit_oracle.cpp')],None,['arguments of every oracle call'])
p('C09','Bisection keeps a valid bracket and returns a value the oracle accepted',
 'Bisection asks only about midpoints of its current interval, moves the upper end exactly on acceptance and the lower end exactly on refusal, stops when the half-length is below the tolerance or at the budget, and reports feasible exactly if the upper end moved. The adaptor that decides each midpoint by a feasibility search starts every search from the unchanged region\'s shape, tells the oracle the midpoint first, and keeps the point of the last accepted search, whatever the searches in between did (interrupted ones included).',
 ['histories','fault_sequences','configurations'],
 'every monotone or faulty decision sequence, interval, budget, tolerance, value type, and failures inside any inner search',
 'Tests run two bisections of smooth problems to the end; they cannot tell a stale point, a moved shape or an off-by-one half from a correct run.',
 [L+'cutting_plane.hpp',L+'half_nonnegative.hpp'],[('bsearch',L+'cutting_plane.hpp'),('bsearch_adaptor',L+'cutting_plane.hpp')],[('interval','bracket of the optimum','caller\'s pair'),('region of the adaptor','start of every inner search',L+'cutting_plane.hpp')],['midpoints asked, final interval, CInfo, x_best()'])
p('C10','Matrix-inequality oracles accept exactly the feasible and cut only others',
 'The linear, homogeneous and quadratic matrix-inequality oracles, and the correlation-fitting oracles built on them, accept a point exactly if the matrix they test is positive definite there (up to rounding). Otherwise the cut they return excludes the query point, or passes through it, and keeps every point of their feasible (or better) set; the depth they report never exceeds what the certificate proves.',
 ['inputs','histories'],
 'every matrix family, point and sequence of queries, thresholds lowered and raised in between, in one long-lived oracle object',
 'The tests drive each oracle with one or two fixed matrix families along one search path; validity of a cut for all feasible points is never compared with anything.',
 [O+'lmi_oracle.hpp',S+'lmi_oracle.cpp',O+'lmi_old_oracle.hpp',S+'lmi_old_oracle.cpp',O+'lmi0_oracle.hpp',S+'lmi0_oracle.cpp',O+'qmi_oracle.hpp',S+'qmi_oracle.cpp',S+'lsq_corr_ell.cpp',O+'ldlt_ext.hpp',S+'ldlt_ext.cpp'],[('lazy factorisation and witness vector',O+'ldlt_ext.hpp'),('gradient from the witness',S+'lmi_oracle.cpp and siblings')],[('factorisation workspace','reused by every query',O+'ldlt_ext.hpp')],['answers of the oracles'])
p('C11','Network oracles accept exactly potentials-feasible points and cut only others',
 'The network, cycle-ratio and optimal-scaling oracles accept a point exactly if the network has no negative cycle there, and otherwise return a cut that is violated at the point and satisfied by every feasible (and better) point. This does not depend on the node potentials they were left with by earlier queries, by an aborted query, or by the caller.',
 ['histories','fault_sequences','inputs'],
 'every network, weight function, sequence of query points and best values, interrupted edge callbacks and perturbed potentials',
 'One five-node network and two oracles along one path are tested; the warm-started potentials make every answer depend on the whole history.',
 [O+'network_oracle.hpp',O+'cycle_ratio_oracle.hpp',O+'optscaling_oracle.hpp',N+'neg_cycle.hpp'],[('cut summed over the found cycle',O+'network_oracle.hpp'),('best-so-far cut',O+'cycle_ratio_oracle.hpp, '+O+'optscaling_oracle.hpp')],[('potentials','warm start of the next query',O+'network_oracle.hpp _u')],['answers of the oracles'])
p('C12','Profit oracles never cut off a better profit and report real profits',
 'The profit oracles (plain, robust, discrete), asked with a best-so-far value that is not below zero, return cuts that every point with a profit above that value and within the capacity satisfies, never raise the best-so-far value to anything but the profit of a feasible point they evaluate, and never lower it. The discrete oracle evaluates the nearest admissible integer point and, when asked for an alternative, the same one again; several oracles may share one best value in any interleaving.',
 ['histories','schedules','inputs'],
 'every price, capacity and elasticity vector, query sequence, and interleaving of several searches sharing the incumbent',
 'Three fixed instances along one path are tested by iteration count.',
 [O+'profit_oracle.hpp',S+'profit_oracle.cpp'],[('log-Cobb-Douglas cut',S+'profit_oracle.cpp'),('elasticity perturbation by sign',O+'profit_oracle.hpp'),('rounding',S+'profit_oracle.cpp')],[('t','shared best-so-far profit','caller')],['answers and t'])
p('C13','The filter-design oracle is sound, and its rotating scan misses nothing',
 'The low-pass oracle announces a new best value only for coefficients that satisfy every pass-band, stop-band and non-negativity constraint, with that value being the largest stop-band response; otherwise it returns a (parallel) cut violated at the query point and satisfied by every better feasible design. No constraint is skipped, whatever position earlier (also aborted or repeated) queries left the rotating scan in, and repeated queries at one point visit every violated constraint of the first violated group within one round.',
 ['histories','inputs','fault_sequences'],
 'every constraint set, query history and best-value history, queries repeated, reordered and made to several oracles sharing the data',
 'One filter is designed from one start; the scan position is hidden state that depends on the whole history.',
 [O+'lowpass_oracle.hpp',S+'lowpass_oracle.cpp'],[('round-robin scan',S+'lowpass_oracle.cpp')],[('scan positions','where the next scan starts',O+'lowpass_oracle.hpp')],['answers and the best value'])
p('C14','The negative-cycle search answers truthfully from any starting state',
 'The negative-cycle search returns a closed chain of edges of the graph with negative total weight, or nothing exactly when there is no negative cycle, in which case the distances it leaves are feasible potentials (up to rounding with floating-point weights). This holds for any starting distances and any history of earlier, also aborted, searches with other weights on the same finder, and the search ends within a bounded number of edge inspections.',
 ['histories','fault_sequences','inputs'],
 'every graph (parallel edges, unreachable parts and several cycles included), weights, finite starting distances, histories of weight changes and failing weight callbacks',
 'A few small graphs are searched once or twice from zero distances.',
 [N+'neg_cycle.hpp','lib/include/py2cpp/nx2bgl.hpp'],[('relaxation, cycle detection in the predecessor graph',N+'neg_cycle.hpp')],[('_pred,_edge,dist','predecessors and distances, kept between searches',N+'neg_cycle.hpp')],['returned edge list, distances, number of weight callbacks'])
p('C15','Minimum cycle ratio and parametric search find the optimum, also resumed',
 'The minimum-cycle-ratio and the parametric search, started from a value not below the optimum, return the smallest ratio over all cycles together with a cycle attaining it, and leave the start value with no cycle when nothing is smaller. Stopping at any iteration budget, or failing in any callback, and starting again from the value and distances reached gives the same optimum, and the value reached never increases; the budget of rounds is kept.',
 ['histories','crash_points','inputs'],
 'every network with positive times, number type (floating, exact fractions), starting value and distances, budget slices and failing callbacks',
 'Two small networks are solved once to the end from zero distances.',
 [N+'min_cycle_ratio.hpp',N+'parametric.hpp',N+'neg_cycle.hpp','lib/include/py2cpp/fractions.hpp'],[('max_parametric loop, potential repair along the cycle',N+'parametric.hpp'),('cycle ratio',N+'min_cycle_ratio.hpp')],[('r_opt, dist','value and potentials, owned by the caller',N+'parametric.hpp')],['r, returned cycle'])
p('C16','An oracle\'s answer depends on the question, not on earlier questions',
 'Oracles that keep workspace between calls (matrix inequalities, correlation fitting, discrete and robust profit, factorisation engine) give the same answer to a query as a freshly built oracle with the same settings, bit for bit, whatever queries, failed queries or threshold updates came before, and whichever other oracle objects were used in between. Only the documented state counts: best value, threshold, the point kept for an alternative, potentials and scan position.',
 ['histories','fault_sequences','schedules'],
 'every sequence of queries and failures (allocation failure, callback exceptions) before, and every interleaving with other oracle objects',
 'Tests never compare one oracle object with another one.',
 [O+'ldlt_ext.hpp',O+'qmi_oracle.hpp',S+'qmi_oracle.cpp',S+'lmi_oracle.cpp',S+'lmi0_oracle.cpp',S+'lmi_old_oracle.cpp',O+'profit_oracle.hpp',S+'lsq_corr_ell.cpp'],[('workspace is overwritten before it is read',O+'ldlt_ext.hpp, '+S+'qmi_oracle.cpp')],[('_Q, _Fx, _count, _yd','workspace reused by every query','oracle headers')],['answers of long-lived and fresh oracles'])
p('C17','Independent searches do not influence each other, in any interleaving',
 'Any number of searches that share only read-only problem data, running in different threads or taking turns in one, under any interleaving, each give exactly the result they give alone. The library keeps no process-wide mutable state of its own.',
 ['schedules'],
 'every set of concurrent sessions (regions, oracles, drivers, network searches, data generation, CSD conversion) and every interleaving of their memory accesses and steps',
 'The tests are sequential; nothing runs two searches at a time, and a shared static would show only under the right interleaving.',
 SP+[L+'cutting_plane.hpp',S+'lmi_oracle.cpp',S+'qmi_oracle.cpp',S+'lowpass_oracle.cpp',S+'profit_oracle.cpp',S+'lsq_corr_ell.cpp',S+'csd.cpp',N+'neg_cycle.hpp'],[('all state is per object','whole library')],None,['results of every session against its solo run'])
p('C18','A failed allocation leaves region and search usable and unchanged',
 'When any memory allocation fails inside a region update, a copy, an oracle query or a driver step, the failure surfaces as an exception, nothing leaks, and the region is exactly as before the failed step, so that repeating the step gives the result it would have given without the failure. An oracle raises the best value only in a query that it answers; what it documents as its own state (scan position, node potentials, the point kept for an alternative) may have moved. Results never depend on what freshly allocated memory happens to contain.',
 ['fault_sequences','crash_points'],
 'every step of every history and every allocation within the step',
 'No test fails an allocation or fills fresh memory with rubbish.',
 SP+[L+'cutting_plane.hpp',S+'lmi_oracle.cpp',S+'qmi_oracle.cpp',S+'lowpass_oracle.cpp',S+'profit_oracle.cpp',N+'neg_cycle.hpp'],[('temporaries are computed before state changes',S+'ell.cpp, '+S+'ell_stable.cpp, '+S+'profit_oracle.cpp, '+S+'lowpass_oracle.cpp')],ST,['region before and after, allocation balance, results of repeated steps'])
p('C19','A search that runs to its end under faults still finds the true optimum',
 'A search over the library\'s own regions, drivers and oracles that ends because its region became small enough holds a best value within a bound of the true optimum that follows from the tolerance and the problem\'s interior, and a search that ends feasible holds a point that satisfies every constraint. Duplicated or late cuts, restarts from snapshots and failed queries on the way do not change this, nor make the search end without an answer when one exists.',
 ['fault_sequences','histories','configurations'],
 'every generated problem with a known interior, every region kind and option, every fault sequence',
 'The tests check status and iteration count on some ten fixed problems without faults, and no distance from the true optimum.',
 [L+'cutting_plane.hpp']+SP+[S+'lmi_oracle.cpp',S+'qmi_oracle.cpp',S+'lowpass_oracle.cpp',S+'profit_oracle.cpp',O+'optscaling_oracle.hpp',O+'cycle_ratio_oracle.hpp',S+'lsq_corr_ell.cpp'],[('composition of region, oracle and driver','whole library')],ST,['final best value and point against an independently computed optimum'])
p('C20','The region representations and modes are interchangeable',
 'The ellipsoid with deferred scaling, the ellipsoid without it, and the stable ellipsoid, started alike and given the same cuts, report the same verdicts and size measures and describe the same region up to rounding after every step. The same holds for a diagonal start given as one number or as a vector, and for a single cut given alone or as a one-element list.',
 ['histories','configurations'],
 'every history of cuts, refused ones and mid-history mode changes included',
 'Each test uses one representation; none compares two along a history.',
 SP,[('no_defer_trick',S+'ell.cpp'),('factored update',S+'ell_stable.cpp'),('constructors',L+'ell.hpp')],ST,['status, size, centre and shape of the replicas'])
p('C21','The factorisation engine\'s verdicts and certificates hold over any use',
 'The factorisation engine reports a symmetric matrix as positive definite exactly when it is (up to rounding), looks only at the part of the matrix it needs, and then gives a square root that reproduces the matrix; otherwise its witness proves the opposite on the reported rows with exactly the reported value. This holds for every matrix in any history of uses of one engine, aborted factorisations included. Where zero pivots are allowed, the rows behind an exact zero pivot are judged on their own.',
 ['histories','inputs','fault_sequences'],
 'every sequence of matrices, sizes of leading indefinite blocks, and element callbacks that fail anywhere',
 'Seven fixed matrices are factorised, each by a fresh engine.',
 [O+'ldlt_ext.hpp',S+'ldlt_ext.cpp'],[('factor, witness, sym_quad, sqrt',O+'ldlt_ext.hpp, '+S+'ldlt_ext.cpp')],[('p, v, T','rows, witness and storage reused by every factorisation',O+'ldlt_ext.hpp')],['is_spd, p, witness(), sym_quad(), sqrt()'])
p('C22','CSD conversion is exact and canonical',
 'Converting a number to canonic signed digits and back reproduces it to the stated precision, and no two adjacent digits of the result are nonzero.',
 ['inputs'],'every number, number of places and number of nonzero digits',
 'A few numbers are converted.',[S+'csd.cpp'],[('to_csd, to_decimal, to_csdfixed',S+'csd.cpp')],None,['return values'])
p('C23','Fractions obey exact arithmetic and ordering',
 'Fractions are kept in lowest terms with a positive denominator, and their arithmetic and comparisons agree with those of the rationals they stand for, as long as nothing overflows.',
 ['inputs'],'every pair of fractions and integers','A few pairs are tested.',
 ['lib/include/py2cpp/fractions.hpp'],[('normalize, operators','lib/include/py2cpp/fractions.hpp')],None,['results of the operators'])
p('C24','Halving and container helpers agree with their mathematical meaning',
 'Halving a non-negative value gives half of it (rounded down for integers) without overflow, and the dictionary, set, range and graph-adaptor helpers behave as the containers they imitate.',
 ['inputs'],'every value and container content','A few values are tested.',
 [L+'half_nonnegative.hpp','lib/include/py2cpp/py2cpp.hpp','lib/include/py2cpp/nx2bgl.hpp'],[('half_nonnegative',L+'half_nonnegative.hpp'),('py::dict, py::set, py::range','lib/include/py2cpp/py2cpp.hpp')],None,['return values'])
X='lib/include/xnetwork/classes/'
p('C25','Graphs hold what they were given, over any history and interleaved walks',
 'After any sequence of additions (one by one, in bulk, with data or without, of an edge that is already there), moves, namings and clears, a native graph and a boost graph behind the adaptor report exactly the edges added since the last clear, consistently in every view: counts, membership, degrees, neighbours with their data, name, and walks over nodes and edges. Any number of walks may be open at once, nested, resumed in any order or abandoned, without influence on each other or on the graph. An addition that fails half way, because memory or the source of the edges fails, leaves the graph as it was before that edge.',
 ['histories','schedules','fault_sequences'],
 'every sequence of operations of several clients on several graphs, every interleaving of open walks, every failing allocation and failing edge source',
 'The tests build one small graph once and look at a single walk; repeated additions, moves, clears, walks opened at the same time and failures are not sampled.',
 [X+'graph.hpp',X+'digraphs.hpp','lib/include/py2cpp/py2cpp.hpp','lib/include/py2cpp/nx2bgl.hpp'],[('adjacency and edge count',X+'graph.hpp add_edge, '+X+'digraphs.hpp add_edge'),('edge walk as a coroutine',X+'digraphs.hpp edges'),('views',X+'graph.hpp, lib/include/py2cpp/nx2bgl.hpp')],
 [('_adj, _succ, _node, _num_of_edges, graph','neighbours, nodes, number of edges, attributes',X+'graph.hpp')],['every query of the graph after every event, every edge a walk yields'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d,ensure_ascii=False)+'\n' for d in P))
import jsonschema,os
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P:
    jsonschema.validate(d,sch)
    n=d['statement'].count('. ')+1
    for f in d['anchors']['files']: assert os.path.exists('/repo/'+f),f
    print(d['id'],n,len(d['title']))
