#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json, sys, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
WHERE = {}
OBS = {}
def p(id, title, st, q, why, files, syms, tech, note, over=('inputs','configurations')):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=list(over), text=q), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=y, where=WHERE.get(y, files[0])) for y in syms], observe_at=OBS.get(id, ['public API of the steering function classes'])), tech=tech, note=note))
DUB='src/dubins_state_space/dubins_state_space.cpp'; RS='src/reeds_shepp_state_space/reeds_shepp_state_space.cpp'
HCCC='src/hc_cc_state_space/'; UT='src/utilities/utilities.cpp'; EKF='src/filter/ekf.cpp'
T='The tests only sample random state pairs with one curvature limit, one sharpness limit and one discretisation, and compare '
CC=[HCCC+f for f in ('cc_dubins_state_space.cpp','cc00_dubins_state_space.cpp','cc0pm_dubins_state_space.cpp','ccpm0_dubins_state_space.cpp','ccpmpm_dubins_state_space.cpp','hc_cc_circle.cpp','paths.cpp','configuration.cpp')]
HC=[HCCC+f for f in ('hc_reeds_shepp_state_space.cpp','hc00_reeds_shepp_state_space.cpp','hc0pm_reeds_shepp_state_space.cpp','hcpm0_reeds_shepp_state_space.cpp','hcpmpm_reeds_shepp_state_space.cpp','cc00_reeds_shepp_state_space.cpp','hc_cc_circle.cpp','paths.cpp')]
SMT='concolic execution of the compiled code into expression DAGs, algebraic encoding, z3 decides each VC per expression class; counterexamples replayed'
SMEM='concolic execution: z3 solves for inputs that take branch outcomes not yet seen, so that the execution paths grow; each path class (where all addresses and sizes are constants) is decided by a memory-checked run of the same code'
CM='Decided for each execution path visited (count in the evidence): on a path the addresses, sizes and releases do not depend on the inputs, so one memory-checked run settles it. Execution paths not visited are outside the claim; an array index computed from an input would be settled only for the value executed.'
CN='Holds for all inputs of every expression class visited (class counts, proved/unproved split and query counts in the evidence), real-arithmetic semantics; classes not visited or not proved are outside the claim.'
p('P01','Dubins and Reeds-Shepp steering reaches the goal pose',
 'For every pair of start and goal states and every positive curvature limit, driving the controls returned by Dubins (forward and backward) and Reeds-Shepp steering from the start pose ends at the goal position with the goal heading modulo 2 pi.',
 'all start/goal poses, curvature limits, driving directions', T+'only the end position within 1 cm after numerical integration, never the heading, never other curvature limits.',
 [DUB,RS],['get_controls'],SMT,CN)
p('P02','Continuous-curvature Dubins steering reaches the goal pose',
 'For every pair of states, every positive curvature and sharpness limit, each continuous-curvature Dubins variant (free, zero or maximum curvature at either end; forward or backward driving) returns controls that drive the start pose onto the goal position and goal heading. Only when the states are degenerate up to the library tolerance of 1e-4 may the end pose deviate, and then by no more than that tolerance allows.',
 'all start/goal states, curvature and sharpness limits, driving directions, boundary-curvature variants', T+'only the end position with unit limits, one seed set, forward only for most variants.',
 CC,['get_controls'],SMT,CN)
p('P03','Hybrid/continuous-curvature Reeds-Shepp steering reaches the goal pose',
 'For every pair of states and every positive curvature and sharpness limit, each steering function that may reverse with hybrid or continuous curvature returns controls that drive the start pose onto the goal position and goal heading. Only when the states are degenerate up to the library tolerance of 1e-4 may the end pose deviate, and then by no more than that tolerance allows.',
 'all start/goal states, curvature and sharpness limits, boundary-curvature variants', T+'only the end position with unit limits.',
 HC,['get_controls'],SMT,CN)
p('P04','Curvature and sharpness limits are never exceeded',
 'Along every control returned by any steering function the curvature, at its start, at its end and in between, stays within plus/minus the configured curvature limit, and the curvature rate stays within plus/minus the configured sharpness limit; Dubins and Reeds-Shepp controls are circular arcs at exactly the limit or straight lines.',
 'all start/goal states and limits', T+'curvature only at sampled path states and with unit limits, where a limit, its inverse and its square coincide.',
 [DUB,RS]+CC+HC,['get_controls'],SMT,CN)
p('P05','Curvature profile is continuous and meets the end conditions',
 'For continuous-curvature steering the curvature at the end of each control equals the curvature at the start of the next one; for hybrid-curvature steering it may jump only where the driving direction changes. Unless the path has length zero, the profile starts and ends with the curvature the variant promises: zero, plus/minus the maximum, or the curvature given in the start and goal state.',
 'all start/goal states and limits, all variants', T+'curvature continuity only on sampled states for unit limits.',
 CC+HC,['get_controls'],SMT,CN)
p('P06','Reported distance equals the length of the returned path',
 'For every steering function and every query the reported distance equals the sum of the absolute lengths of the returned controls, and it is never smaller than the straight-line distance between start and goal position.',
 'all start/goal states and limits, all steering functions', T+'both only with unit limits.',
 [DUB,RS]+CC+HC,['get_distance','get_controls'],SMT,CN)
p('P07','Dubins-type steering never changes driving direction',
 'Every control returned by a forward-only steering function has a non-negative signed length and by a backward-only one a non-positive signed length.',
 'all start/goal states and limits', 'The tests never assert the sign of the control lengths.',
 [DUB]+CC,['get_controls'],SMT,CN)
p('P08','Path integration samples the exact motion with bounded spacing',
 'For any start state, list of controls and discretisation, the sampled path starts at the start state, every later sample is the exact pose, curvature and driving direction reached by the controls at its arc length, consecutive samples are at most one discretisation apart, and each control is sampled at multiples of the discretisation and at its end point.',
 'all start states, control lists (bounded length), discretisations', T+'only via final position and spacing with discretisation 0.1.',
 [DUB,RS,HCCC+'hc_cc_state_space.cpp',UT],['integrate'],SMT,CN)
p('P09','Interpolation returns the state at the requested path fraction',
 'For any start state, control list and fraction t the interpolated state is the pose, curvature and driving direction reached after driving t times the total path length, with t below 0 or above 1 clamped to the path ends.',
 'all start states, control lists (bounded length), fractions', T+'only the position on a few paths.',
 [DUB,RS,HCCC+'hc_cc_state_space.cpp'],['interpolate'],SMT,CN)
p('P10','Path queries agree with control queries and belief paths',
 'The path returned for a query is the integration of the controls returned for the same query, and the states of the path with covariance are the states of the path without covariance, in number, order and value.',
 'all start/goal states, limits and discretisations', 'The tests never compare the path, control and covariance interfaces with each other.',
 [DUB,RS,HCCC+'hc_cc_state_space.cpp'],['get_path','get_path_with_covariance'],SMT,CN)
p('P11','Distances of symmetric steering functions are symmetric',
 'The distance from a to b equals the distance from b to a for Reeds-Shepp and for the reversing hybrid/continuous-curvature steering functions with equal curvature conditions at both ends, and the forward distance from a to b equals the backward distance from b to a for every forward/backward pair with equal end conditions. (Queries for which the library\'s absolute tolerance of 1e-4 for states on a turning circle decides are exempt, because it is measured from one end.)',
 'all state pairs and limits', T+'this only with unit limits.',
 [DUB,RS]+HC,['get_distance'],SMT,CN)
p('P12','Results are invariant under rigid motions and heading periodicity',
 'Translating and rotating both states by a common rigid motion, or adding multiples of 2 pi to the headings, does not change the distance.',
 'all state pairs, limits, rigid motions and integer heading shifts', 'No test transforms a query.',
 [DUB,RS]+CC+HC,['get_distance','get_controls'],SMT,CN)
p('P13','Results scale with the limits and mirror with the plane',
 'Scaling positions by a positive factor while dividing the curvature limit by it and the sharpness limit by its square scales the distance by that factor; mirroring both states about the x axis leaves the distance unchanged. (States that are degenerate up to the library\'s absolute tolerance of 1e-4 are exempt, because that tolerance does not scale.)',
 'all state pairs, limits and scale factors', 'No test uses curvature or sharpness limits other than one.',
 [DUB,RS]+CC+HC,['get_distance'],SMT,CN)
p('P14','Dubins and Reeds-Shepp paths are shortest in their word families',
 'The Dubins distance is the minimum over the six Dubins words that connect the states; the Reeds-Shepp distance is the minimum over the Reeds-Shepp words that connect the states, and so never longer than the Dubins distance in either driving direction between the same states.',
 'all state pairs and curvature limits', 'The tests never compare against alternative words.',
 [DUB,RS],['get_distance'],SMT,CN)
p('P15','Answers do not depend on earlier queries',
 'The controls and distance returned for a query are the same whether the steering object is fresh or has answered any other queries before.',
 'all query pairs and one interposed query sequence', 'The tests only ever compare queries on one shared object.',
 [DUB,RS]+CC+HC,['get_controls','get_distance'],SMT,CN,over=('inputs','histories'))
p('P16','Filter Jacobians are the derivatives of the motion step',
 'The state and control Jacobians used for covariance prediction are the exact partial derivatives of the integrated motion step (line, arc or clothoid) with respect to the pose, the step length and the curvature; for straight lines the position derivatives with respect to curvature are taken as zero.',
 'all states, controls and step lengths', 'The tests compare against finite differences at a handful of controls.',
 [EKF,UT],['get_motion_jacobi'],SMT,CN)
p('P17','Covariance prediction follows the motion and controller model',
 'The predicted estimation covariance is the Jacobian-propagated covariance plus motion noise scaled with the controls, the predicted tracking covariance is propagated through the closed loop, both stay symmetric, and the total covariance is their sum.',
 'all symmetric covariances, controls, step lengths and noise/controller parameters', 'The tests only look at a Monte Carlo estimate of the final covariance.',
 [EKF],['predict'],SMT,CN)
p('P18','Measurement update is the Kalman correction and conserves total covariance',
 'The updated estimation covariance is the Kalman-corrected one for the configured measurement noise, it is symmetric and never larger than the prior, the tracking covariance grows by exactly what the estimation covariance loses, and the total covariance is their sum and is unchanged by the update.',
 'all symmetric covariances and positive measurement noise parameters', 'The tests only look at a Monte Carlo estimate of the final covariance.',
 [EKF],['update'],SMT,CN)
p('P19','Angle and geometry helpers meet their contracts',
 'Angle normalisation returns an angle congruent to its argument in [0, 2 pi) respectively [-pi, pi]; polar conversion, point distance, sign, index of minimum and the two frame changes meet their mathematical definitions, and the frame changes are inverse to each other.',
 'all real arguments', 'No test exercises the helpers directly on the range boundaries.',
 [UT,'include/steering_functions/utilities/utilities.hpp'],['twopify','pify','polar','point_distance','global_frame_change','local_frame_change','array_index_min','sgn'],SMT,CN)
p('P20','Elementary motions solve the vehicle equations',
 'The end pose of a clothoid, circular arc or straight line of given signed direction and length is the exact solution of the kinematic equations from the given start pose, curvature and sharpness.',
 'all start poses, curvatures, sharpnesses, directions and lengths', 'No test checks the elementary motions on their own.',
 [UT],['end_of_clothoid','end_of_circular_arc','end_of_straight_line'],SMT,CN)
p('P21','Fresnel integrals are accurate on the whole real line',
 'For every real argument the computed Fresnel sine and cosine integrals are odd and within 1e-9 of the true integrals.',
 'all real arguments', 'The tests compare at sampled arguments only.',
 [UT],['fresnel'],SMT,CN)
p('P22','Every valid query yields finite, non-empty results',
 'For every pair of finite states and positive limits, including coincident, collinear and tangent configurations, queries terminate and return a non-empty list of finite controls and a finite non-negative distance.',
 'all finite state pairs and positive limits', T+'generic random pairs.',
 [DUB,RS]+CC+HC,['get_controls','get_distance'],SMT,CN)
p('P23','Belief paths are the filter recursion along the path',
 'Along a path with covariance the first state carries the given initial covariances, and every later state carries the covariance obtained from its predecessor by one prediction over the step between the two states followed by one measurement update; a state inserted at a jump of the curvature, where the pose does not move, repeats the covariance of its predecessor.',
 'all start states, control lists (bounded length), discretisations, covariances and filter parameters', 'The tests only compare the last covariance with a Monte Carlo estimate, at one noise setting.',
 [DUB,RS,HCCC+'hc_cc_state_space.cpp',EKF],['integrate_with_covariance','predict','update'],SMT,CN)
p('P24','The steering variants agree with each other',
 'When the curvature at an end is left to the method (HC, CC), the distance is the shortest over the clothoid pieces that bring that curvature to zero or to the curvature limit, combined with the answer of the variant with those fixed end curvatures (when such a piece reaches the other state directly, it may also be the answer by itself). When only the sign of the maximum curvature is left open (variants with +- ends queried with zero curvature), the distance is the minimum over the queries with the sign given.',
 'all state pairs, curvature and sharpness limits; comparisons within the library tolerance of 1e-4 hold up to that tolerance', 'The tests never compare the variants with each other.',
 [HCCC+'cc_dubins_state_space.cpp',HCCC+'hc_reeds_shepp_state_space.cpp']+[x for x in CC+HC if 'pm' in x],['get_distance','get_controls','predict_state'],SMT,CN)
p('P25','Allowing cusps never lengthens the path',
 'Between states with zero curvature, the distance of CC-Reeds-Shepp and of HC00-Reeds-Shepp is never longer than the CC-Dubins distance with the same limits, driven forwards or backwards.',
 'all state pairs with zero curvature, curvature and sharpness limits; comparisons within the library tolerance of 1e-4 hold up to that tolerance', 'The tests only compare a few methods on random samples, and not these.',
 [HCCC+'cc00_dubins_state_space.cpp',HCCC+'cc00_reeds_shepp_state_space.cpp',HCCC+'hc00_reeds_shepp_state_space.cpp'],['get_distance'],SMT,CN)
p('P26','Queries own their memory',
 'A query (distance, controls, path, path with covariance, interpolation, repeated on one object) and the construction and destruction of a state space never access memory out of bounds or after its release, never release memory twice, execute no undefined behaviour and do not depend on indeterminate values; a query, and an object after its destruction, leave no memory allocated beyond the returned values.',
 'all limits, state pairs and control lists a method returns, on every execution path', 'The tests run without memory checking and exercise a fixed sample of the some thousand execution paths; a leak, a dangling pointer or an uninitialised value on a rare path goes unnoticed.',
 [DUB,RS,HCCC+'hc_cc_circle.cpp',HCCC+'configuration.cpp',HCCC+'paths.cpp',HCCC+'hc_cc_state_space.cpp']+CC+HC,['~HC_CC_RS_Path','~Configuration','pointer_array_init','empty_controls'],SMEM,CM)
p('P27','No word of a continuous-curvature family is overlooked',
 'Drive any word of a method\'s family explicitly (turns made of clothoid, arc at the curvature limit and clothoid, without the clothoid where the method starts, ends or changes direction at the curvature limit, and straight lines; free turning angles and lengths): the distance the method reports from its start to its end is never longer than that word. CC-Dubins methods, forwards and backwards: T, TT, TTT, S, TST with equal or opposite turns, and TTTT for maximum-curvature ends. HC- and CC-Reeds-Shepp methods also: TcT, TcTcT, TcTT, TTcT, TTcTT, TcTTcT, TcST, TScT, TcScT, TSTcT, TcTST, TcTSTcT (c: change of direction; quarter turns before a change of direction next to a straight line).',
 'all limits, start poses, left/right and forwards/backwards variants, turning angles and lengths within the range in which the family contains the word: CC-Reeds-Shepp straight pieces of at least 2.2 kappa/sigma, TTcTT inner angles up to pi/3 less the clothoids or from 2.3 to 3.4, TTTT inner angles from pi/2 to 3 pi/2 less the clothoids, clothoids short enough for the inner turns of TTcTT, TcTTcT and of quarter turns; up to the library tolerance of 1e-4', 'Optimality within a family is not tested at all; overlooking a word makes paths longer only for the goals that this word reaches best.',
 CC+HC+[HCCC+'hc_cc_circle.cpp'],['get_distance','TTT_exists','TST_path','TcTST_exists','TTcTT_path'],SMT,CN)
def main():
    reg = set(sys.argv[1:])
    with open(os.path.join(ROOT,'properties.jsonl'),'w') as f:
        for x in P:
            f.write(json.dumps({k: x[k] for k in ('id','title','statement','quantifier','why_tests_cant','anchors')})+'\n')
    man = {'version':1,'setup_cmd':'bash tools/setup.sh','checks':[],'not_applicable':[]}
    for x in P:
        if x['id'] in reg:
            man['checks'].append({'property':x['id'],'quick_cmd':'./check.sh %s quick'%x['id'],'thorough_cmd':'./check.sh %s thorough'%x['id'],'technique':x['tech'],'level':'exploration' if x['id']=='P26' else 'model_checking','level_note':x['note']})
        else:
            man['not_applicable'].append({'property':x['id'],'reason':'no check yet'})
    man['not_applicable']
    json.dump(man, open(os.path.join(ROOT,'MANIFEST.json'),'w'), indent=1)
if __name__=='__main__': main()
