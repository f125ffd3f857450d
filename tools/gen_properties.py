#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
I = 'include/crocoddyl/core/'
S = 'src/core/'
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


p('P01', 'Linear-quadratic actions return exact values and exact derivatives',
  'For a discrete- or continuous-time linear-quadratic action, evaluation returns exactly the affine dynamics, quadratic cost and affine constraint values of its current parameters, and differentiation returns exactly their derivatives, for the running and the terminal call. This holds for every data object of the model and every order of calls, including after the parameters are replaced at run time. Replacement parameters of a wrong size are rejected and change nothing.',
  ['inputs', 'histories'], 'all dimensions, parameter matrices, states and controls; all call histories over any number of data objects',
  'Tests compare one random instance of one size, with one data object and unchanged parameters, against finite differences.',
  [I + 'actions/lqr.hpp', I + 'actions/lqr.hxx', I + 'actions/diff-lqr.hpp', I + 'actions/diff-lqr.hxx'],
  [('value and derivative routines', I + 'actions/lqr.hxx'), ('continuous-time variant', I + 'actions/diff-lqr.hxx')])

p('P02', 'Unicycle action: consistent dynamics, cost and derivatives',
  'The unicycle action advances its planar pose by the time step along the current heading, charges half the squared weighted state and control, and reports the exact Jacobians of the transition, the exact gradient of the cost and its exact Hessian blocks, at every state and control and for running and terminal calls.',
  ['inputs'], 'all states, controls, time steps and cost weights',
  'Tests evaluate a few random points with the default weights and time step.',
  [I + 'actions/unicycle.hpp', I + 'actions/unicycle.hxx'], [('unicycle calc/derivatives', I + 'actions/unicycle.hxx')])

p('P03', 'Euler-integrated actions discretise and differentiate correctly',
  'An Euler-integrated action returns the semi-implicit Euler step of its continuous-time model driven by the parametrised control, a cost scaled by the time step (unscaled at the terminal node), and forwards the constraint values; its derivatives are exactly the chain rule of that map, built from the derivatives of the continuous-time model, the state manifold and the control parametrisation. With a zero time step it returns the input state.',
  ['inputs', 'configurations'], 'all continuous-time models, state manifolds, control parametrisations, dimensions, time steps, states and controls',
  'Tests use a few robot models of fixed size, one control parametrisation per instance and finite-difference tolerances.',
  [I + 'integrator/euler.hpp', I + 'integrator/euler.hxx', I + 'integ-action-base.hxx'], [('Euler calc/calcDiff', I + 'integrator/euler.hxx')])

p('P04', 'Runge-Kutta-integrated actions discretise and differentiate correctly',
  'A Runge-Kutta-integrated action of order two, three or four returns the step and the cost defined by the Butcher tableau of that order applied to its continuous-time model under the parametrised control, and its derivatives are exactly the chain rule through all stages of that step (Hessians in the Gauss-Newton form, without second derivatives of the stage states). The terminal call returns the input state and the unscaled terminal cost.',
  ['inputs', 'configurations'], 'all continuous-time models, orders, control parametrisations, dimensions, time steps, states and controls',
  'Tests compare a few robot models with finite differences at one time step and loose tolerance.',
  [I + 'integrator/rk.hpp', I + 'integrator/rk.hxx'], [('RK stages and derivative propagation', I + 'integrator/rk.hxx')])

p('P05', 'Control parametrisations are linear maps with exact Jacobian products',
  'At any time fraction a control parametrisation maps parameters to a control linearly (constant, linear interpolation, or the quadratic interpolation used by the Runge-Kutta schemes), its reported Jacobian is that linear map, and its left and right Jacobian products (with the three assignment modes) equal multiplication by it. Parameters built from a control reproduce that control at every time fraction, and bounds on the control are converted into parameter bounds that represent the same limits.',
  ['inputs'], 'all time fractions, parameter vectors, matrices, dimensions and assignment modes',
  'Tests sample one control dimension and one time value, with finite differences.',
  [I + 'controls/poly-zero.hxx', I + 'controls/poly-one.hxx', I + 'controls/poly-two-rk.hxx'],
  [('zero-order', I + 'controls/poly-zero.hxx'), ('first-order', I + 'controls/poly-one.hxx'), ('second-order', I + 'controls/poly-two-rk.hxx')])

p('P06', 'Activations return their value, its exact gradient and the declared curvature',
  'For every activation (quadratic, weighted quadratic, flat-log, flat-exp, smooth one-norm and two-norm, two-norm barrier, quadratic and weighted quadratic barriers) the value is the documented function of the residual and the gradient after evaluation at the same residual is exactly its derivative. The diagonal curvature is the exact diagonal second derivative for the quadratic, weighted, flat and smooth one-norm activations, for the two-norm barrier with true curvature and for the quadratic barriers away from their bounds, it is never negative for the quadratic and smooth-norm activations and the Gauss-Newton barrier, and it always reflects the current parameters for every data object. Activation bounds are the given bounds tightened towards their centre by the given ratio, entry by entry, and inadmissible bounds or ratios are rejected.',
  ['inputs', 'histories'], 'all residual dimensions, residual values and admissible parameters; all orders of parameter updates and calls',
  'The tests for activations need a residual drawn at random and compare with finite differences for one parameter value.',
  [I + 'activations/quadratic.hpp', I + 'activations/weighted-quadratic.hpp', I + 'activations/quadratic-flat-log.hpp', I + 'activations/quadratic-flat-exp.hpp', I + 'activations/smooth-1norm.hpp', I + 'activations/smooth-2norm.hpp', I + 'activations/2norm-barrier.hpp', I + 'activations/quadratic-barrier.hpp', I + 'activations/weighted-quadratic-barrier.hpp'],
  [('activation calc/calcDiff', I + 'activations/')])

p('P07', 'Squashed actuation stays within its limits and differentiates exactly',
  'The smooth saturation maps every input strictly between its lower and upper limits, its reported derivative is the exact derivative of that map, and it stays so after its limits or smoothness are changed. A squashed actuation returns the wrapped actuation evaluated at the squashed control, with a control Jacobian equal to the product of both Jacobians and the state Jacobian of the wrapped actuation.',
  ['inputs'], 'all inputs, limits, smoothness values, dimensions and wrapped actuation models',
  'Tests use one actuation, one pair of limits and random inputs.',
  [I + 'actuation/actuation-squashing.hpp', I + 'actuation/squashing-base.hpp', I + 'actuation/squashing/smooth-sat.hpp'],
  [('smooth saturation', I + 'actuation/squashing/smooth-sat.hpp'), ('composition', I + 'actuation/actuation-squashing.hpp')])

p('P08', 'Vector state: integrate and diff are inverse and Jacobians exact',
  'On a vector state, integrating the difference of two states from the first gives the second, the difference of an integrated state recovers the increment, and the reported Jacobians of both maps are their exact derivatives for every requested component and assignment mode. Matrices that are only set to a Jacobian hold exactly that Jacobian whatever they contained before, and transported Jacobians equal multiplication by the integration Jacobian.',
  ['inputs'], 'all dimensions, states, increments, components, assignment modes and prior contents of the output matrices',
  'Tests start from zeroed output matrices and sample one state dimension.',
  [I + 'states/euclidean.hpp', I + 'states/euclidean.hxx', I + 'state-base.hxx'], [('vector state operations', I + 'states/euclidean.hxx')])

p('P09', 'Residual costs are the activated residual with Gauss-Newton derivatives',
  'A residual cost equals the activation of its residual, its gradients equal the residual Jacobian transposed times the activation gradient, and its Hessian blocks equal the Gauss-Newton products with the activation curvature, whatever subset of configuration, velocity and control the residual depends on. At terminal evaluation the control blocks do not contribute, and blocks that a residual does not depend on stay zero.',
  ['inputs', 'configurations'], 'all residuals, activations, dependency flags, dimensions, states and controls',
  'Tests exercise the residuals that the test factory builds and compare with finite differences.',
  [I + 'residual-base.hxx', I + 'costs/residual.hxx', I + 'residuals/control.hxx', I + 'residuals/joint-acceleration.hxx', I + 'residuals/joint-effort.hxx', I + 'cost-base.hxx'],
  [('Gauss-Newton assembly', I + 'residual-base.hxx'), ('residual cost', I + 'costs/residual.hxx')])

p('P10', 'A cost collection is the weighted sum of its active costs',
  'The value, gradients and Hessians of a cost collection are exactly the sums over its active items of weight times the item quantity, computed afresh at each call, for running and terminal calls. After any sequence of additions, removals and status changes, the reported active and inactive names and the total active residual dimension match the items it holds.',
  ['inputs', 'histories'], 'all numbers of items, weights, activity patterns and edit histories',
  'Tests add two or three fixed items and toggle one.',
  [I + 'costs/cost-sum.hpp', I + 'costs/cost-sum.hxx'], [('sum', I + 'costs/cost-sum.hxx')],
  [('active set', 'items that contribute'), ('dimension counters', 'sum of the residual dimensions of active items')])

p('P11', 'A constraint collection stacks its active constraints consistently',
  'A constraint collection writes the values, bounds and Jacobians of its active constraints one after another in item order, without gaps or overlaps, inequality rows and equality rows separately, for running and terminal calls. After any sequence of additions, removals and status changes the reported numbers of constraints and the active and inactive names match the items it holds.',
  ['inputs', 'histories'], 'all numbers of items, sizes, activity patterns and edit histories',
  'Tests add a few fixed constraints and toggle one at a time.',
  [I + 'constraints/constraint-manager.hpp', I + 'constraints/constraint-manager.hxx'], [('stacking', I + 'constraints/constraint-manager.hxx')])

p('P12', 'Residual constraints expose residual, Jacobian and bounds faithfully',
  'A residual constraint reports the residual as inequality values when it has bounds and as equality values otherwise, with the residual Jacobians as derivatives, and never writes the other kind. Bounds given at construction or replaced later are accepted exactly when well formed (matching size, lower not above upper, no undefined entries, no lower bound at plus infinity or the largest value, no upper bound at minus infinity or the lowest value) and stored; rejected calls leave the model unchanged; removing the bounds turns all rows into equalities.',
  ['inputs', 'histories'], 'all residuals, dimensions, bounds and sequences of bound updates',
  'Tests use a fixed residual and valid bounds only.',
  [I + 'constraint-base.hxx', I + 'constraints/residual.hxx'], [('bounds', I + 'constraint-base.hxx'), ('residual constraint', I + 'constraints/residual.hxx')])

p('P13', 'Numerical differentiation returns plain finite differences',
  'Numerically differentiated models return, for every input coordinate, the forward-difference quotient of the wrapped model evaluated at the point displaced along that coordinate only, by one common step per group of inputs (the configured disturbance, scaled by the size of that input), and the values of the wrapped model at the point itself. Cost Hessians are products of the residual quotients in Gauss-Newton mode and second differences of the cost otherwise (optimised builds). The result does not depend on previous calls; a negative disturbance is rejected.',
  ['inputs', 'histories'], 'all wrapped models, dimensions, points and disturbances',
  'Tests use the numerical derivatives as the oracle and never check them.',
  [I + 'numdiff/%s.hxx' % k for k in ('action', 'diff-action', 'state', 'activation', 'residual', 'constraint', 'cost', 'actuation', 'control')], [('finite differences', I + 'numdiff/')])

p('P14', 'Shooting problem evaluates every node at its own state and control',
  'Evaluating a shooting problem calls each running node once with its own state and control and the terminal node with the last state, and returns the sum of all node costs; differentiation does the same and returns the same cost. A rollout starts from the initial state and each next state is the one the corresponding node computed; quasi-static controls are computed node by node.',
  ['inputs', 'configurations'], 'all horizons, node models (also with different dimensions), states and controls, any number of threads',
  'Tests use one model repeated over a short horizon.',
  [I + 'optctrl/shooting.hpp', I + 'optctrl/shooting.hxx'], [('calc, calcDiff, rollout', I + 'optctrl/shooting.hxx')])

p('P15', 'Editing a shooting problem keeps nodes, data and dimensions aligned',
  'After any sequence of node replacements and circular appends, node i holds the model and the data that were paired when supplied, the other nodes keep their order, the horizon length is unchanged, and dimensions agree. An edit with an incompatible model, data, index or state is rejected with an error and leaves the problem unchanged.',
  ['histories', 'inputs'], 'all horizons, indices and edit histories',
  'Tests append or update once and compare sizes.',
  [I + 'optctrl/shooting.hpp', I + 'optctrl/shooting.hxx'], [('circularAppend, updateNode, updateModel', I + 'optctrl/shooting.hxx')])

p('P16', 'DDP backward pass implements the regularised Riccati recursion',
  'At every node the backward pass of the differential dynamic programming solvers sets the action-value terms to the cost derivatives plus the dynamics Jacobians applied to the next value function (including the dynamic gaps), applies the control and state regularisation, obtains feedback and feedforward gains by solving with the regularised control Hessian, and sets the value function to the resulting quadratic, symmetric model, starting from the terminal cost. If a factorisation fails or a value is not finite the pass reports an error rather than returning gains.',
  ['inputs', 'configurations'], 'all horizons, per-node dimensions, derivatives, gaps and regularisation values',
  'Tests only check that whole solves converge on a few problems.',
  [S + 'solvers/ddp.cpp', S + 'solvers/fddp.cpp', I + 'solvers/ddp.hpp'], [('backward pass', S + 'solvers/ddp.cpp')],
  [('value function', 'quadratic cost-to-go model per node'), ('gains', 'feedback and feedforward terms')])

p('P17', 'Trial trajectories are rolled out with the computed policy',
  'A trial step of the shooting solvers starts from the initial state (closing each dynamic gap by the step length when gaps are kept open), applies at each node the feedforward term scaled by the step length and the feedback on the state deviation, takes each next state from the node dynamics at exactly that state and control, and reports as trial cost the sum of the node costs there. Non-finite states or costs make the trial fail instead of being returned.',
  ['inputs', 'configurations'], 'all horizons, per-node dimensions, gains, step lengths, feasibility states',
  'Tests only observe the converged solution.',
  [S + 'solvers/ddp.cpp', S + 'solvers/fddp.cpp', S + 'solvers/box-ddp.cpp', S + 'solvers/box-fddp.cpp'], [('forward pass', S + 'solvers/ddp.cpp'), ('multiple-shooting forward pass', S + 'solvers/fddp.cpp')])

p('P18', 'Predicted improvement and stopping measures match the quadratic model',
  'The first- and second-order terms of the predicted cost improvement equal the documented terms of the local quadratic model of the problem along the search direction, including, in the feasibility-driven solvers, the contribution of the dynamic gaps taken at the current trial; on linear-quadratic problems they predict the actual decrease exactly, for every step length when the gaps are closed and for the full step otherwise. The stopping measure of each solver is the documented norm of the control gradient of that model.',
  ['inputs', 'configurations'], 'all horizons, dimensions, gains, gaps and feasibility states',
  'Tests never read these quantities.',
  [S + 'solvers/ddp.cpp', S + 'solvers/fddp.cpp', S + 'solvers/kkt.cpp', S + 'solvers/intro.cpp'], [('expected improvement', S + 'solvers/fddp.cpp')])

p('P19', 'Solver loops accept only sufficient steps and keep regularisation in range',
  'A solve replaces its current candidate only by a trial that passed the acceptance test of its merit decrease, so the cost of accepted feasible iterates follows that test, and it reports success only when the stopping measure is below the tolerance; it performs at most the requested number of iterations. Regularisation stays within its configured range, and reaching the maximum after a failed pass ends the solve with failure instead of looping.',
  ['inputs', 'histories', 'configurations'], 'all problems, iteration limits, thresholds, regularisation settings and sequences of failed or accepted trials',
  'Tests solve a handful of well-posed problems that never reach the rejection and failure paths.',
  [S + 'solvers/ddp.cpp', S + 'solvers/fddp.cpp', S + 'solvers/intro.cpp', S + 'solvers/kkt.cpp'], [('solve loops', S + 'solvers/ddp.cpp'), ('regularisation updates', S + 'solvers/ddp.cpp')])

p('P20', 'Box-constrained QP solutions are feasible and classify every variable',
  'For any Hessian, gradient, ordered bounds (lower not above upper) and warm start accepted by the box-constrained QP solver with at least one iteration allowed, the returned point lies within the bounds, every variable is listed exactly once as free or clamped in increasing order, clamped variables sit at a bound whose gradient sign holds them there, and the returned inverse is that of the free block of the (regularised) Hessian. Calls with mismatched sizes or invalid settings are rejected.',
  ['inputs', 'histories'], 'all sizes, positive-definite Hessians, gradients, bounds (also degenerate), warm starts, and repeated calls',
  'Tests solve random problems of one size, with bounds that are all inactive or all equal.',
  [S + 'solvers/box-qp.cpp', I + 'solvers/box-qp.hpp'], [('box QP', S + 'solvers/box-qp.cpp')])

p('P21', 'Box-constrained solvers never leave the control limits',
  'In the box-constrained shooting solvers every control of a trial trajectory lies within the limits of its node whenever that node declares limits, and the gains come from the box-constrained quadratic subproblem over the remaining control range, with zero feedback on clamped controls. Nodes without limits are treated exactly like in the unconstrained solvers.',
  ['inputs', 'configurations'], 'all horizons, limits, per-node dimensions, gains and step lengths',
  'Tests solve a few problems whose limits are rarely active.',
  [S + 'solvers/box-ddp.cpp', S + 'solvers/box-fddp.cpp'], [('gains and clamped forward pass', S + 'solvers/box-ddp.cpp')])

p('P22', 'Equality-constrained solver steps satisfy the linearised constraints',
  'When the equality-constrained solver computes a step with full-rank control Jacobians of the constraints, the resulting policy satisfies the linearised equality constraints at each node for every state deviation and minimises the quadratic model in the remaining directions, for each of its nullspace parametrisations. Without equality constraints it reduces to the unconstrained gains.',
  ['inputs', 'configurations'], 'all horizons, dimensions, numbers of constraints, derivatives and nullspace parametrisations',
  'Tests check convergence on two or three problems.',
  [S + 'solvers/intro.cpp', I + 'solvers/intro.hpp'], [('nullspace policy', S + 'solvers/intro.cpp')])

p('P23', 'The KKT solver assembles the exact linear-quadratic optimality system',
  'The matrix and vector built by the full-space solver are exactly the Hessian, Jacobian and gradient blocks of the stacked problem in node order, with zero elsewhere, whatever the previous contents, and its candidate is the current trajectory plus the step length times the solved primal step. Nodes with different control dimensions get disjoint consecutive blocks.',
  ['inputs', 'configurations'], 'all horizons, per-node dimensions, derivatives, step lengths',
  'Tests solve one linear-quadratic problem.',
  [S + 'solvers/kkt.cpp', I + 'solvers/kkt.hpp'], [('KKT assembly', S + 'solvers/kkt.cpp')])

p('P24', 'The interior-point interface describes the same problem as the nodes',
  'The nonlinear program handed to the interior-point library has one variable block per node state increment and control and one constraint block per dynamic gap, with disjoint consecutive positions, and its bounds, cost, cost gradient, constraint values and constraint Jacobian are those of the shooting problem at the given point; the Hessian it announces is the Gauss-Newton Hessian of the cost at that point (the curvature of the gaps is neglected), lower triangle, scaled by the requested objective factor; every announced nonzero is listed exactly once with its position. This holds for every evaluation order the library may choose, for problems with nodes of different control dimensions (one state dimension), and again after the problem was edited and the interface resized.',
  ['inputs', 'schedules', 'configurations'], 'all horizons, per-node dimensions, points, evaluation orders',
  'Tests (when built) solve two unconstrained problems.',
  [S + 'solvers/ipopt/ipopt-iface.cpp', I + 'solvers/ipopt/ipopt-iface.hpp'], [('NLP callbacks', S + 'solvers/ipopt/ipopt-iface.cpp')])

p('P25', 'Feasibility measures equal the norm of all constraint violations',
  'The dynamic, equality and inequality feasibility reported by the solvers equal the chosen norm (largest absolute entry or sum of absolute values) of, respectively, all dynamic gaps including the initial one, all running and terminal equality values, and all running and terminal inequality violations of their (ordered) bounds. Every derivative evaluation of the solvers refreshes the three measures together with the gaps.',
  ['inputs', 'configurations'], 'all horizons, per-node constraint dimensions, values, bounds and both norms',
  'Tests never compare these measures with an independent computation.',
  [S + 'solver-base.cpp', I + 'solver-base.hpp'], [('feasibility measures', S + 'solver-base.cpp')])

p('P26', 'Solver candidates and settings are validated and stored faithfully',
  'Setting a candidate trajectory stores exactly the given states and controls (or the neutral ones when omitted) and the feasibility flag, and rejects sequences whose length or element sizes do not match the problem, and every out-of-range solver setting is rejected leaving the previous value. Accepted settings are the ones later returned and used.',
  ['inputs', 'histories'], 'all horizons, sequence lengths, element sizes and setting values',
  'Tests only pass valid candidates and default settings.',
  [S + 'solver-base.cpp', S + 'solvers/ddp.cpp', S + 'solvers/fddp.cpp', S + 'solvers/box-qp.cpp', S + 'solvers/intro.cpp'], [('candidate and parameter setters', S + 'solver-base.cpp')])

p('P27', 'Model evaluations reject mis-sized arguments before changing anything',
  'Calling an evaluation or differentiation of any built-in action (LQR, unicycle, Euler and Runge-Kutta integrators, numerically differentiated actions), cost collection, constraint collection, activation, control parametrisation or vector state with a state, control, residual or increment of the wrong size raises an error, and the call leaves the data and every output argument unchanged; so does a quasi-static control or torque transform, a Jacobian product or bound conversion with a matrix of the wrong size, and a collection called with data of another collection size. Jacobians requested from the vector state must have the right size too. Correctly sized arguments are never rejected. Arguments a call does not use (the points of the constant Jacobians of the vector state, the parameters in calcDiff of a parametrisation) are outside the claim.',
  ['inputs'], 'all public evaluation entry points, all argument sizes',
  'Tests always pass correctly sized arguments.',
  [I + 'actions/lqr.hxx', I + 'integrator/euler.hxx', I + 'states/euclidean.hxx', I + 'costs/cost-sum.hxx', I + 'constraints/constraint-manager.hxx'], [('argument checks', I)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
