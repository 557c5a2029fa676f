#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=(),state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],hook_needed=None)))

prop("C01","Multi-index traversal visits every index combination once, in order",
 "Iterating over a multi-index range visits every combination of indices between the (inclusive) lower and upper bounds exactly once, in row-major order with the last index fastest, and reaches the end position right after the last combination. Begin, end and reset positions are the ones that make this true, for any rank and any bounds.",
 ["inputs"],"every rank of the supported instantiations, all integer lower and upper bounds with lower<=upper, every reachable position",
 "The unit tests walk two fixed index boxes; an off-by-one in the carry of a higher index or with non-zero lower bounds needs other boxes.",
 ["CPPQEDutils/MultiIndexIterator.h"],[("carry propagation in increment","MultiIndexIterator::operator++ / doIt<N>"),("begin/end construction","MultiIndexIterator constructors, getBegin/getEnd, setToBegin/setToEnd")],
 ["positions returned by dereferencing the iterator","equality with the end iterator"])

prop("C02","An adaptive ODE step never oversteps and accounts time exactly",
 "One adaptive step of an ODE engine asked to go at most deltaT moves the time by exactly the amount it reports as the step done, never by more than deltaT and never against its direction. When deltaT is much smaller than the trial step, the trial step remembered for the next call is the one from before the truncation; otherwise it is the one the error control proposed. Every accepted step, failed attempt and derivative evaluation is counted exactly once.",
 ["inputs","histories"],"all deltaT, all previous trial/done step sizes, any number of failed attempts, any behaviour of the controlled stepper allowed by its contract",
 "Tests integrate two fixed problems with one sign of time and never with a tiny last step or an adversarial stepper.",
 ["CPPQEDutils/ODE.h","CPPQEDutils/ODE_GSL.h"],[("truncation of dtTry to deltaT, restoration of nextDtTry","ode_engine::Base::step"),("GSL attempt: halve on failure, advance on success","ControlledErrorStepperGSL::try_step")],
 ["time argument after step","getDtDid/getDtTry","logger counters"])

prop("C03","Relative and absolute tolerances keep their roles down to the stepper",
 "The relative precision a user gives to an ODE engine is the one the underlying stepper uses relative to the state, and the absolute precision is the one it uses as absolute floor; neither the boost nor the GSL back end exchanges or alters them, and the reported parameters are the ones in force.",
 ["inputs","configurations"],"all pairs of tolerances, both ODE back ends, both ways of constructing an engine",
 "The tests only use one default pair of tolerances and compare with a loose bound, so exchanging the two is invisible.",
 ["CPPQEDutils/ODE.h","CPPQEDutils/ODE_GSL.h"],[("MakeControlledErrorStepper","boost and GSL specialisations"),("gsl_odeiv2_control_standard_new / make_controlled","argument order")],
 ["arguments reaching the stepper library"])

prop("C04","Trajectories are advanced to exactly the requested times",
 "Advancing a trajectory over an interval (or to a time) performs steps until exactly that time is reached, each step being asked for exactly the time still remaining, and never leaves the trajectory short of or beyond the target. Running with a display interval produces output at exactly t0, t0+Dt, t0+2Dt, ... up to the final time, and with a step count it displays after every dc-th step.",
 ["inputs","histories"],"all start times, intervals, and step-size histories of the underlying stepper",
 "Tests run fixed schedules of one oscillator.",
 ["CPPQEDutils/Trajectory.h"],[("advance / evolve loops","cppqedutils::advance, advanceTo, run")],["getTime after advance/run","calls to stream/stateIO"])

prop("C05","Composite jump channels map to exactly their owner and local index",
 "In a composite system every dissipation channel index selects exactly one channel of exactly one constituent, constituents being concatenated in the documented order; total channel and average counts are the sums over constituents, whichever of them have channels. The rate at an index, the jump applied for that index and the superoperator for that index always refer to the same constituent and the same local channel, and each constituent acts on its own degrees of freedom only.",
 ["inputs","configurations"],"all subsets of constituents possessing jumps/averages, all channel counts, all channel indices, all states",
 "The stable tests never build a composite with several dissipative constituents.",
 ["CPPQEDcore/composites/BinarySystem.cc","CPPQEDcore/composites/Composite.tcc","CPPQEDcore/composites/BinarySystem.h","CPPQEDcore/composites/Composite.h"],
 [("running subtraction of channel counts","binary::Liouvillean::actWithJ_v/actWithSuperoperator_v/rates_v"),("same for general composites","composite::Liouvillean, composite::Averaged")],
 ["state after actWithJ","density operator derivative","rates array"])

prop("C06","Composite dynamics is the sum of its constituents', each once, in place",
 "The Hamiltonian contribution of a composite is the sum of the contributions of all its free and interaction constituents, each evaluated exactly once at the same times and acting only on its own degrees of freedom, leaving every other one untouched; likewise the exact propagator of a composite is the product of the constituents' propagators. Constituents without a Hamiltonian or exact part contribute nothing.",
 ["inputs","configurations"],"all subsets of constituents having Hamiltonian / exact parts, all dimensions of the subsystems, all states and times",
 "No stable test evaluates the dynamics of a composite.",
 ["CPPQEDcore/composites/BinarySystem.cc","CPPQEDcore/composites/Composite.tcc"],[("slice iteration + dispatch","binary::Hamiltonian::addContribution_v, binary::Exact::actWithU_v, composite counterparts")],
 ["dpsidt after addContribution","psi after actWithU"])

prop("C07","Slices of a multipartite array partition it and alias the right elements",
 "Iterating over the slices of an array for a set of retained indices yields, for every combination of the other (dummy) indices exactly once in row-major order, a view whose element at retained indices r is the array element obtained by inserting r at the retained positions; so the slices partition the array and writes through a slice reach exactly those elements.",
 ["inputs"],"all extents of all dimensions, all retained index choices (including reordered ones) of the supported ranks, all elements",
 "The tests check a few fixed small arrays for a few retained-index vectors.",
 ["CPPQEDutils/SliceIterator.h","CPPQEDutils/SliceIterator.tcc","CPPQEDutils/VectorFromMatrixSliceIterator.h"],[("Transposer and Indexer","SliceIterator.tcc"),("filterOut","SliceIterator.h")],
 ["addresses of slice elements"])

prop("C08","Tridiagonal operators behave as the matrices they stand for",
 "Applying a tridiagonal operator to a state adds exactly the action of the matrix it represents; sums, scalar multiples, Hermitian conjugates, direct products and interaction-picture propagation of such operators represent the corresponding matrix sums, multiples, conjugate transposes, Kronecker products and element-wise phase factors.",
 ["inputs"],"all dimensions, all off-diagonal distances, all matrix elements, states, times and frequencies",
 "Only compile-level tests touch tridiagonal operators; no test compares them to a matrix.",
 ["CPPQEDcore/quantumoperator/Tridiagonal.h","CPPQEDcore/quantumoperator/Tridiagonal.tcc","CPPQEDcore/quantumoperator/Tridiagonal.cc"],[("apply loops and index ranges","Tridiagonal.tcc apply/doApply"),("operator algebra","operator+=, dagger, direct product, propagate, furnishWithFreqs")],
 ["dpsidt after apply","diagonals of the result"])

prop("C09","The Master-equation derivative is Hermitian and of Lindblad form",
 "For a Hermitian density operator the derivative computed by the Master equation engine equals (K rho + (K rho)^dagger) plus the sum over all dissipation channels of J rho J^dagger, K being the Hamiltonian over i the system supplies, applied to every ket slice of rho exactly once; it is therefore Hermitian. After a step the density operator is transformed with U rho U^dagger of the interaction picture and made exactly Hermitian without changing its Hermitian part.",
 ["inputs","configurations"],"all dimensions, all Hermitian density operators, any system contract",
 "No stable test evaluates a Master-equation derivative.",
 ["CPPQEDcore/quantumtrajectory/Master.h","CPPQEDcore/quantumtrajectory/Master.tcc","CPPQEDutils/ComplexArrayExtensions.h","CPPQEDcore/structure/Liouvillean.h"],[("slice-wise Hamiltonian + twice real part + superoperators","Master::step / derivative"),("JρJ† fallback from jumps","Liouvillean / ElementLiouvillean")],
 ["drhodt"])

prop("C10","Jump rates, jumps and superoperators describe the same channel",
 "For every decay channel of the stock elements the jump rate equals the squared norm of the state the jump produces, the jump is linear, the superoperator adds exactly J rho J^dagger, and the anti-Hermitian part of the element's Hamiltonian equals minus one half of the sum of J^dagger J, so that norm decay and jump probability balance.",
 ["inputs"],"all cutoffs, rates, temperatures, states and density operators; every picture of the element",
 "No stable test builds a lossy element.",
 ["CPPQEDelements/frees/Mode.cc","CPPQEDelements/frees/Mode_.h","CPPQEDelements/frees/Mode.tcc","CPPQEDelements/frees/Qbit.cc","CPPQEDelements/frees/Spin.cc","CPPQEDelements/frees/MultiLevel.h"],[("jump/superoperator loops","mode::details::aJump etc."),("decay in Hamiltonian","constructors of lossy elements")],
 ["state after actWithJ","rates","drhodt","addContribution"])

prop("C11","Element Hamiltonians have the documented matrix elements",
 "The Hamiltonians of the stock elements (mode, qbit, spin, Jaynes-Cummings, coupled modes) have exactly the matrix elements of the documented model, in every picture; with loss switched off, the evolution they generate preserves the norm of every state.",
 ["inputs","configurations"],"all cutoffs, parameters, states and times, all pictures",
 "No stable test evaluates an element Hamiltonian.",
 ["CPPQEDelements/frees/Mode.cc","CPPQEDelements/frees/Qbit.cc","CPPQEDelements/frees/Spin.cc","CPPQEDelements/interactions/JaynesCummings_.h","CPPQEDelements/interactions/CoupledModes.cc"],[("ladder operators and main diagonals","mode::aop, mainDiagonal, pumping, spin::splus")],
 ["dpsidt after addContribution"])

prop("C12","Exact propagators depend on the elapsed time only and start at identity",
 "Applying the exact (interaction-picture) propagator of a free element multiplies each amplitude by the exponential of its own frequency times the elapsed time, for every sequence of calls with equal or different times; zero elapsed time leaves the state unchanged.",
 ["inputs","histories"],"all sequences of calls with arbitrary times, all frequencies and states",
 "No stable test applies a propagator; the cached diagonal makes the outcome depend on the call history.",
 ["CPPQEDcore/structure/FreeExact.h","CPPQEDcore/structure/FreeExact.cc","CPPQEDelements/frees/Mode.cc"],[("cached diagonal keyed by time","FreeExact::actWithU_v/updateU")],
 ["psi after actWithU"])

prop("C13","Density-operator (de)serialisation into real vectors is lossless",
 "Flattening a Hermitian density operator into its vector of real numbers and restoring it gives back the same operator, and the vector lists the populations followed by the real and imaginary parts of the upper off-diagonal elements in row-major order.",
 ["inputs"],"all dimensions and all density operators","Tests do not call deflate/inflate on general matrices.",
 ["CPPQEDcore/quantumdata/DensityOperator.h","CPPQEDcore/quantumdata/LazyDensityOperator.h"],[("index layout","quantumdata::deflate, inflate")],["arrays returned by deflate / inflate"])

prop("C14","Reduced density operators are genuine partial traces",
 "Viewing a state as a density operator yields psi_i conj(psi_j); reducing a pure state or density operator to any subset of subsystems yields the partial trace over the others, so that Hermiticity and trace are preserved.",
 ["inputs"],"all dimensions, states and retained subsystems of the supported ranks","Tests check entropy and negativity of a few fixed states.",
 ["CPPQEDcore/quantumdata/LazyDensityOperator.h","CPPQEDcore/quantumdata/StateVector.h","CPPQEDcore/quantumdata/DensityOperator.h"],[("partialTrace over slices","LazyDensityOperator.tcc"),("reduce","quantumdata::reduce")],["matrix elements of the reduced operator"])

prop("C15","Complex-array helpers implement their matrix identities",
 "The array helpers compute exactly what they document for every size: M+M^dagger in place, Hermitian conjugation, matrix action on a vector, and direct (outer) products with the documented index order, leaving inputs other than the documented output unchanged.",
 ["inputs"],"all sizes and all element values","Tests use one or two fixed matrices.",
 ["CPPQEDutils/ComplexArrayExtensions.h","CPPQEDutils/ComplexArrayExtensions.cc","CPPQEDutils/BlitzArrayExtensions.h","CPPQEDutils/CMatrix.cc"],[("loops over (i,j) pairs","calculateTwoTimesRealPartOfSelf"),("doDirect","ComplexArrayExtensions.h")],["output arrays"])

prop("C16","The parameter table keeps names unique and values addressable",
 "Every parameter registered in the table is retrievable by exactly its (modified) name with the value last assigned and the registered default otherwise; registering a name twice or using an unregistered name is rejected; a boolean switch and its negated form always have opposite values.",
 ["inputs","histories"],"all sequences of registrations and assignments","No stable test exercises the parameter table beyond defaults.",
 ["CPPQEDutils/Pars.h","CPPQEDutils/Pars.cc","CPPQEDutils/BooleanNegatedProxy.h"],[("duplicate detection","Table::add"),("command-line update","parameters::update")],["values after update"])

prop("C17","Combinatorial and numerical helpers meet their mathematical definitions",
 "Combinations with repetition are enumerated completely, each once, each with the right total, and looked up by their own index; sign, squares, parity signs, rounding and coherent-state amplitudes alpha^n/sqrt(n!) equal their mathematical definitions (sign of zero being 1), factorials beyond 170 are refused; the driven damped oscillator reference solution satisfies its differential equation and initial conditions for all parameters.",
 ["inputs"],"all arguments / parameters","Tests check single values.",
 ["CPPQEDutils/Combinatorics.h","CPPQEDutils/MathExtensions.h","CPPQEDutils/MathExtensions.cc","CPPQEDutils/DrivenDampedHarmonicOscillator.cc"],[("recursive construction","CWR_Dir"),("regime selection","makeDDHO")],["returned values"])

prop("C18","Quantum jumps are drawn by their rates and leave a normalised state",
 "In the Monte Carlo wave-function method a jump of channel i happens in a step exactly when the random number falls in the i-th of the consecutive intervals of length rate_i*dt, at most one jump happens per step, the state after a jump is the normalised jump result, and without jump it is the normalised no-jump state; a step whose total jump probability exceeds the limit by the overshoot tolerance is undone and retried with a smaller step.",
 ["inputs","histories"],"all rates, random numbers, step sizes and states allowed by the element contracts","The Monte Carlo trajectory is not even compiled by the stable tests.",
 ["CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h","CPPQEDcore/quantumtrajectory/MCWF_TrajectoryLogger.h"],[("performJump / step","MCWF_Trajectory.h")],["psi after step","logged jumps"])

prop("C19","Saved trajectory states restore to an identical continuation",
 "Writing a trajectory's state and reading it back restores time, state, step sizes and counters exactly, and a state file of another type or rank is rejected.",
 ["histories","crash_points"],"all states and all points of a run at which state is saved","Round trips are tested for one type at one point.",
 ["CPPQEDutils/Trajectory.h","CPPQEDutils/Archive.h","CPPQEDutils/ODE.h","CPPQEDutils/Simulated_.h","CPPQEDutils/Random.h","CPPQEDcore/quantumtrajectory/Master.h","CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h","CPPQEDcore/quantumtrajectory/MCWF_TrajectoryLogger.h"],[("stateIO","Trajectory classes"),("SerializationMetadata","Trajectory.h")],["archive contents"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
