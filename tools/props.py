#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=None, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

SMOKE = ("The suite only checks that each program exits 0 with finite numbers and writes a file; it compares "
         "nothing with an independent value, and it runs one or two settings of each program.")

prop("C01", "Results do not depend on the number of processes or patches",
 "For the same configuration and initial data, a run produces the same global state, diagnostics and checksums, up to rounding-level "
 "reordering, no matter how many processes it uses or how the domain is divided into patches and assigned to processes. "
 "Every point of the domain is owned exactly once in every division.",
 ["configurations", "schedules"],
 "All process counts and patch divisions the grids accept (cubed sphere and Cartesian), all equation sets, time schemes and staggerings.",
 "Tests run each program on at most a couple of process counts and never compare the two answers.",
 ["src/atm/GridCSGLL.cpp", "src/atm/GridCartesianGLL.cpp", "src/atm/Grid.cpp", "src/atm/Connectivity.cpp", "src/atm/GridPatch.cpp"],
 [("default patch layout", "GridCSGLL::ApplyDefaultPatchLayout, GridCartesianGLL::ApplyDefaultPatchLayout"),
  ("patch distribution", "Grid::DistributePatches"), ("exchange", "Grid::Exchange"), ("reduction", "Grid::Checksum")],
 ["global state after N steps, merged over patches and ranks"])

prop("C02", "Halo exchange delivers each neighbour's values to the right place",
 "After an exchange completes, every halo point that lies across an edge shared with another patch or panel (or across a periodic boundary) holds exactly the "
 "value owned by the point of the neighbour that lies there, with the neighbour's index directions followed correctly, for every "
 "level, variable and kind of field. Nothing inside a patch is altered, and this holds whatever the message timing.",
 ["configurations", "schedules"],
 "All pairs of neighbouring panels/patches, process counts, field kinds, halo sizes, and arrival orders of messages.",
 SMOKE + " A wrong halo value on a few points still gives a finite run.",
 ["src/atm/Connectivity.cpp", "src/atm/GridPatch.cpp", "src/atm/Grid.cpp", "src/atm/GridCSGLL.cpp", "src/atm/CubedSphereTrans.cpp", "src/atm/Direction.cpp"],
 [("pack/unpack", "GridPatch::PackExchangeBuffer, GridPatch::UnpackExchangeBuffer"),
  ("buffers", "ExchangeBufferRegistry"), ("panel adjacency", "CubedSphereTrans::OpposingPanelFromPanel / RelativeCoord helpers")],
 ["state arrays after Grid::Exchange"])

prop("C03", "The solution is single-valued at points shared by elements and panels",
 "After initialisation and after every time step, all copies of a physical point (on element, patch and panel boundaries) carry the same scalar values and the same "
 "physical velocity vector, up to rounding. The averaging that makes copies agree leaves already continuous fields and constants unchanged and preserves the area-weighted integral.",
 ["configurations", "inputs"],
 "All dynamics, time schemes, staggerings and grids; arbitrary discontinuous fields handed to the averaging operation.",
 SMOKE,
 ["src/atm/GridCSGLL.cpp", "src/atm/GridGLL.cpp", "src/atm/GridCartesianGLL.cpp", "src/atm/HorizontalDynamicsFEM.cpp"],
 [("direct stiffness summation", "GridCSGLL::ApplyDSS, GridCartesianGLL::ApplyDSS, GridGLL::PostProcessSubstage")],
 ["state arrays at collocated nodes"])

prop("C04", "Total dry mass and total tracer mass are conserved",
 "In a domain closed by solid or periodic boundaries, the global integral of air density (or fluid depth) and of every tracer density stays at its initial value to rounding accuracy over any number of steps, with or without topography and diffusion; the limiter for negative tracers keeps each element's tracer mass wherever that mass is not itself negative.",
 ["configurations", "histories"],
 "All equation sets, horizontal and vertical methods, time schemes, staggerings, orders, grids, initial states that stay finite.",
 SMOKE + " Conservation is never measured.",
 ["src/atm/HorizontalDynamicsFEM.cpp", "src/atm/HorizontalDynamicsFEMV2.cpp", "src/atm/VerticalDynamicsFEM.cpp", "src/atm/GridPatchGLL.cpp", "src/atm/GridPatchCSGLL.cpp"],
 [("weak-form flux divergence", "HorizontalDynamicsFEM::StepShallowWater, StepNonhydrostaticPrimitive"),
  ("vertical mass flux", "VerticalDynamicsFEM::StepImplicit/StepExplicit"), ("weights", "element area arrays")],
 ["area-weighted sums of the state after each step"])

prop("C05", "Tracers are transported consistently with the air and stay non-negative",
 "A tracer whose initial mixing ratio is uniform keeps a uniform mixing ratio (except under diffusion of shallow water over topography, where depth and tracer are diffused differently), and tracers started as the same field stay the same field wherever they are in the tracer list. When the non-negativity filter is applied after a step no tracer density is negative, the filter never changes an element's tracer mass when that mass is non-negative, and it changes nothing where the tracer was non-negative.",
 ["configurations", "inputs", "histories"],
 "All schemes carrying tracers, any number of tracers, any initial tracer field.",
 "One shipped program carries tracers in the suite and nothing looks at their values.",
 ["src/atm/HorizontalDynamicsFEM.cpp", "src/atm/VerticalDynamicsFEM.cpp", "src/atm/TimestepSchemeStrang.cpp", "src/atm/TimestepSchemeARS222.cpp"],
 [("tracer update", "HorizontalDynamicsFEM::StepNonhydrostaticPrimitive, VerticalDynamicsFEM::UpdateColumnTracers"),
  ("filter", "HorizontalDynamicsFEM::FilterNegativeTracers")],
 ["tracer arrays after each step"])

prop("C06", "Known steady states stay steady and flow past the discretisation error only",
 "A lake at rest over any topography and a motionless uniform fluid stay at rest to rounding. An atmosphere at rest in hydrostatic balance over flat ground keeps zero horizontal wind and stays horizontally uniform to rounding, and departs in the vertical only by a discretisation error that vanishes as levels are refined; over terrain the spurious motion converges to zero with resolution. Balanced zonal shallow-water flow, at any rotation angle of its axis, departs from its exact steady state only by a discretisation error that vanishes at the scheme's spectral rate as the grid is refined, and a uniform flow in a flat non-rotating box persists.",
 ["configurations", "inputs"],
 "All rotation angles, panels, horizontal orders, staggerings, time schemes and columns.",
 SMOKE,
 ["src/atm/HorizontalDynamicsFEM.cpp", "src/atm/VerticalDynamicsFEM.cpp", "src/atm/GridPatchCSGLL.cpp", "src/atm/GridPatchCartesianGLL.cpp", "src/atm/EquationSet.cpp"],
 [("pressure gradient and Coriolis terms", "HorizontalDynamicsFEM::StepShallowWater, StepNonhydrostaticPrimitive"),
  ("hydrostatic balance", "VerticalDynamicsFEM::BuildF"), ("reference state", "GridPatch*::EvaluateTestCase")],
 ["state after N steps minus initial state"])

prop("C07", "Every time-integration scheme attains its order and treats all data alike",
 "For smooth problems each selectable scheme converges in the step size at its documented order, for the explicit part, the implicit part and the two coupled, applied equally to state and tracers, and on the real model all schemes converge to the same solution, with the vertical treated implicitly or explicitly. With tendencies that are zero, a step leaves the state and tracers as they were, up to rounding.",
 ["configurations", "inputs", "histories"],
 "All selectable schemes, right-hand sides, step sizes and sequences of steps.",
 "The tests run some schemes for a few steps and look only for finite numbers; a wrong coefficient of a consistent scheme is invisible.",
 ["src/atm/TimestepSchemeStrang.cpp", "src/atm/TimestepSchemeERK.cpp", "src/atm/TimestepSchemeARS222.cpp", "src/atm/TimestepSchemeARS232.cpp", "src/atm/TimestepSchemeARK232.cpp", "src/atm/TimestepSchemeARS343.cpp", "src/atm/TimestepSchemeARS443.cpp", "src/atm/TimestepSchemeGARK2.cpp", "src/atm/TimestepSchemeSSP3332.cpp"],
 [("tableaux and stage combination", "TimestepScheme*::Step"), ("linear combination of instances", "GridPatch::LinearCombineData, GridPatch::CopyData")],
 ["state after T under scripted right-hand sides substituted through the public dynamics interfaces"])

prop("C08", "A run stopped and restarted from its checkpoint continues identically",
 "A checkpoint file holds everything needed: reading it back gives the same grid, geometry, state, tracers and time as were written, bit for bit, on any allowed process count. For schemes that carry nothing between steps (all but Strang splitting), continuing from a checkpoint gives the same state at the end as the uninterrupted run, and an unreadable or mismatched checkpoint is reported, not used.",
 ["crash_points", "configurations", "histories"],
 "All checkpoint times, grids, equation sets, tracer counts, process counts.",
 "The three restart cases in the suite fail at the pinned commit.",
 ["src/atm/OutputManagerComposite.cpp", "src/atm/Model.cpp", "src/base/DataContainer.cpp", "src/atm/Grid.cpp", "src/atm/TempestInitialize.h"],
 [("checkpoint write", "OutputManagerComposite::Output"), ("checkpoint read", "OutputManagerComposite::Input, Model::SetGridFromRestartFile")],
 ["checkpoint file contents, state after the restarted run"])

prop("C09", "Output files contain the model's own fields, interpolated to the output grid",
 "Each variable in an output file is, at every output point, level and time record, the model's field of that name in physical units, interpolated with the elements' own polynomials; each output point is filled exactly once, from the element that contains it, and coordinates and times are labelled correctly. "
 "Fields that the element polynomials represent exactly (constants in particular) appear exactly.",
 ["configurations", "inputs"],
 "All output resolutions, level settings, optional fields, panels, staggerings, process counts.",
 "The suite checks that a NetCDF file exists and opens.",
 ["src/atm/OutputManagerReference.cpp", "src/atm/GridPatchGLL.cpp", "src/atm/GridPatchCSGLL.cpp", "src/atm/GridPatchCartesianGLL.cpp", "src/atm/GridCSGLL.cpp", "src/atm/Grid.cpp"],
 [("reference grid", "OutputManagerReference::CalculatePatchCoordinates"), ("interpolation", "GridPatch*::InterpolateData, Grid::ReduceInterpolate")],
 ["NetCDF output files"])

prop("C10", "Steps, outputs and attached processes happen exactly at their scheduled times",
 "A run starts at the start time, advances by the step size with only the last step shortened, and ends exactly at the end time. Output is written at the start, at the first step at or after each multiple of the output interval (at most once per step), and at the end, once each, numbered and split into files as requested. Periodic processes run at the first step at or after each multiple of their interval (at most once per step), and the elapsed time given to the dynamics sums exactly to the length of the run.",
 ["configurations", "histories"],
 "All start/end times, step sizes and output intervals, including ones that do not divide each other, cross days, months and years.",
 SMOKE,
 ["src/atm/Model.cpp", "src/atm/OutputManager.cpp", "src/atm/OutputManagerReference.cpp", "src/atm/WorkflowProcess.cpp"],
 [("step loop", "Model::Go"), ("schedule", "OutputManager::IsOutputNeeded, ManageOutput, InitialOutput, FinalOutput; WorkflowProcess::IsReady")],
 ["calls received by recording output managers, processes and dynamics; NetCDF time axis"])

prop("C11", "Grid geometry is correct: areas, metric, Coriolis, heights",
 "Node positions, area and volume weights, metric terms, Jacobians, Coriolis parameter and level heights are those of the stated domain: weights are positive and add up to the exact area and volume, metric and inverse metric are mutually inverse and agree with the positions' derivatives (along terrain-following levels too, at levels and interfaces), the Coriolis parameter is that of the rotated sphere or of the beta plane of a box starting at y=0, level heights run strictly upward from the topography to the model top under every stretching, and all of this is equal on shared points.",
 ["configurations", "inputs"],
 "All resolutions, orders, levels, stretchings, patch divisions, topographies and planetary constants.",
 SMOKE,
 ["src/atm/GridPatchCSGLL.cpp", "src/atm/GridPatchCartesianGLL.cpp", "src/atm/GridGLL.cpp", "src/atm/Grid.cpp", "src/atm/GridSpacing.cpp", "src/atm/VerticalStretch.h"],
 [("metric evaluation", "GridPatchCSGLL::EvaluateGeometricTerms, GridPatchCartesianGLL::EvaluateGeometricTerms"),
  ("vertical coordinate", "GridGLL::InitializeVerticalCoordinate, Grid::EvaluateVerticalStretchF")],
 ["geometric arrays of every patch"])

prop("C12", "Cubed-sphere coordinate and vector transforms are exact inverses",
 "Longitude-latitude, Cartesian and panel coordinates of a point convert into one another and back to the same point on every panel and at panel edges, corners and poles; vectors and covectors converted between systems keep their length, direction and mutual inner products, and are "
 "consistent with the derivatives of the coordinate maps and across panel boundaries.",
 ["inputs"],
 "All points of the sphere and all vectors, including panel boundaries and near-pole points.",
 SMOKE,
 ["src/atm/CubedSphereTrans.cpp", "src/atm/CubedSphereTrans.h", "src/atm/GridCSGLL.cpp"],
 [("coordinate maps", "CubedSphereTrans::ABPFromRLL, RLLFromABP, XYZFromABP, ..."), ("vector maps", "CubedSphereTrans::VecTransABPFromRLL, CoVecTransRLLFromABP, ...")],
 ["return values of the transform functions"])

prop("C13", "Numerical building blocks give correct quadrature, interpolation and solves",
 "Quadrature rules integrate polynomials exactly up to their degree with positive weights and ordered nodes in the requested interval; polynomial values, derivatives and interpolation coefficients reproduce polynomials up to their degree exactly; Legendre roots are roots; "
 "linear solvers return a solution with a backward-stable residual and matrix products and inverses agree with their definitions.",
 ["inputs"],
 "All supported orders, intervals, node sets, polynomials and well-conditioned matrices (dense, banded, triangular).",
 "No unit test exists for any of them.",
 ["src/base/GaussQuadrature.cpp", "src/base/GaussLobattoQuadrature.cpp", "src/base/LegendrePolynomial.cpp", "src/base/PolynomialInterp.cpp", "src/base/LinearAlgebra.cpp", "src/atm/JacobianFreeNewtonKrylov.cpp", "src/base/MathHelper.cpp", "src/atm/FluxCorrectionFunction.cpp"],
 [("rules", "GaussQuadrature::GetPoints, GaussLobattoQuadrature::GetPoints"), ("interpolation", "PolynomialInterp::*"), ("LAPACK wrappers", "LAPACK::*")],
 ["return values"])

prop("C14", "Vertical operators are exact on the polynomials they represent",
 "In every column, interpolation between levels and interfaces, first and second derivatives and integrals reproduce fields that are polynomials of the vertical order within elements exactly (degree p-1 from levels, p from interfaces), constants give zero derivative, results respect each operator's boundary treatment, and interpolating from the interface or level set to itself is the identity. An operator's result in a column depends only on that column.",
 ["configurations", "inputs"],
 "All vertical orders, numbers of elements, vertical coordinates, discretisations and column data.",
 SMOKE,
 ["src/atm/LinearColumnOperator.cpp", "src/atm/LinearColumnOperatorFEM.cpp", "src/atm/GridGLL.cpp", "src/atm/GridPatchGLL.cpp"],
 [("operator assembly", "LinearColumnInterpFEM::Initialize, LinearColumnDiffFEM::Initialize*, LinearColumnDiffDiffFEM::Initialize*"),
  ("application", "LinearColumnOperator::Apply, GridGLL::InterpolateNodeToREdge, DifferentiateNodeToNode, ...")],
 ["operator coefficients and results on arbitrary columns"])

prop("C15", "Arrays and data containers never lose, alias or overrun data",
 "Multi-dimensional arrays keep every element written, at its own place, through copies, assignment, resizing, attach and detach, arithmetic and element access; containers lay their members out without overlap at suitable alignment and keep contents when attached to or detached from memory. "
 "Misuse such as mismatched sizes or double attachment is reported rather than executed, and no use reads or writes outside the storage or leaks or double-frees it.",
 ["programs", "histories"],
 "All sequences of operations on arrays and containers of any sizes, including empty ones.",
 "No unit test in the suite exercises them directly.",
 ["src/base/DataArray1D.h", "src/base/DataArray2D.h", "src/base/DataArray3D.h", "src/base/DataArray4D.h", "src/base/DataStruct.h", "src/base/DataContainer.cpp", "src/base/DataChunk.h"],
 [("ownership", "DataArray*D::Allocate/Attach/Detach/Deallocate"), ("layout", "DataContainer::AttachTo, GetTotalByteSize")],
 ["element values and sanitizer reports"])

prop("C16", "Calendar time arithmetic is exact",
 "Adding or subtracting intervals, comparing, parsing and formatting times agree with exact integer arithmetic in the chosen calendar, including across minutes, days, months, leap years and year ends, and so do differences in the no-leap calendar; a time written as text reads back as the same time, and malformed or incomplete text is rejected.",
 ["inputs", "histories"],
 "All calendars offered, all times and intervals within the supported range, all strings.",
 "Tests run from one start date for a few seconds to days.",
 ["src/base/TimeObj.cpp", "src/base/TimeObj.h"],
 [("normalisation", "Time::NormalizeTime, VerifyTime"), ("parsing/formatting", "Time::FromLongString, FromFormattedString, ToString, ToShortString, ToFreeString, ToDateString"), ("differences", "Time::operator-, operator+=, AddTime")],
 ["Time values and strings"])

prop("C17", "Command-line options are honoured exactly or rejected",
 "Every declared option given on the command line takes the value given, in any order and mixture; options not given keep their documented defaults. A missing value stops the program with its usage text, text that is not a legal number or time is rejected with a message, and an option that was never declared is named in a warning and changes nothing.",
 ["inputs"],
 "All argument vectors over the declared options.",
 "Tests pass a few fixed argument lists.",
 ["src/atm/CommandLine.h", "src/atm/TempestInitialize.h", "src/base/STLStringHelper.h"],
 [("parser", "CommandLineParameter*::Activate, BeginCommandLine/EndCommandLine/ParseCommandLine")],
 ["values of variables after parsing, exit path"])

prop("C18", "No memory error or undefined behaviour in any supported configuration",
 "Setting up, running, writing output and tearing down any supported configuration performs no out-of-bounds or use-after-free access, no invalid free, no use of an index outside its array dimension, no undefined arithmetic or conversion, and its memory in use does not grow with the number of steps, outputs or exchanges.",
 ["configurations"],
 "All grids, equation sets, resolutions, orders, levels, staggerings, methods, schemes, output settings and process counts.",
 "The suite runs uninstrumented binaries; out-of-bounds reads inside one allocation give finite numbers.",
 ["src/atm", "src/base"],
 [("all array accesses", "DataArray*D element access"), ("message buffers", "ExchangeBufferRegistry")],
 ["AddressSanitizer/UndefinedBehaviorSanitizer reports, bounds-checked array access"])

prop("C19", "Runs are reproducible and never depend on uninitialised memory",
 "Two runs with the same configuration on the same number of processes give bit-identical states, output data and checksums, whatever the previous contents of memory, the environment, the output settings or the message timing.",
 ["configurations", "schedules"],
 "All configurations; all prior memory contents and message timings.",
 "No test runs the same thing twice and compares, and fresh pages are zero so uninitialised reads look harmless.",
 ["src/atm/Grid.cpp", "src/atm/GridPatch.cpp", "src/atm/HorizontalDynamicsFEM.cpp", "src/atm/VerticalDynamicsFEM.cpp", "src/base/DataArray4D.h"],
 [("initialisation of storage", "DataArray*D::Allocate, GridPatch::InitializeDataLocal"), ("message completion", "ExchangeBufferRegistry / Grid::Exchange")],
 ["state dumps of repeated runs under filled heaps and delays; valgrind"])

prop("C20", "The implicit vertical solve solves the implicit equations, column by column",
 "The implicit step returns the solution of one linearised backward-Euler step of the vertical terms: its result differs from the true backward-Euler solution by second order in the size of the update, it tends to the identity as the step size tends to zero and for columns already in balance, and the explicit evaluation of the same terms is consistent with it. Each column's result depends only on that column, and shared columns get the same answer.",
 ["inputs", "configurations"],
 "All columns, step sizes, staggerings, vertical orders, level counts and topography.",
 SMOKE,
 ["src/atm/VerticalDynamicsFEM.cpp", "src/atm/VerticalDynamicsSchur.cpp", "src/atm/VerticalDynamicsFEMV2.cpp", "src/base/LinearAlgebra.cpp"],
 [("residual and Jacobian", "VerticalDynamicsFEM::BuildF, BuildJacobianF, PrepareColumn, SetupReferenceColumn"), ("banded solve", "LAPACK::DGBSV")],
 ["state before/after StepImplicit, StepExplicit / StepImplicitTermsExplicitly"])

prop("C21", "Global sums, norms and energies equal their definitions",
 "Reported checksums (sum and norms), total energy, enstrophy (shallow water) and momentum equal the weighted sums over all owned points of the quantities they are named after, independently computed from the fields and weights, for every variable and tracer and for any division among processes.",
 ["inputs", "configurations"],
 "All fields, grids, staggerings and process counts.",
 "The numbers are printed but compared with nothing.",
 ["src/atm/Grid.cpp", "src/atm/GridPatch.cpp", "src/atm/OutputManagerChecksum.cpp"],
 [("local sums", "GridPatch::Checksum, ComputeTotalEnergy, ComputeTotalPotentialEnstrophy, ComputeTotalVerticalMomentum"), ("reduction", "Grid::Checksum")],
 ["returned values"])

prop("C22", "The discrete model keeps the symmetries of the domain",
 "Rotating the initial data by a symmetry of the cubed sphere that leaves the axis of rotation fixed (or any cube symmetry when the planet does not rotate), mirroring across the equator, or shifting it periodically by whole elements in a Cartesian box (mirroring or exchanging the axes too when the box does not rotate), gives the correspondingly rotated, mirrored or shifted solution up to rounding.",
 ["inputs", "configurations"],
 "All symmetry operations, initial data, methods and steps.",
 SMOKE,
 ["src/atm/CubedSphereTrans.cpp", "src/atm/HorizontalDynamicsFEM.cpp", "src/atm/GridCSGLL.cpp", "src/atm/GridCartesianGLL.cpp"],
 [("panel-independent discretisation", "HorizontalDynamicsFEM, GridCSGLL, CubedSphereTrans")],
 ["state of a run and of the run from transformed data"])

prop("C23", "Horizontal and vertical tendencies converge to the governing equations",
 "The rate of change the dynamics computes from a smooth state converges, as the grid is refined, to the right-hand side of the equations of motion for that state: shallow water, and compressible flow with topography and terrain-following levels (Lorenz staggering), in every component, on every panel, and for tracers, at the rate of the horizontal order and, where the flow crosses levels, at least at first order in the level spacing. Alternative horizontal and vertical methods agree with each other to within discretisation error.",
 ["inputs", "configurations"],
 "All smooth states, all grids, methods, staggerings, orders.",
 SMOKE,
 ["src/atm/HorizontalDynamicsFEM.cpp", "src/atm/HorizontalDynamicsFEMV2.cpp", "src/atm/VerticalDynamicsFEM.cpp", "src/atm/EquationSet.cpp"],
 [("right-hand sides", "HorizontalDynamicsFEM::StepShallowWater/StepNonhydrostaticPrimitive, VerticalDynamicsFEM::StepExplicit")],
 ["difference quotient of a small step against the analytic tendency"])

prop("C24", "Damping damps: diffusion, hyperviscosity and Rayleigh friction act as specified",
 "Diffusion and hyperviscosity multiply smooth modes by the factor given by the coefficient and the Laplacian's eigenvalue (to discretisation accuracy; for fourth order in the integral sense, projected on smooth modes), leave constants and the level integrals of tracers and scalars unchanged, act separately on the divergent and rotational parts of the velocity, and never increase variance or kinetic energy within the stable range. Rayleigh friction relaxes wind, temperature and vertical velocity towards the reference at the prescribed local rate, unconditionally stably (a factor between exp(-rate x step) and one backward-Euler step), leaves density and tracers alone, and a zero coefficient changes nothing.",
 ["inputs", "configurations"],
 "All fields, coefficients, orders, resolutions, step sizes.",
 SMOKE,
 ["src/atm/HorizontalDynamicsFEM.cpp", "src/atm/GridPatchCSGLL.cpp", "src/atm/GridPatchCartesianGLL.cpp"],
 [("hyperviscosity", "HorizontalDynamicsFEM::ApplyScalarHyperdiffusion, ApplyVectorHyperdiffusion, StepAfterSubCycle"), ("friction", "HorizontalDynamicsFEM::ApplyRayleighFriction")],
 ["state before/after the damping substep"])

prop("C25", "Held-Suarez forcing matches its published definition and cadence",
 "Each application of the Held-Suarez forcing relaxes temperature towards the published equilibrium profile and damps low-level wind with the published rates over exactly the interval between its applications, as a function of latitude and pressure only (agreeing with the exact relaxation to second order in rate times interval), leaving density and upper-level winds unchanged and never overshooting equilibrium for intervals of up to a few days.",
 ["inputs", "histories"],
 "All states, latitudes, pressures, intervals between applications.",
 "The suite runs the program for a few steps and looks only for finite values.",
 ["src/atm/HeldSuarezPhysics.cpp", "src/atm/WorkflowProcess.cpp"],
 [("forcing", "HeldSuarezPhysics::Perform")],
 ["state before/after Perform"])

prop("C26", "Diagnosed fields equal their definitions",
 "Pressure, temperature, surface pressure, vorticity and divergence reported by the model follow from the state through the stated equations: thermodynamic fields to rounding at every point, surface pressure as the weight of the layers above, and vorticity and divergence converging spectrally to the analytic curl and divergence of a smooth wind (to zero for, respectively, gradient and rotational flow), single-valued at shared points. Conversions between temperature, potential temperature, pressure, density and Exner function are mutually inverse and agree with their derivatives.",
 ["inputs", "configurations"],
 "All states, grids, staggerings and constants.",
 SMOKE,
 ["src/atm/GridPatch.cpp", "src/atm/GridPatchGLL.cpp", "src/atm/GridPatchCSGLL.cpp", "src/atm/GridPatchCartesianGLL.cpp", "src/atm/PhysicalConstants.h", "src/atm/Grid.cpp"],
 [("diagnostics", "GridPatch::ComputePressure/ComputeTemperature/ComputeSurfacePressure, GridPatch*::ComputeCurlAndDiv"), ("thermodynamics", "PhysicalConstants")],
 ["diagnostic arrays"])

prop("C27", "Post-processing tools preserve the data they convert",
 "The file converter and the surface-extraction tool write exactly the requested variables and times, with values that are the input's values (or their stated transformation: linear interpolation in pressure or height, extrapolation to the surface, kinetic plus internal energy) at the same coordinates, keep coordinate metadata, and report missing inputs instead of writing wrong data.",
 ["inputs"],
 "All input files written by the model and all option combinations.",
 "The tools are built but never run by the suite.",
 ["util/CFConverter/CFConverter.cpp", "util/ExtractSurface/ExtractSurface.cpp"],
 [("conversion", "main of each tool")],
 ["contents of the written NetCDF files"])

prop("C28", "Initial state equals the analytic initial condition at every point",
 "After set-up, every owned point of every field holds the test case's analytic value at that point's longitude, latitude, height and start time, converted to the prognostic variables exactly (including winds into panel components and staggered locations), for state, reference state, tracers, topography and the friction rate.",
 ["inputs", "configurations"],
 "All analytic initial conditions, grids, topographies, stretchings, staggerings.",
 SMOKE,
 ["src/atm/GridPatchCSGLL.cpp", "src/atm/GridPatchCartesianGLL.cpp", "src/atm/EquationSet.cpp", "src/atm/Model.cpp", "src/atm/Grid.cpp"],
 [("evaluation", "GridPatchCSGLL::EvaluateTestCase, GridPatchCartesianGLL::EvaluateTestCase"), ("conversion", "EquationSet::ConvertComponents")],
 ["state arrays before the first step"])

prop("C29", "Solid boundaries and the model top and bottom let nothing through",
 "The velocity normal to the ground, the model top and any no-flux lateral wall is zero after every step (over terrain at the ground: after each horizontal step, and after a whole step up to the splitting between horizontal and vertical steps), no-slip walls stop the flow, and periodic sides behave as if the domain continued.",
 ["configurations", "inputs"],
 "All boundary settings, terrains, staggerings and schemes.",
 SMOKE,
 ["src/atm/GridPatchCartesianGLL.cpp", "src/atm/HorizontalDynamicsFEM.cpp", "src/atm/VerticalDynamicsFEM.cpp", "src/atm/GridCartesianGLL.cpp"],
 [("lateral walls", "GridPatchCartesianGLL::ApplyBoundaryConditions"), ("surface condition", "HorizontalDynamicsFEM::StepNonhydrostaticPrimitive")],
 ["velocities at boundary points after each step"])

for d in P: print(json.dumps(d))
