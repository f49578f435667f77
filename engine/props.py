"""Property metadata: source of properties.jsonl and MANIFEST.json (bin/gen)."""
PROPS = []
NA = {}


def P(id, title, stmt, over, text, why, files, mech, note, state=None):
    PROPS.append(dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                   **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {})),
                      note=note))


NUM = "Exact real arithmetic (rounding is outside the model; tolerances absorb table rounding). "

P("P01", "Quadrature rules integrate every polynomial of the advertised degree",
  "For every degree a rule is offered for, the 1D rule on [-1,1] and the 2D rule on the master triangle integrate every "
  "polynomial of that degree exactly (to table precision), have as many weights as points and report that count. "
  "The 1D points are mirrored about the origin, so that the two sides of an interface see the same physical points.",
  ["inputs", "configurations"], "all polynomials (symbolic coefficients) of every advertised degree, 1D 0..65 and 2D 1..20",
  "The tests integrate a few monomials; a wrong digit in a table that only matters for some polynomial of some degree passes.",
  ["source/integration/integrations_1D/integration_gausslegendre_1D.cpp", "source/integration/integrations_2D/integration_dunavant_2D.cpp"],
  [("GaussLegendre_1D::GetRule", "source/integration/integrations_1D/integration_gausslegendre_1D.cpp"),
   ("Dunavant_2D::GetRule, PermutationData", "source/integration/integrations_2D/integration_dunavant_2D.cpp")],
  NUM + "Complete for the offered degrees and all coefficient vectors in [-1,1]^n (linear, hence all).")

P("P02", "Modal basis, gradients, mass inverse and linear maps are consistent",
  "The basis polynomials of degree p are orthogonal on the master triangle, span all polynomials of degree p, and the inverse mass "
  "matrix handed to the solver inverts their mass matrix. The tabulated gradients are the derivatives of the basis values everywhere "
  "in the triangle, and the conversion between modal and vertex (linear) coefficients is exact both ways.",
  ["inputs", "configurations"], "all points of the triangle, all modal coefficients, polynomial orders 1..7 (mass/gradient)",
  "The tests sample quadrature points and one or two orders; derivative formulas have removable singularities that samples miss.",
  ["source/basis/bases_2D/basis_dubiner_2D.cpp", "source/basis/basis_polynomials.cpp"],
  [("Dubiner_2D::GetPhi/GetDPhi/GetMinv/ProjectBasisToLinear/ProjectLinearToBasis", "source/basis/bases_2D/basis_dubiner_2D.cpp")],
  NUM + "The gradient oracle is the derivative of the executed value code, taken symbolically.")

P("P03", "Triangle geometry is exact for every non-degenerate triangle",
  "For every non-degenerate triangle the Jacobian, area, edge lengths, midpoints, circumradius, coordinate maps and their inverse, nodal "
  "shape functions and gradients, and boundary coordinates agree with plane geometry; the surface normals are unit, orthogonal to "
  "their edge and outward. Point location answers inside exactly for the points of the triangle, and a clockwise input is reoriented.",
  ["inputs"], "all vertex coordinates in a box with area at least 1/2, all reference points, all three edges",
  "The tests use one triangle; the formulas depend on six coordinates and on the orientation.",
  ["source/shape/shapes_2D/shape_straighttriangle.cpp", "source/master/elements_2D/master_triangle.tpp"],
  [("StraightTriangle", "source/shape/shapes_2D/shape_straighttriangle.cpp"),
   ("Triangle::BoundaryToMasterCoordinates", "source/master/elements_2D/master_triangle.tpp")],
  NUM + "Coordinates in [-10,10].")

P("P06", "The explicit solver's numerical flux is consistent and conservative",
  "Between two equal states the numerical flux across an edge is the physical shallow water flux in the direction of the normal. "
  "The flux leaving one side is minus the flux leaving the other side for every pair of wet states, "
  "so nothing is created or lost at an edge.",
  ["inputs"], "all wet states (depth up to 10 km, speeds up to 50 m/s), bed levels, unit normals, gravity and map projection factors",
  "A handful of states with unit projection factor and axis-aligned normals cannot show an identity over nine real inputs.",
  ["source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp"],
  [("LLF_flux", "source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp")],
  NUM)

P("P15", "An explicit time stage conserves the total water volume",
  "On a closed domain without sources, one stage of either explicit solver leaves the integral of the water level over the whole mesh "
  "unchanged, whatever the state and whichever elements are dry.",
  ["inputs", "configurations"], "all modal states in the stated box on the stated meshes and orders; every flow direction at every edge",
  "Tests run a fixed smooth problem and compare an error norm; a leak at particular flow directions or edge orderings is invisible there.",
  ["source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_serial_step.hpp",
   "source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_internal.hpp", "source/geometry/interface.hpp"],
  [("stage_serial", "source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_serial_step.hpp"),
   ("stage_serial", "source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_serial_step.hpp")],
  NUM + "The full preprocessing and stage code runs symbolically.")

P("P04", "Element operators act exactly on polynomial fields",
  "For every polynomial field of the discretisation order, projection onto an element returns the field, evaluation and gradients at "
  "the integration points are exact, integrals and the integration operators agree with exact integrals, and the mass inverse turns "
  "moments back into the field. Values at vertices, midpoints, output points and arbitrary survey points reproduce the field.",
  ["inputs", "configurations"], "all polynomial fields (symbolic coefficients) of order 1..3 on both elements of a skewed mesh",
  "Tests check a few monomials on one reference triangle; Jacobian and ordering mistakes only show on skewed elements and mixed terms.",
  ["source/geometry/element.hpp", "source/shape/shapes_2D/shape_straighttriangle.cpp"],
  [("Element::L2Projection*, ComputeUgp, ComputeDUgp, Integration*, ApplyMinv", "source/geometry/element.hpp")],
  NUM)

P("P05", "Interfaces and boundaries see the same points, outward normals, exact integrals",
  "Both sides of an interface evaluate a common field at the same physical points in matching order, boundary traces equal the field on "
  "the edge, normals are unit, outward and opposite, and edge integrals are exact. For every element the divergence theorem holds "
  "between the volume operators and the edge operators.",
  ["inputs", "configurations"], "all polynomial fields of order 1..2; all nine relative orientations of two neighbouring elements",
  "Tests use one orientation; a wrong point order or Jacobian appears only for particular local edge numbers.",
  ["source/geometry/interface.hpp", "source/geometry/boundary.hpp", "source/preprocessor/initialize_mesh.hpp"],
  [("Interface::ComputeUgpIN/EX, IntegrationPhiIN/EX", "source/geometry/interface.hpp"), ("Boundary::ComputeUgp, IntegrationPhi", "source/geometry/boundary.hpp"),
   ("initialize_mesh_interfaces_boundaries", "source/preprocessor/initialize_mesh.hpp")],
  NUM)

P("P07", "Skeleton (trace) operators of the hybridised solvers are exact",
  "The trace space on every edge reproduces polynomial traces by projection, evaluates them at the same points as both adjacent "
  "elements, and its mixed integrals with the element basis of either side are exact.",
  ["inputs", "configurations"], "all polynomial traces of order 1..2; all nine relative orientations",
  "The existing tests check one edge of one reference element.",
  ["source/geometry/edge_interface.hpp", "source/geometry/edge_boundary.hpp"],
  [("EdgeInterface, EdgeBoundary", "source/geometry/edge_interface.hpp")],
  NUM)

P("P17", "The Runge-Kutta schemes have their advertised order and stage times",
  "Each explicit strong-stability-preserving scheme offered satisfies every order condition up to its order, its stages are convex "
  "combinations of forward Euler steps, and it evaluates sources at the matching times. The step, stage and time counters advance consistently.",
  ["configurations", "histories"], "all offered schemes (stages, order), all right-hand sides through the symbolic elementary differentials",
  "Tests check one or two schemes on one scalar equation and cannot see wrong stage times at all.",
  ["source/simulation/stepper/explicit_ssp_rk_stepper.cpp"],
  [("ESSPRKStepper", "source/simulation/stepper/explicit_ssp_rk_stepper.cpp")],
  NUM + "Found and fixed: stage times.")

P("P20", "Flux functions, their Jacobians and the wave speed bound agree",
  "The directional flux is the physical shallow water flux, the flux Jacobians used by the implicit solver are its derivatives, and the "
  "stabilisation parameter is the largest characteristic speed with correct derivatives.",
  ["inputs"], "all wet states in a box (depth 0.25..4, speeds up to 3), all unit normals, gravity 1..20",
  "Tests evaluate Jacobians at a handful of states; each entry is a separate rational function of six reals.",
  ["source/problem/SWE/problem_flux/swe_flux.hpp", "source/problem/SWE/problem_stabilization_parameters/swe_stabilization_params.hpp"],
  [("get_F, get_Fn, get_dF_dq, get_dFn_dq", "source/problem/SWE/problem_flux/swe_flux.hpp"),
   ("get_tau_LF and derivatives", "source/problem/SWE/problem_stabilization_parameters/swe_stabilization_params.hpp")],
  NUM + "Derivatives are taken symbolically of the executed value code.")

P("P21", "Characteristic decomposition used at open boundaries is exact",
  "The eigenvectors and eigenvalues used for open boundaries reassemble the flux Jacobian; the incoming and outgoing parts sum to it and "
  "differ by its absolute value. The derivatives of all four matrices with respect to each conserved variable are exact.",
  ["inputs"], "all wet states in a box (depth 0.25..4, speeds up to 3), all unit normals; every sign pattern of the characteristic speeds",
  "Each matrix entry is a rational function with three sign switches; the tests sample few of the sign patterns.",
  ["source/problem/SWE/problem_jacobian/swe_jacobian.hpp"],
  [("get_A, get_absA, get_Aplus, get_Aminus and derivatives", "source/problem/SWE/problem_jacobian/swe_jacobian.hpp")],
  NUM + "Within 1e-3 of a vanishing characteristic speed the derivatives are not checked.")

P("P08", "Wetting and drying exchange: a dry element never gives water",
  "Across an edge the volume leaving one side equals the volume entering the other, and no water leaves an element that is dry. "
  "Two wet sides exchange the plain numerical flux, two dry sides or a flux out of a dry side are closed like a wall for mass, "
  "and a wet element giving water to a dry one pushes on it without the gravity term.",
  ["inputs"], "all states with every wet/dry combination and flux direction, all unit normals",
  "Tests use a single wetting scenario; each combination of dry flag and flux direction is a separate branch.",
  ["source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_internal.hpp"],
  [("ISP::Internal::ComputeFlux", "source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_internal.hpp")],
  NUM)

P("P09", "Land boundaries let no water through",
  "At a land boundary the mass flux is zero for every interior state, and the wall exerts no force along itself; "
  "for flow along the wall it exerts exactly the hydrostatic pressure.",
  ["inputs", "configurations"], "all interior wet states, on skewed edges and with and without a map projection factor",
  "Tests use axis-aligned walls and no projection, where a wrong reflection still cancels.",
  ["source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp"],
  [("BC::Land::ComputeFlux/GetEX", "source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp")],
  NUM + "Found and fixed: projected normals.")

P("P10", "Levees hold water back below the crest and pass weir flow above it",
  "A levee whose crest is not overtopped acts as two walls. An overtopped levee carries the sub- or supercritical weir discharge from the "
  "higher to the lower side, the same amount leaving one side as entering the other, with crest height and coefficients interpolated along the edge, "
  "whichever order the levee's node pair is given in.",
  ["inputs", "configurations"], "all water levels either side of a symbolic crest, both flow regimes and both directions",
  "There is no test of the levee flux; regime and direction boundaries are narrow.",
  ["source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp"],
  [("ISP::Levee::Initialize/ComputeFlux", "source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp")],
  NUM)

P("P11", "Open boundaries impose the prescribed tide and inflow",
  "The water level imposed at a tidal boundary and the discharge imposed at a flow boundary are the sum of the prescribed harmonic "
  "constituents at the time of the stage (for the implicit solver the end of the step), interpolated linearly along the edge between its nodes and scaled by the ramp. "
  "A boundary with a prescribed function sees that function at its integration points at that time. This holds for all three solvers.",
  ["inputs", "histories"], "all amplitudes, phases, frequencies, nodal factors, equilibrium arguments and times; ramp on and off",
  "Tests do not run tidal or flow boundaries at all.",
  ["source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_tide.hpp", "source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_flow.hpp",
   "source/problem/SWE/discretization_EHDG/boundary_conditions/ehdg_swe_bc_tide.hpp", "source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp"],
  [("BC::Tide, BC::Flow, BC::Function", "source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_tide.hpp")],
  NUM)

P("P14", "A lake at rest stays at rest",
  "Water with a level surface and no flow over any bed is a steady state of the explicit solvers: every rate of change vanishes and the "
  "state after a stage is unchanged. This holds between land walls and with open boundaries prescribing the same level and no inflow, with and without "
  "a map projection, and with wetting and drying switched on as long as everything is wet.",
  ["inputs", "configurations"], "all levels and all bed elevations at the nodes, both explicit solvers, orders 1 and 2",
  "Balance of bed slope source against pressure flux must hold for every bed; the tests run one smooth problem over a flat bed.",
  ["source/problem/SWE/problem_source/swe_source.hpp", "source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_serial_step.hpp",
   "source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_serial_step.hpp"],
  [("get_source, volume_kernel, source_kernel", "source/problem/SWE/problem_source/swe_source.hpp"),
   ("stage_serial", "source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_serial_step.hpp")],
  NUM + "Found and fixed: bed slope source without projection factor.")

P("P18", "Wetting and drying keeps depth positive and volume intact",
  "After wetting/drying treatment no vertex depth is negative, an element with enough water has at least the film depth at every vertex, and the water volume "
  "is unchanged unless the mean depth was below the drying threshold, to which it is then topped up. Dry elements carry no discharge and do not change, and redistribution keeps the momentum of the vertices "
  "that are drained by handing it to the wet ones.",
  ["inputs", "configurations"], "all vertex depths around the threshold (every sign pattern), discharges and higher modes, orders 1 and 2",
  "Each combination of wet and dry vertices and neighbours is a separate branch; the tests run one scenario.",
  ["source/problem/SWE/problem_postprocessor/swe_post_wet_dry.hpp"],
  [("wetting_drying_kernel, init_wd_data", "source/problem/SWE/problem_postprocessor/swe_post_wet_dry.hpp")],
  NUM)

P("P22", "Momentum sources: bed slope, bottom friction, user source",
  "The source added to an element's rate is the projection of bed slope, bottom friction with the prescribed drag coefficient or Manning's law "
  "with the coefficient as floor, and the user-supplied source evaluated at the time of the stage. Dry elements receive no source.",
  ["inputs", "configurations", "histories"], "all states, drag coefficients, Manning coefficients read from a file, linear source functions; explicit and implicit solvers",
  "The tests never switch friction on, and use one source function.",
  ["source/problem/SWE/problem_source/swe_source.hpp", "source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp",
   "source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp"],
  [("get_source", "source/problem/SWE/problem_source/swe_source.hpp"), ("init_source_kernel, local_source_kernel", "source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp")],
  NUM)

P("P16", "Hybridised explicit solver: edge fluxes, walls and wet/dry exchange",
  "Across an edge of the hybridised explicit solver the water leaving one side enters the other for every wet/dry combination, a dry element never gives "
  "water, and two wet sides exchange the trace flux plus stabilisation; a wet element giving water to a dry one pushes on it without gravity. "
  "Land walls let no water through, exert no force along themselves and feel the hydrostatic pressure.",
  ["inputs"], "all states of both sides, every wet/dry combination and flux direction, all unit normals",
  "The tests run this solver on one smooth wet problem; each wet/dry branch and each wall direction is separate code.",
  ["source/problem/SWE/discretization_EHDG/interface_specializations/ehdg_swe_is_internal.hpp", "source/problem/SWE/discretization_EHDG/boundary_conditions/ehdg_swe_bc_land.hpp",
   "source/problem/SWE/problem_stabilization_parameters/swe_stab_param_LF.hpp"],
  [("ISP::Internal::ComputeNumericalFlux", "source/problem/SWE/discretization_EHDG/interface_specializations/ehdg_swe_is_internal.hpp"),
   ("BC::Land::ComputeNumericalFlux", "source/problem/SWE/discretization_EHDG/boundary_conditions/ehdg_swe_bc_land.hpp")],
  NUM + "Found and fixed: stabilisation of the dry receiver used gravity.")

P("P23", "Implicit solver: residuals, exact linearisation and condensed solve",
  "The residual of an implicit step is the time derivative plus the weighted rates of both ends of the step, vanishes for water at rest, and conserves mass across "
  "interfaces and at walls. The matrices of a Newton iteration are the exact derivatives of the residuals with respect to element states and edge traces, "
  "for closed domains and prescribed exterior states, with and without friction, and the condensed solve returns a solution of the whole linear system.",
  ["inputs", "configurations"], "all element states and edge traces in a box; first and second order scheme; friction none, constant and Manning; land and prescribed boundaries",
  "A wrong matrix entry only slows convergence or shows for particular flows; the tests compare one error norm over a flat bed without friction.",
  ["source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_volume.hpp", "source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp",
   "source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_edge_intface.hpp", "source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_edge_bound.hpp",
   "source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_serial_sol_glob_prob.hpp"],
  [("local_volume_kernel, local_source_kernel, local/global_edge_*_kernel", "source/problem/SWE/discretization_IHDG/kernels_processor"),
   ("serial_solve_global_problem", "source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_serial_sol_glob_prob.hpp")],
  NUM + "Open boundaries with extrapolated components are frozen within an iteration by design and not claimed. Found and fixed: bed slope missing from the linearisation, friction undefined at rest.")

P("P19", "The slope limiter keeps means, keeps linear fields, flattens extrema",
  "Slope limiting leaves the mean of every variable in every element unchanged, leaves a globally linear field unchanged in interior elements and slopes below the smoothness bound alone, "
  "and flattens the water level of an element that is a local extremum at rest. Otherwise each characteristic slope becomes the smaller of its own and the scaled neighbour slope, or zero where they disagree. "
  "Dry elements and elements next to dry ones are left alone.",
  ["inputs", "configurations"], "element slopes, jumps to the neighbours, linear fields; interior elements and elements at land; every sign pattern and every wet/dry pattern",
  "No test switches the limiter on; its effect depends on the sign pattern of nine characteristic slopes.",
  ["source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp", "source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp"],
  [("slope_limiting_kernel", "source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp"),
   ("initialize_data_serial (alpha, median)", "source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp")],
  NUM + "Along families of directions with symbolic amplitudes. ")

P("P12", "A partitioned run computes the same solution as the serial run",
  "However the mesh is cut into submeshes and however these are spread over localities and ranks, a distributed run ends with the modal solution of the serial run, "
  "whether sends are buffered or wait for the receiver and in whichever order the ranks proceed. No rank waits for ever, every message is received, "
  "and every element is computed exactly once.",
  ["inputs", "configurations", "schedules"],
  "all partitions of a small mesh into one to three submeshes, all maps to localities and ranks, all states near an upwind pattern, both message modes; both explicit solvers, wet/dry exchange, open boundaries, slope limiting",
  "Message order, buffer offsets and orientation of cut edges depend on the partition and the schedule; the stable tests never run the distributed driver.",
  ["source/communication/ompi_communicator.cpp", "source/simulation/ompi/simulation_ompi.hpp", "partitioner/partitioner.cpp", "partitioner/write_distributed_interfaces.cpp",
   "source/problem/SWE/problem_preprocessor/swe_pre_create_dbound.hpp", "source/problem/SWE/problem_slope_limiter/swe_CS_sl_ompi.hpp"],
  [("partition", "partitioner/partition.cpp"), ("stage_ompi", "source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp"),
   ("OMPICommunicator", "source/communication/ompi_communicator.cpp")],
  NUM + "MPI and METIS are replaced by stand-ins: messages of one pair and tag arrive in order, a partition is any map. Found and fixed: a run with a single submesh crashed.",
  [("submesh files and buffers", "mesh part, cut edges and send/receive buffers of each submesh", "partitioner/write_distributed_interfaces.cpp")])

P("P24", "Preprocessing: map projection, bed, initial state, and the error norm",
  "Longitudes and latitudes become plane coordinates of the cylinder that is true at the reference latitude, other meshes stay as they are, and every quadrature point inside and on all edges carries the "
  "distortion factor of its own latitude and the bed interpolated from the vertices, with its slope. The initial state is the constant or user-given one, exactly where it is linear. "
  "The reported error is the square integral of the difference to the true solution at the time of the stage.",
  ["inputs", "configurations"], "all longitudes, latitudes, radii, bed levels at the vertices, linear initial states and true solutions; with and without projection; both explicit solvers",
  "No stable test uses spherical coordinates or a sloping bed, and a wrong value on one side of an edge only degrades accuracy.",
  ["source/problem/SWE/problem_preprocessor/swe_pre_preprocess_mesh.hpp", "source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp",
   "source/problem/SWE/problem_postprocessor/swe_post_comp_res_l2.hpp"],
  [("preprocess_mesh_data", "source/problem/SWE/problem_preprocessor/swe_pre_preprocess_mesh.hpp"), ("initialize_data_serial", "source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp"),
   ("Element::ComputeResidualL2", "source/geometry/element.hpp")],
  NUM)
