SYM = ("static abstract interpretation of the source (gated value numbering: "
       "every path condition is a decision-diagram node, every value a "
       "normalised rational expression over opaque property calls)")
TRUST = ("Static; the repository code is parsed, never run. Trusted: the "
         "engine's Python model, and that property functions are smooth "
         "functions of their arguments. Paths the engine cannot evaluate are "
         "listed as open in the evidence and fall below a floor that fails "
         "the check. ")
C = "src/tespy/components/"
PROPS = [
    dict(
        id="C01", title="Component Jacobians are the derivatives of their residuals",
        statement="For every equation a component contributes to the system, the analytical derivative entries the component writes equal the partial derivatives of the residual it returns, with respect to every mass flow, pressure, enthalpy, fluid fraction and component variable the residual depends on. No entry is written for a variable the residual does not depend on or which is not a variable of the system, and no dependency is left without an entry.",
        over=["inputs", "configurations"],
        quant="every component class and equation, every combination of set/variable ports and parameters that selects a different code path, every state of the connected streams",
        why="Tests solve a few networks; Newton's method still converges with slightly wrong derivative entries, and the set/variable combinations that select code paths are exponentially many.",
        files=[C], mech=[("analytical derivative methods next to each residual method", C), ("guards on is_var / J_col", C)],
        technique="static abstract interpretation with symbolic differentiation of the residual's value graph, compared with the interpreted derivative method",
        note=TRUST + "Entries computed by central differences count as correct when they difference the equation's own residual along the right variable."),
    dict(
        id="C02", title="Connection specifications mean what they say and have exact derivatives",
        statement="Each value or reference a user specifies on a connection (mass flow, volumetric flow, pressure, enthalpy, temperature, vapour mass fraction, boiling/dew point temperature difference, fluid balance, references with factor and delta) imposes exactly the residual 'actual minus specified' in SI units with the connection's own fluid mixing rule. Its derivative entries equal the partial derivatives of that residual for every variable set, also when streams share variables. Specifications resolved before the solution give the same values the equations would have. More than three specifications of one connection with known composition are refused.",
        over=["inputs", "configurations"],
        quant="every specification kind, every set/variable/shared combination, every mixing rule and state",
        why="Tests specify connections in a few combinations with converging starts; wrong derivative entries, missing mixing rules or mis-resolved presolved values only show for specific combinations.",
        files=["src/tespy/connections/connection.py"],
        mech=[("residual and derivative methods of connection parameters", "src/tespy/connections/connection.py"), ("simplification of specifications before solving", "src/tespy/connections/connection.py")],
        technique="static abstract interpretation with symbolic differentiation, residual compared with a written definition per specification",
        note=TRUST),
    dict(
        id="C03", title="Component balances conserve mass, energy, species and elements",
        statement="The mandatory equations of every component are its physical balances: total mass flow, energy (including released reaction enthalpy and internal losses), each fluid species, each chemical element across reactions, and the pressure and saturation relations the component defines. A vanishing residual implies the balance holds exactly, for every port count, fluid set and reaction stoichiometry, including oxygen deficient combustion.",
        over=["inputs", "configurations"],
        quant="every component class, number of ports, fluid composition and state",
        why="Tests compare a handful of solved networks; a mis-signed or missing term that vanishes in the tested configuration (single fluid, equal pressure, lean combustion) goes unseen.",
        files=[C], mech=[("mandatory constraints of each component", C), ("stoichiometry of reactors", C + "combustion/base.py")],
        technique="static abstract interpretation of residuals, normalised and compared with the balance written for the component's ports",
        note=TRUST + "The heating-value formula of fuels is compared with constants written in the check."),
    dict(
        id="C04", title="Component parameters impose exactly their defining relation",
        statement="A component parameter or parameter group the user sets (pressure ratio, pressure drop, zeta, heat or power transferred, isentropic efficiency, terminal temperature differences, kA, effectiveness, pipe friction laws, air ratio, thermal input, electrical efficiency, characteristics, ...) adds exactly the relation its documentation defines between the adjacent streams: the residual is that relation in SI units, refers to the documented inlet and outlet, and vanishes exactly when the relation holds. In offdesign, characteristics scale the design value by the characteristic evaluated at the documented argument.",
        over=["inputs", "configurations"],
        quant="every component class, parameter, specification option and state of the adjacent streams",
        why="Tests check a few operating points per parameter, usually with symmetric or degenerate data for which a wrong port, sign or branch is invisible.",
        files=[C], mech=[("residual methods registered in get_parameters", C), ("get_char_expr", C + "component.py")],
        technique="static abstract interpretation of residual methods; gated normal form compared with a definition per parameter",
        note=TRUST + "The definitions are written in the check from the documentation."),
    dict(
        id="C05", title="Reported results satisfy the definitions of their parameters",
        statement="After a calculation, every result a component reports satisfies the relation the same parameter would impose if specified: specifying the reported value would leave the residual zero. Connection results (temperature, volume, volumetric flow, entropy, vapour fraction, boiling point difference) are the property functions of the connection's pressure, enthalpy and composition, and the values shown in the user's units are conversions of the SI values. The data a component hands out for state diagrams describe its own change of state: from the state of its inlet to the state of the corresponding outlet.",
        over=["inputs", "configurations"],
        quant="every component class and result, every converged state, including reversed flow and heat flow directions",
        why="Tests compare results for a few states; result calculation is separate code from the equations, so the two drift apart in branches tests do not visit.",
        files=[C, "src/tespy/connections/connection.py"], mech=[("calc_parameters of each component", C), ("Connection.calc_results", "src/tespy/connections/connection.py")],
        technique="static abstract interpretation of calc_parameters and calc_results, substituted into the definitions of the parameters",
        note=TRUST),
    dict(
        id="C06", title="The system of equations is assembled completely and without collisions",
        statement="The number of equations each component, connection, bus and user defined equation announces equals the number of residual rows it delivers. In the assembled system every equation occupies its own rows, its derivative entries stand in the same rows, and every variable (mass flow, pressure, enthalpy, mass fraction, component variable; shared variables once) has its own column and is registered for the Newton update under that column. The calculation is accepted exactly when the number of equations equals the number of variables. The Newton increment solves J dx = -r and is added to the variable it belongs to. No derivative entry of an earlier calculation survives in a later one.",
        over=["inputs", "configurations", "histories"],
        quant="every combination of components, set parameters, specifications, busses, user defined equations and repeated calculations",
        why="Offsets only collide for particular combinations of equation counts (components without equations, unset busses, several user equations, shared mass flows, recalculation with other specifications).",
        files=["src/tespy/networks/network.py", "src/tespy/components/component.py", "src/tespy/connections/connection.py"],
        mech=[("solve_components, solve_connections, solve_busses, solve_user_defined_eq", "src/tespy/networks/network.py"), ("preprocess and solve of components", "src/tespy/components/component.py"), ("variable numbering", "src/tespy/networks/network.py")],
        technique="static abstract interpretation of the bookkeeping routines on abstract networks with opaque equations; positions compared per equation and variable",
        note=TRUST + "Assembly routines are interpreted for a fixed set of abstract network shapes and specification patterns; the loops are uniform in the number of objects."),
    dict(
        id="C07", title="Physical units are converted consistently everywhere",
        statement="Every unit offered for a property carries its physical conversion factor, and conversion to SI and back are inverse. Each value a user enters (specified values, differences of references, limits of the value ranges, starting values, values read from files, pressure drops and ambient temperatures of components, ambient state of the exergy analysis) is converted exactly once with the unit that belongs to it, temperature differences without offset, and every result is reported in the configured unit. Units which are not offered are rejected, and reading starting values from a file does not change the units in use.",
        over=["inputs", "configurations"],
        quant="every property, unit and place a value enters or leaves the model",
        why="Tests mostly use one unit set; a wrong factor or a missed conversion only shows for the particular unit and entry path.",
        files=["src/tespy/tools/global_vars.py", "src/tespy/tools/helpers.py", "src/tespy/networks/network.py", "src/tespy/connections/connection.py"],
        mech=[("unit table", "src/tespy/tools/global_vars.py"), ("convert_to_SI, convert_from_SI", "src/tespy/tools/helpers.py"), ("init_conn_params, init_properties", "src/tespy/networks/network.py")],
        technique="static abstract interpretation of the conversion routines and of every entry and exit path with symbolic values; compared with the physical factors",
        note=TRUST),
    dict(
        id="C10", title="Solver verdict, Newton step and safeguards are sound",
        statement="A calculation is reported as converged exactly if it performed at least the minimum number of iterations, the residual norms of the last two iterations are below 1e-3 and no singular matrix was met; an undefined (nan) residual, a singular matrix, a stagnating iteration, init_only or an earlier converged calculation never leave the network converged. Results are calculated only for regular calculations with progress. Over- and underdetermined problems and unknown modes are rejected. Every variable moves by its own entry of minus inverse Jacobian times residual, pressure at most halving, mass fractions within zero and one and component variables within their limits. The safeguards that adjust values during the iteration change variables only: a mass flow, pressure, enthalpy or mass fraction that is not a variable keeps its value; a variable pressure or enthalpy outside the range of a pure fluid's property model is moved to the limit it exceeds, one within stays. A network whose topology was not analysed since its last change is analysed before it is solved.",
        over=["inputs", "histories"],
        quant="every history of residual norms, singular systems and increments, every component class and combination of fixed and variable values",
        why="Tests see a few iteration histories; a verdict or safeguard that is wrong for an unusual history or fixed/variable combination silently reports a wrong state.",
        files=["src/tespy/networks/network.py", "src/tespy/connections/connection.py", C],
        mech=[("solve, solve_loop, solve_determination, matrix_inversion, update_variables", "src/tespy/networks/network.py"), ("check_variable_bounds, check_connection_properties", "src/tespy/networks/network.py"), ("convergence_check", C)],
        technique="static abstract interpretation with symbolic residual histories; verdict compared as decision diagram, writes checked against the variable flags",
        note=TRUST + "Histories of up to five iterations are covered completely, stagnation with the last ten of 46 iterations symbolic; the loop body does not depend on the iteration number otherwise."),
    dict(
        id="C12", title="Off-design calculations use the saved design point and switch specifications",
        statement="What a design calculation saves is what the off-design calculation reads: the design value of every connection property (in any unit setting of either calculation), mass fraction, component parameter and bus reference is the saved one, taken from the individual design path of a component or connection where one is given and from the path of the network otherwise. Off-design mode unsets exactly the parameters listed as design and sets exactly those listed as off-design to their design values; a later design calculation restores the original specifications; local_design and local_offdesign invert this for the component or connection alone. Nothing else changes. A calculation that reads its starting values from a saved one starts from the saved mass flows, pressures, enthalpies and variable mass fractions and leaves connections missing in the file and specified values alone. Off-design without a design path, a local off-design connection without a path and a connection missing in the design case are refused, and the design point is read again whenever the path of the network, a component or a connection has changed.",
        over=["inputs", "configurations", "histories"],
        quant="every component class and parameter, every unit setting, every combination of flags, every sequence of design and off-design calculations",
        why="Tests run a few design/off-design pairs in one unit setting; flags and paths combine freely.",
        files=["src/tespy/networks/network.py", C + "component.py", "src/tespy/connections/connection.py"],
        mech=[("init_design, init_offdesign, init_offdesign_params, init_conn_design_params", "src/tespy/networks/network.py"), ("set_parameters", C + "component.py"), ("save and result tables", "src/tespy/networks/network.py")],
        technique="static abstract interpretation of the result processing, save and design/off-design initialisation over an abstract file system; design values and flags compared with their definition",
        note=TRUST + "pandas tables and csv files are replaced by a model of the operations used."),
    dict(
        id="C13", title="Fluid property functions follow the back end and the mixing rule",
        statement="For a pure fluid every property function returns the back end's value of the named property at the given state in SI units. For mixtures the ideal, ideal with condensing water, and incompressible rules combine the components' properties as documented (partial pressures, mass or molar weights, added phase volumes); temperature from pressure and enthalpy or entropy is the root of the same rule. Derivative functions are derivatives of the property they name, numerical derivatives leave the state as it was, saturation properties of mixtures and unknown mixing rules are rejected. Physical and chemical exergy and the pipe friction factor follow their documented definition in each regime.",
        over=["inputs", "configurations"],
        quant="every property function, back end method, mixing rule, composition and state",
        why="Tests evaluate a few fluids at a few states; wrong argument order, weights or regime borders stay invisible for pure fluids, equal molar masses or untested regimes.",
        files=["src/tespy/tools/fluid_properties/", "src/tespy/tools/helpers.py"],
        mech=[("property functions by p,h and p,T", "src/tespy/tools/fluid_properties/functions.py"), ("mixing rules", "src/tespy/tools/fluid_properties/mixtures.py"), ("back end wrappers", "src/tespy/tools/fluid_properties/wrappers.py"), ("friction factor, root finding", "src/tespy/tools/fluid_properties/helpers.py")],
        technique="static abstract interpretation of the property layer over symbolic back ends, states and compositions; compared with the mixing rules written in the check",
        note=TRUST + "The back ends (CoolProp, iapws, pyromat) are opaque; iterations are analysed through their exit condition, not their convergence."),
    dict(
        id="C08", title="A network loaded from an export carries the exported specifications",
        statement="A network exported to a path and loaded again is the same model: the same components of the same classes, connections between the same ports and busses with the same members, and for each of them every specified value, is-set flag, referenced object with factor and delta, fluid composition (values, fixed fluids, balance, engines, back ends), characteristic (points and parameters) and grouped parameter, the design and off-design lists, design paths and local design flags, together with the units, value ranges and iteration information setting of the network. Everything the export writes can be serialised to json, every component class can be loaded again, and the loaded objects accept later changes of the specification like the original ones.",
        over=["inputs", "configurations"],
        quant="every component class and parameter, every value, every combination of set and unset specifications, every unit setting",
        why="Tests export two or three networks with a few parameter kinds; every (class, parameter, set/unset) combination has its own serialisation path.",
        files=["src/tespy/networks/network.py", "src/tespy/networks/network_reader.py", C + "component.py", "src/tespy/connections/connection.py", "src/tespy/connections/bus.py", "src/tespy/tools/data_containers.py"],
        mech=[("export and _serialize methods", "src/tespy/networks/network.py"), ("load_network, _construct_components, _construct_connections", "src/tespy/networks/network_reader.py"), ("_serialize of the containers", "src/tespy/tools/data_containers.py")],
        technique="static abstract interpretation of export and load over an abstract file system with symbolic values and flags; heap image of the loaded objects compared with the original",
        note=TRUST + "json and the file system are modelled (dictionaries with string keys, no tuples or objects). Excluded: starting values of the composition, printout flag and reference values of busses."),
    dict(
        id="C09", title="Exergy and entropy balances of streams and components close",
        statement="The exergy of a stream is its mass flow times the specific thermal plus mechanical (physical) and chemical exergy at the stream's own state and the given ambient state. For every component and every arrangement of stream temperatures above or below ambient temperature, fuel and product exergy are the documented ones, destruction is fuel minus product (fuel alone where no product is defined), efficiency is product over fuel, the destruction of adiabatic components equals entering minus leaving exergy plus power, and the exergy a component offers to a bus is given per kind (chemical, physical, massless). Entropy balances of turbomachines, valves, merges and heat exchangers equal the documented entropy production.",
        over=["inputs", "configurations"],
        quant="every component class, temperature regime strictly above or below ambient, direction of heat flow and stream state",
        why="Tests run a few plants whose temperatures are above ambient; the other regimes are separate formulas no test evaluates.",
        files=[C, "src/tespy/connections/connection.py"],
        mech=[("exergy_balance, entropy_balance", C), ("get_physical_exergy, get_chemical_exergy", "src/tespy/connections/connection.py")],
        technique="static abstract interpretation of the balances per temperature regime; compared with the documented definitions and the overall exergy balance",
        note=TRUST + "Streams exactly at ambient temperature and the entropy balances of combustion units are not covered (see DESIGN)."),
    dict(
        id="C14", title="Characteristics interpolate their points and warn outside their range",
        statement="A characteristic line returns the linear interpolation between its points, exactly the given value at each point, the value of the nearest end outside the range, or the linear extension of the end segment if extrapolation is switched on; a characteristic map does the same in both directions. A component evaluates a characteristic at the operating point its parameters describe (off-design value over design value), and a warning is logged exactly when the operating point lies outside the range of the points. Points whose dimensions do not match are refused. Each default characteristic shipped with the package has well-formed points, and components use the shipped line or map named in their parameter unless the user gives another one. Evaluating a characteristic or checking its range never changes its points.",
        over=["inputs", "configurations"],
        quant="every line, map and operating point, every component class with characteristics",
        why="Tests evaluate a few points of single lines; errors at the ends of a table, between special points or in one component's lookup pass unnoticed.",
        files=["src/tespy/tools/characteristics.py", C, "src/tespy/data/char_lines.json", "src/tespy/data/char_maps.json"],
        mech=[("CharLine.evaluate, CharMap.evaluate, get_domain_errors", "src/tespy/tools/characteristics.py"), ("get_char_expr, check_parameter_bounds", C + "component.py"), ("shipped data", "src/tespy/data/")],
        technique="static abstract interpretation over symbolic knots, one case per position of the operating point; exact comparison with the interpolation formula; table checks of the shipped data",
        note=TRUST + "Lines of 2, 3 and 5 points and maps of up to 3 by 2 points are analysed (thorough: 7 points, 4 by 3); numpy array operations are replaced by a model."),
    dict(
        id="C15", title="Busses sum component energy flows with efficiency and exact derivatives",
        statement="A component on a bus contributes its documented energy flow multiplied by the efficiency characteristic (component base) or divided by it (bus base), the characteristic being evaluated at the load relative to the reference value. The equation of a bus with a specified value is that value minus the sum of all contributions, its derivative entries are the derivatives of the contributions for every component, also when components share variables. Reported bus results (component value, bus value, efficiency, design value, total) are these same quantities. Components, characteristics and parameters given to a bus are stored as given and invalid ones rejected.",
        over=["inputs", "configurations"],
        quant="every component class and bus parameter, efficiency base, reference value, number of busses and components and state",
        why="Tests use turbines, pumps and a few heat exchangers on busses; Newton's method hides wrong derivative entries and most component/parameter/base combinations are not run.",
        files=[C, "src/tespy/connections/bus.py", "src/tespy/networks/network.py"],
        mech=[("bus_func, bus_deriv, calc_bus_value, calc_bus_efficiency", C), ("Bus", "src/tespy/connections/bus.py"), ("process_busses", "src/tespy/networks/network.py")],
        technique="static abstract interpretation with symbolic differentiation over a model of the bus table; compared with the documented contribution per component",
        note=TRUST + "The pandas table of the bus is replaced by a model of the table operations used."),
    dict(
        id="C16", title="Specifications change exactly what was asked; invalid ones are refused",
        statement="Setting an attribute of a component, connection, bus or network takes over exactly the given value and changes nothing else: a number sets the parameter to that value and fixes it, None unsets it (a connection property together with its reference), 'var' makes a component parameter a variable, a reference, characteristic, dictionary, composition or starting value reaches the item it is meant for, design lists and flags replace the old ones and a new design path makes the design point be read again. A value of the wrong type, an unknown parameter or keyword, a port that does not exist, a component connected to itself, a label used twice and a port used twice or left open are refused with the documented exception, and the refused value is not taken over. Adding and deleting connections and busses leaves the network with exactly the remaining connections, their components and busses, and inlets and outlets of each component follow the order of its ports.",
        over=["inputs", "configurations", "histories"],
        quant="every component class and parameter, every connection property, every kind of argument, every prior state of the specification",
        why="Tests try a few wrong keywords on single classes; each parameter has its own container and path, and side effects on other parameters are never looked at.",
        files=[C + "component.py", "src/tespy/connections/connection.py", "src/tespy/connections/bus.py", "src/tespy/networks/network.py", "src/tespy/tools/data_containers.py"],
        mech=[("set_attr", C + "component.py"), ("set_attr, _parameter_specification, _fluid_specification", "src/tespy/connections/connection.py"), ("Bus.set_attr, add_comps", "src/tespy/connections/bus.py"), ("add_conns, del_conns, check_network", "src/tespy/networks/network.py")],
        technique="static abstract interpretation of set_attr and the constructors; heap image after the call compared with the image before",
        note=TRUST + "The topology checks are decided on representative networks, the setters for every class, parameter and argument kind."),
    dict(
        id="C11", title="Topology reduction keeps mass flow, composition and fluids per branch",
        statement="Connections are treated as carrying one common mass flow exactly if the components between them pass the whole flow on, and one common composition exactly if the composition passes unchanged (through splitters and droplet separators, too, but not through merges, separators and reactors); the result does not depend on the order or names of connections. Every connection knows exactly the fluids of the streams that reach it, with the fluid property engine, back end and mixing rule given for them. A mass flow or composition specified at any connection of a branch holds at all of them, a missing last mass fraction is the remainder to 1, and contradictory specifications (two mass flows in a branch, one fluid twice, a sum above 1, two mixing rules), networks without any fluid and cycles without cycle closer are refused. After a calculation, completed or aborted, every connection carries its own specification again and the branch's result.",
        over=["configurations", "histories"],
        quant="every component class in a line and the combinations of splitters, merges, separators, drums, cycles and reactors analysed, every pattern of specifications in a branch, several orders of connections, every stage a calculation can abort at",
        why="Tests solve a few plants; a wrong branch only shows for one arrangement or order of connections, and state left behind only in the next calculation.",
        files=["src/tespy/networks/network.py", C, "src/tespy/connections/connection.py"],
        mech=[("create_massflow_and_fluid_branches, propagate_fluid_wrappers, presolve_massflow_topology, presolve_fluid_topology, reset_topology_reduction_specifications", "src/tespy/networks/network.py"), ("start_branch, propagate_to_target, propagate_wrapper_to_target", C)],
        technique="static abstract interpretation of the topology code over networks built through the constructors; partition compared with the one the conservation laws imply; heap image of the specifications before and after solve",
        note=TRUST + "Decided on a finite catalogue of about 130 networks with every component class; arbitrary graphs are not enumerated."),
    dict(
        id="C17", title="The problem solved follows from the current specification, not history",
        statement="The system of equations set up for a calculation (variables, fixed values, equations, their number and the specified values) is the one a newly built network with the same specification sets up, whatever was calculated before with other specifications and however that calculation ended (completed, aborted by an error, stopped without convergence). A calculation never changes a specification of the user: flags, values and references are the same before and after it, also if it does not converge.",
        over=["histories", "inputs"],
        quant="every ordered pair of the specification sets analysed (values, references, mass fractions, state specifications resolved beforehand, groups, variables, bus values) on three networks, every ending of the first calculation, all values",
        why="Tests rarely change the kind of specification between calculations of one network, and compare results rather than the system that is solved.",
        files=["src/tespy/networks/network.py", "src/tespy/connections/connection.py", C + "component.py"],
        mech=[("initialise, init_set_properties, _assign_variable_space, solve, postprocessing", "src/tespy/networks/network.py"), ("preprocess, simplify_specifications, set_attr", "src/tespy/connections/connection.py"), ("preprocess", C + "component.py")],
        technique="static abstract interpretation of initialise and solve with symbolic specification values and solver results; problem after a history compared with the one of a new network",
        note=TRUST + "Design mode only; off-design switching is the subject of C12. Starting values of the variables may depend on history."),
    dict(
        id="C18", title="Exergy analysis accounts for every component and bus once and conserves",
        statement="ExergyAnalysis reports, for every network and every assignment of busses: per bus contribution E_F, E_P and E_D (component based: E_F is the component's bus exergy and E_P this times the bus efficiency; bus based: E_P is the component's bus exergy and E_F this divided by the efficiency); for the network E_F, E_P and E_L as the sums over the fuel, product and loss busses with the sign of the direction, E_D as the sum over components and busses, and epsilon = E_P / E_F; the aggregation of component and bus; destruction ratios y_Dk and y*_Dk; per component group E_in, E_out and E_D, and the flows between groups, busses and E_F/E_P/E_L/E_D by kind of exergy and of fluid, of which the diagram shows every one above the threshold once. If the balances of the components close, those of the network and of every group close; an open balance is reported. Ambient state is converted from the network's units. A second analysis does not depend on the first. Missing fuel or product, reserved labels and components on two of the busses are refused.",
        over=["inputs", "histories"],
        quant="all exergy values and efficiencies (symbols), six assignments of busses, five groupings of the components, with and without chemical exergy",
        why="Tests check the closed balance of a few plants; errors in signs, in flows shared by two components of a group or in bus losses cancel or are not looked at.",
        files=["src/tespy/tools/analyses.py"],
        mech=[("analyse, evaluate_busses, create_group_data, remove_transit_groups, generate_plotly_sankey_input", "src/tespy/tools/analyses.py")],
        technique="static abstract interpretation of the analysis over networks with symbolic exergy values and a model of the pandas tables; tables compared with their definitions and balances with zero",
        note=TRUST + "The balances of components and the exergy of streams are the subject of C09 and symbols here; pandas is replaced by a model of the operations used. Decided on one network of nine components."),
    dict(
        id="C19", title="Optimization hands every variable, bound and limit to its own place",
        statement="OptimizationProblem, for every set of decision variables (of connections, components and custom kinds) and of constraints: get_bounds returns for every position the minimum and maximum specified for that very variable; the model is solved with every value of the decision vector at the parameter it belongs to and with no other parameter set; fitness returns the objective, then one entry per constraint: value minus limit for an upper limit and limit minus value for a lower limit, where a limit given by reference is the value of the referenced parameter and defaults missing in the specification are filled in without losing or overriding the user's entries; get_nic equals the number of constraints; after a run, individuals hold for every generation and individual the decision vector, objective and constraint values that belong together and are marked valid exactly if every constraint entry is negative; the user's specification dictionaries are not altered.",
        over=["inputs", "histories"],
        quant="all bounds, limits, decision vectors and model results (symbols), four sets of variables times four sets of limits, several generations",
        why="The optimization test has two variables and one constraint and looks at the optimum only; a swapped position or an inverted sign for references is not observed.",
        files=["src/tespy/tools/optimization.py", "src/tespy/tools/helpers.py"],
        mech=[("OptimizationProblem", "src/tespy/tools/optimization.py"), ("merge_dicts", "src/tespy/tools/helpers.py")],
        technique="static abstract interpretation of the optimization interface with symbolic bounds, limits, vectors and model results; positions and values compared with the specification",
        note=TRUST + "The optimization algorithm (pygmo) and the user's model class are replaced by recording models."),
    dict(
        id="C20", title="Looking at a model does not change it",
        statement="Looking at a model does not change it. Evaluating residuals, derivatives, fluid properties, characteristics and bus values, calculating component results, checking parameter bounds, printing results, saving and exporting, the model documentation, data for property diagrams, the exergy analysis and lookups of connections, components and parameters leave the specifications, variables, compositions, characteristics, result tables, units and topology of the network, its connections, components and busses as they were, apart from the results each of them exists to deliver; a variable perturbed for a numerical derivative has its value again afterwards; lists, dictionaries and tables the user hands over are not modified.",
        over=["inputs", "histories"],
        quant="every function reached from an evaluation, a report or an analysis, every assignment, deletion and modifying call in it, on every path",
        why="Tests look at what a report or a derivative returns and not at what it leaves behind; a modified specification shows up only in the next calculation.",
        files=["src/tespy/networks/network.py", "src/tespy/networks/network_reader.py", "src/tespy/connections/connection.py", "src/tespy/connections/bus.py", "src/tespy/components/component.py", "src/tespy/components", "src/tespy/tools/analyses.py", "src/tespy/tools/document_models.py", "src/tespy/tools/characteristics.py", "src/tespy/tools/fluid_properties"],
        mech=[("print_results, save, export", "src/tespy/networks/network.py"), ("residuals, derivatives, calc_parameters", "src/tespy/components"), ("numeric_deriv", "src/tespy/components/component.py"), ("ExergyAnalysis", "src/tespy/tools/analyses.py"), ("document_model", "src/tespy/tools/document_models.py")],
        technique="interprocedural static side-effect analysis (who owns the object every assignment, deletion or modifying call acts on) over the syntax tree, with the permitted effects per kind of operation",
        note=TRUST + "Calls into libraries outside the repository are taken to modify only the objects known to be modified by them (container methods, in-place arguments). A value written and put back in the same function counts as temporary; for the numerical derivatives the value put back is decided by abstract interpretation."),
]
NOT_APPLICABLE = [
    dict(id="C90", title="The solver converges for well-posed problems",
         statement="For a well-posed network the Newton iteration reaches a solution from the generated starting values.",
         over=["inputs"], quant="every well-posed network", why="Tests sample a few networks.",
         files=["src/tespy/networks/network.py"], mech=[("solve loop", "src/tespy/networks/network.py")],
         reason="Convergence depends on the numerical values met along the iteration; no sound static argument in reach bounds it."),
    dict(id="C91", title="The solution does not depend on starting values",
         statement="For one specification, converged calculations started from different starting values report the same state.",
         over=["histories"], quant="every pair of starting values", why="Tests use one start each.",
         files=["src/tespy/networks/network.py"], mech=[("starting value generation", "src/tespy/networks/network.py")],
         reason="The nonlinear systems may have several roots; uniqueness is a numerical question about the specific network that source analysis cannot settle."),
    dict(id="C92", title="Property functions invert each other within tolerance",
         statement="Temperature from pressure and enthalpy, and enthalpy from pressure and temperature, invert each other within the documented tolerance for every fluid and mixture.",
         over=["inputs"], quant="every state of every fluid", why="Tests sample states.",
         files=["src/tespy/tools/fluid_properties/functions.py"], mech=[("iterative inversion", "src/tespy/tools/fluid_properties/functions.py")],
         reason="The accuracy of the inversion depends on numerical values computed by CoolProp outside the repository."),
]
