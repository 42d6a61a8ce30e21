"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py after editing)."""

PROPS = []


def prop(id, title, statement, over, qtext, why, files, mechanism, technique, note, claimed=True, reason=None):
    PROPS.append(
        dict(
            id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
            mechanism=mechanism, technique=technique, note=note, claimed=claimed, reason=reason,
        )
    )


prop(
    "P01",
    "Expressions mean what the documentation says, for every expression",
    "Every expression a model can contain (numbers incl. scientific notation, time series and variable references, "
    "{+} {-} {*} {/} {^}, comparison operators, parentheses, unary minus) evaluates at every time step to the value "
    "ordinary arithmetic gives with the documented precedence and left-to-right grouping, comparisons giving 1 or 0 and division by "
    "zero giving 0, and conditions mask values to 0 exactly where they are 0. Spacing and redundant parentheses never "
    "change the value, each time step depends only on its own inputs, and text that is not an expression (missing operand, operands with no "
    "operator, unbalanced parentheses, unknown reference) is rejected rather than given a value.",
    ["inputs", "programs"],
    "all expressions and all values of the referenced series",
    "Tests evaluate a few dozen hand-written expressions; precedence and error handling errors show only for "
    "particular operator combinations, which random expression trees reach.",
    ["src/libecalc/expression/expression.py", "src/libecalc/expression/expression_evaluator.py",
     "src/libecalc/expression/expression_tree.py", "src/libecalc/common/variables.py"],
    [("tokenising and evaluating expressions", "src/libecalc/expression/expression_evaluator.py: eval_tokens"),
     ("expression tree from tokens", "src/libecalc/expression/expression_tree.py"),
     ("variables per period", "src/libecalc/common/variables.py: VariablesMap")],
    "reference-model monitor: every evaluation compared with an independent tree evaluator on random expression trees, plus mutated texts that must be refused",
    "random expression trees (depth <= 5) over random series; tens of thousands of evaluations per run, not all expressions",
)

prop(
    "P04",
    "Rates, volumes and resampling conserve what they carry",
    "For every time vector, converting a rate to volumes, cumulatives, another unit or another day-type, slicing and rejoining it, "
    "adding rates, and resampling it to years, months or days conserves the quantity: each resampled volume is the "
    "integral of the original rate over that period (stream-day rates weighted by regularity), cumulatives are running sums of volumes, and a sum's "
    "volume is the sum of the volumes. State-like series take the value in effect at the start of each new period, "
    "a new period is valid only if every overlapped period is, and series with different units, day types, gaps or overlaps are refused rather than combined.",
    ["inputs"],
    "all whole-day time vectors, values, regularities and output frequencies",
    "Tests use a few regular time vectors; errors appear for irregular steps, leap days, zero rates, differing "
    "regularities and periods off the output grid.",
    ["src/libecalc/common/utils/rates.py", "src/libecalc/common/time_utils.py", "src/libecalc/common/list/list_utils.py"],
    [("rate/volume/cumulative time series", "src/libecalc/common/utils/rates.py"),
     ("output grid", "src/libecalc/common/time_utils.py: resample_periods")],
    "reference-model monitor: every derived series compared with an independent step-function integral",
    "random time vectors incl. leap days and year ends; sub-day time stamps are out of scope",
)

prop(
    "P02",
    "Time series files and the model time vector are read faithfully",
    "Every valid time series CSV (any documented date format, any row order, any number of columns, comments and blank lines) gives each "
    "referenced column at each model period the value its interpolation type defines (LEFT, RIGHT, LINEAR), zero before "
    "the first date and, after the last, the last value with EXTRAPOLATION and zero without. The time vector holds exactly the sorted, distinct "
    "dates of influencing series, date keys and START/END, within START and END; non-influencing series never "
    "change it. Missing columns, non-numeric values, duplicate dates, unparsable dates and missing files are refused.",
    ["inputs"],
    "all time series files, interpolation settings, influence settings and START/END combinations",
    "Tests read a few tidy files; wrong values appear for unsorted rows, dates off the series grid, "
    "START/END inside the series and mixtures of series.",
    ["src/libecalc/presentation/yaml/domain/time_series_resource.py", "src/libecalc/presentation/yaml/domain/time_series_collection.py",
     "src/libecalc/presentation/yaml/domain/time_series_collections.py", "src/libecalc/presentation/yaml/mappers/variables_mapper/get_global_time_vector.py",
     "src/libecalc/domain/resource.py", "src/ecalc_cli/infrastructure/file_resource_service.py"],
    [("time series resource and interpolation", "src/libecalc/presentation/yaml/domain/time_series_resource.py"),
     ("global time vector", "src/libecalc/presentation/yaml/mappers/variables_mapper/get_global_time_vector.py")],
    "reference-model monitor: every series value at every model period, and the time vector, compared with an independent reading of the generated file",
    "random files and settings through the real loader; only whole-day dates",
)

prop(
    "P06",
    "Fuel and emission accounting adds up from consumer to asset",
    "For every asset and every period: the fuel of a fuel consumer or generator set is its stream-day usage times regularity; each of its "
    "emissions [t/d] is that calendar-day fuel rate times the factor [kg/Sm3] of the fuel in effect / 1000, for exactly the "
    "emissions its fuels have; an installation's fuel, power (electrical, mechanical, total) and each emission are the sums over its own components, "
    "every component counted exactly once, and the asset's are the sums over installations. Cumulative fuel [Sm3], emissions [t] and "
    "power [GWh] are the running integrals of the reported rates over the period lengths (power weighted with regularity).",
    ["inputs", "programs"],
    "all assets (component sets, fuels, emission factors, regularities, dated changes) and all time vectors",
    "Tests compare a few snapshot models; double counting, a component left out, a wrong factor, a wrong unit or a lost day show "
    "only for certain mixtures of components, fuels shared or switched over time, zero rates and irregular periods.",
    ["src/libecalc/presentation/json_result/mapper.py", "src/libecalc/presentation/json_result/aggregators.py",
     "src/libecalc/domain/infrastructure/energy_components", "src/libecalc/domain/emission", "src/libecalc/common/utils/rates.py"],
    [("result assembly and aggregation", "src/libecalc/presentation/json_result/mapper.py: get_asset_result"),
     ("emission calculation", "src/libecalc/domain/infrastructure/emitters"),
     ("cumulatives", "src/libecalc/common/utils/rates.py: TimeSeriesVolumes.cumulative")],
    "reference-model monitor: random whole assets run end to end; every component, installation, asset and cumulative value compared with an independent model",
    "random assets with direct, tabulated, sampled compressor, turbine-driven and pump consumers, generator sets and venting emitters",
)

E2E = "reference-model monitor over whole model runs: every reported figure compared with an independent reference of the documented model"

prop(
    "P03",
    "Time-dependent input applies from its date until the next one",
    "Any input that may be given per date (fuel, energy usage model, ELECTRICITY2FUEL, regularity, HCEXPORT, category, variables) has, at every "
    "step, the value of the latest date at or before the step; dates split the time vector and change nothing else: adding a date "
    "at which nothing changes changes no rate and no total. Before its first date a consumer uses nothing (and a variable or export is 0), "
    "a generator set before its first model is invalid, and results for a given START/END are those of the dates inside it whatever lies outside; "
    "what starts only after END is left out.",
    ["inputs", "histories"],
    "all models, date keys and START/END",
    "Tests date one input at a time on aligned dates; errors show when several dated inputs with different dates meet "
    "and when the window cuts them.",
    ["src/libecalc/common/temporal_model.py", "src/libecalc/common/time_utils.py", "src/libecalc/presentation/yaml/mappers/component_mapper.py",
     "src/libecalc/expression/temporal_expression.py", "src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py"],
    [("temporal models", "src/libecalc/common/temporal_model.py: TemporalModel"),
     ("date keys to periods", "src/libecalc/common/time_utils.py: define_time_model_for_period")],
    E2E + "; metamorphic monitor for irrelevant dates and other windows",
    "random models with dates on most inputs; fuels and regularities are defined from START or earlier",
)

prop(
    "P07",
    "Electricity balance: generator sets supply exactly what their consumers use",
    "At every step the power of a generator set is the sum of the power of its consumers; its fuel is the ELECTRICITY2FUEL table "
    "interpolated linearly at that power (constant beyond the ends of the table, 0 at zero or negative power); the capacity margin is the "
    "highest tabulated power minus the power, and the step is invalid exactly when the margin is negative or no generator set model is in effect. "
    "Consumers' power loss factors are applied as power/(1-factor), and installation and asset electrical power are the sums of the consumers.",
    ["inputs"],
    "all generator tables, consumer mixes and loads",
    "Tests use one table and loads inside it; the errors are at the table's ends, at zero and negative load and with several consumers.",
    ["src/libecalc/domain/infrastructure/energy_components/generator_set/generator_set_component.py",
     "src/libecalc/domain/infrastructure/energy_components/generator_set/generator_set_model.py",
     "src/libecalc/domain/infrastructure/energy_components/electricity_consumer/electricity_consumer.py"],
    [("power to fuel, margin, validity", "src/libecalc/domain/infrastructure/energy_components/generator_set/generator_set_component.py"),
     ("table", "src/libecalc/domain/infrastructure/energy_components/generator_set/generator_set_model.py")],
    E2E,
    "random tables and loads, 1-3 generator sets; a step where a consumer's power is undefined is not judged for the generator set",
)

prop(
    "P08",
    "Regularity is a fraction and is applied consistently",
    "REGULARITY outside 0..1 at any step of the run is refused; inside, it is reported as given. Calendar-day rates given as input are divided by regularity before "
    "they meet an energy model (0 when regularity is 0), stream-day rates are not; fuel and emissions are reported per calendar day (stream-day x regularity), "
    "power per stream day; and every cumulative (fuel, emissions, energy in GWh) is the integral of the calendar-day figure. Default regularity is 1.",
    ["inputs"],
    "all regularities (constant, expression, dated, zero) and consumer kinds",
    "Tests nearly always run with regularity 1, where applying it twice or not at all makes no difference.",
    ["src/libecalc/domain/regularity.py", "src/libecalc/common/utils/rates.py", "src/libecalc/presentation/json_result/mapper.py",
     "src/libecalc/domain/time_series_flow_rate.py", "src/libecalc/presentation/yaml/domain/expression_time_series_flow_rate.py"],
    [("range check", "src/libecalc/domain/regularity.py: validate"), ("day type conversion", "src/libecalc/common/utils/rates.py: Rates")],
    E2E + "; out-of-range regularities must be refused",
    "random models, each installation with its own regularity",
)

prop(
    "P09",
    "Venting emitters report exactly the emissions they were given",
    "For every venting emitter and step, a direct emission is its rate where its conditions hold (0 elsewhere), in t/d (kg/d input / 1000), "
    "and an oil volume's emissions are volume rate x emission factor (kg/Sm3) / 1000; stream-day rates are multiplied by regularity, calendar-day rates are not. Emissions "
    "listed more than once under one name (in any case) add up, and installation and asset emissions include every emitter once.",
    ["inputs"],
    "all emitters, units, day types, conditions and regularities",
    "Tests check single emitters with regularity 1 and no conditions.",
    ["src/libecalc/presentation/yaml/mappers/component_mapper.py", "src/libecalc/domain/infrastructure/emitters/venting_emitter.py",
     "src/libecalc/presentation/yaml/domain/expression_time_series_flow_rate.py"],
    [("emission rates", "src/libecalc/domain/infrastructure/emitters/venting_emitter.py")],
    E2E,
    "random emitters of both types next to other consumers",
)

prop(
    "P10",
    "Consumer systems use the first workable setting and lose no flow",
    "In compressor and pump systems, at every step the operational setting used is the first one in which every member is valid, and the last one if none is; "
    "it is reported (counting from 1). Each member gets its rate (or fraction of the total rate), pressures and density of that setting; with CROSSOVER, what exceeds "
    "a sender's maximum rate goes to the receiver when the receiver's discharge pressure is at least the sender's, so that total flow is conserved. Energy usage and power "
    "are the sums over the members (with the system's power loss factor), and the system is valid exactly when every member is.",
    ["inputs"],
    "all systems, settings, crossovers and operating points",
    "Tests use two identical compressors and two settings; priorities, crossover and sums go wrong for mixed members and partial failures.",
    ["src/libecalc/domain/infrastructure/energy_components/legacy_consumer/system/consumer_function.py", "src/libecalc/core/consumers/legacy_consumer/system/results.py",
     "src/libecalc/domain/infrastructure/energy_components/legacy_consumer/system/operational_setting.py", "src/libecalc/presentation/json_result/mapper.py"],
    [("settings, crossover and selection", "src/libecalc/domain/infrastructure/energy_components/legacy_consumer/system/consumer_function.py")],
    E2E,
    "1-4 members, 1-4 settings, one crossover receiver per setting; members are sampled compressors (with and without turbine) and pumps",
)

prop(
    "P11",
    "Tabulated and sampled consumers interpolate inside and refuse outside",
    "Energy usage of TABULATED consumers and of sampled compressors is the linear interpolation of the table at the operating point "
    "and equals the tabulated value at a tabulated point, whatever the order of rows, columns and variables. A tabulated consumer outside its table, and a compressor above its highest rate, "
    "above its highest discharge pressure or below its lowest suction pressure, is invalid with undefined energy; a compressor below its lowest rate or discharge pressure or above its highest suction pressure "
    "is evaluated on that limit; zero rate uses nothing. Columns with one value throughout act as limits, and power follows fuel where both are tabulated.",
    ["inputs"],
    "all tables with one to three variables and all operating points",
    "Tests evaluate a handful of points per table, mostly inside it.",
    ["src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py",
     "src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_3d.py",
     "src/libecalc/domain/infrastructure/energy_components/legacy_consumer/tabulated/tabular_energy_function.py"],
    [("sampled compressors", "src/libecalc/domain/process/compressor/core/sampled/"),
     ("tabulated consumers", "src/libecalc/domain/infrastructure/energy_components/legacy_consumer/tabulated/")],
    E2E,
    "tables spanning a box with affine values in two and three variables, piecewise linear in one; within 1e-4 of a compressor's rate limits values are compared to 2e-4",
)

prop(
    "P12",
    "Pumps: head, power and validity follow from the pump chart",
    "For every pump, the head is (discharge - suction pressure)/density; rates below the minimum flow are recirculated up to it, heads below the chart "
    "are choked from it, a head above the chart by no more than HEAD_MARGIN (in metres) is taken as the chart's; power is density x head x rate / efficiency, with the chart's efficiency at that point, "
    "divided by (1 - power loss factor). The step is invalid exactly when the rate or the head is beyond the chart; zero rate uses nothing. "
    "Chart units (head in m, J/kg or kJ/kg, efficiency in fraction or percent), row order and speed column do not change the result, and rate, pressures and head are reported as used.",
    ["inputs"],
    "all single and variable speed charts and operating points",
    "Tests use one chart and few points; limits, margins, units and interpolation between speeds need many.",
    ["src/libecalc/domain/process/pump/pump.py", "src/libecalc/domain/process/value_objects/chart/chart.py",
     "src/libecalc/presentation/yaml/mappers/facility_input.py"],
    [("pump model", "src/libecalc/domain/process/pump/pump.py"), ("chart", "src/libecalc/domain/process/value_objects/chart/chart.py")],
    E2E,
    "random charts of 1-4 speeds with 3-6 points each; efficiency at points beyond the maximum rate only with constant efficiency",
)

prop(
    "P16",
    "Turbines: fuel, load and overload follow from load and efficiency",
    "For every compressor driven by a turbine and every step: the load is the compressor power adjusted by the compressor's factor and constant and then by the turbine's, "
    "the efficiency is interpolated at that load, the fuel is load x 86400 / (heating value x efficiency), and zero load uses no fuel. A load above the highest turbine load is reported as "
    "exceeding and makes the compressor invalid. The maximum rate of a turbine-driven compressor is the highest one at which compressor and turbine are both within their limits.",
    ["inputs"],
    "all turbines, adjustments, compressors and operating points",
    "Tests use one turbine without adjustment and with loads in range.",
    ["src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py", "src/libecalc/domain/process/compressor/core/base.py"],
    [("turbine", "src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py"),
     ("compressor with turbine", "src/libecalc/domain/process/compressor/core/base.py")],
    E2E + "; maximum rate monitored against the load it implies",
    "turbines on sampled compressors, alone and in systems",
)

prop(
    "P17",
    "Validity is honest at every level",
    "A step is reported invalid exactly where a component cannot do what it is asked (outside its table, above its maximum rate or head, turbine or generator set overloaded, "
    "no workable operational setting) and valid everywhere else, for consumers, their models and system members, whatever the order of steps; one invalid step never marks another. An installation is valid "
    "where all its components are, the asset where all installations are, and nothing invalid is hidden by an aggregate.",
    ["inputs"],
    "all models and operating points",
    "Tests check validity of single models; masking in aggregates and between steps needs mixtures of valid and invalid steps.",
    ["src/libecalc/presentation/yaml/model.py", "src/libecalc/core/result/results.py", "src/libecalc/domain/process/core/results/base.py",
     "src/libecalc/domain/infrastructure/energy_components/legacy_consumer/component.py"],
    [("aggregation", "src/libecalc/presentation/yaml/model.py: get_validity"),
     ("per consumer", "src/libecalc/domain/infrastructure/energy_components/legacy_consumer/component.py")],
    E2E,
    "random models in which 30-90 % of consumers are driven beyond their limits at some step",
)

CLI = "reference-model monitor over runs of the command line program: every figure in every file written compared with an independent computation"

prop(
    "P18",
    "The files of `ecalc run` say what the results say, in every format and frequency",
    "For every model and every combination of options (output frequency, date format, CSV, JSON, simple or full detail, flow diagram, name prefix), each file asked for is written, one row per "
    "period of the chosen frequency with the period's start in the chosen date format, one column per component and series labelled with its unit and day type, and every figure equals the library's result: "
    "as it is at frequency NONE; otherwise rates averaged over the period, cumulatives at the period's end, states at its start and a period valid only if all of it is. No component, series, emission or period is missing or duplicated, and CSV and JSON agree.",
    ["inputs", "configurations"],
    "all models and option combinations",
    "Tests write a handful of files and compare snapshots; wrong alignment shows only for irregular periods, mid-year starts and particular frequency/format combinations.",
    ["src/ecalc_cli/commands/run.py", "src/ecalc_cli/io/output.py", "src/libecalc/presentation/json_result/result/tabular_time_series.py",
     "src/libecalc/presentation/simple_result/simple.py", "src/libecalc/presentation/flow_diagram/energy_model_flow_diagram.py"],
    [("writing files", "src/ecalc_cli/io/output.py"), ("run command", "src/ecalc_cli/commands/run.py")],
    CLI,
    "random assets without thermodynamic models; values compared at the written precision",
)

prop(
    "P19",
    "LTP and STP exports count exactly the right consumers, fuels and emissions",
    "For every asset, each column of the LTP and STP exports is, for each reported period, the volume [Sm3, t or GWh] over that period of exactly the consumers, generator sets, fuels or emissions it is "
    "defined for: those of the column's consumer category, fuel category and emission, only while those categories (which may be dated) are in effect, each counted once, per installation of the column's category (fixed or mobile); power from shore "
    "includes cable loss, and the highest usage from shore is the highest in the period. Fuel and emissions are per calendar day, power is weighted by regularity, and the periods of the output frequency add up to the total.",
    ["inputs", "configurations"],
    "all assets, category histories and output frequencies",
    "Tests check single columns on tidy yearly models; a category that changes inside a period, regularity and several consumers in one column are not tested together.",
    ["src/libecalc/presentation/exporter", "src/ecalc_cli/io/output.py"],
    [("columns and filters", "src/libecalc/presentation/exporter/configs/configs.py"), ("queries", "src/libecalc/presentation/exporter/queries.py"),
     ("generators", "src/libecalc/presentation/exporter/generators.py")],
    CLI,
    "random assets with direct, tabulated, sampled, turbine and pump consumers; table of columns frozen at the pinned commit",
)

prop(
    "P20",
    "Emission intensity is CO2 emitted per hydrocarbon exported",
    "For every asset and output frequency, the reported emission intensity [kg/Sm3] at a period is the CO2 emitted from start to the end of the period (kg, all installations, fuel and venting) divided by the hydrocarbons "
    "exported until then; the yearly intensity, given only at yearly output, is that of each year alone; figures per barrel are those divided by 6.29. With nothing exported the intensity is undefined, never 0 or a stale figure; a model without CO2 has no intensity and still gets its other output.",
    ["inputs", "configurations"],
    "all assets, export profiles and output frequencies",
    "Tests check one model with steady export; years without export, partial years and several installations are not sampled.",
    ["src/libecalc/presentation/json_result/mapper.py", "src/libecalc/domain/emission/emission_intensity.py", "src/ecalc_cli/emission_intensity.py", "src/ecalc_cli/io/output.py"],
    [("intensity calculator", "src/ecalc_cli/emission_intensity.py")],
    CLI,
    "random assets with direct consumers and venting emitters",
)

prop(
    "P26",
    "The fluid service answers for the state asked about, whatever came before",
    "For every history of questions, equations of state, cache sizes and threads, a flash at given pressure and temperature, or pressure and enthalpy, gives the properties the thermodynamic package has for exactly that composition "
    "(whatever its normalisation), equation of state and state; nothing remembered from an earlier question, evicted entry or failed flash shows in it, and a flash that fails or misses the enthalpy is an error, never an answer. Caches hold at most their limit, oldest use forgotten first. "
    "Liquid removal leaves the gas phase with its own composition and leaves a gas untouched; mass and standard rates are each other's inverse by the density of the gas at 15 C and 1.01325 bara.",
    ["inputs", "histories", "schedules"],
    "all histories of questions, cache sizes and thread schedules",
    "Unit tests ask a few questions of a fresh service; a key that is too coarse or state left over from an earlier question shows only for particular sequences.",
    ["src/ecalc_neqsim_wrapper/fluid_service.py", "src/ecalc_neqsim_wrapper/cache_service.py", "src/ecalc_neqsim_wrapper/thermo.py", "src/libecalc/process/fluid_stream"],
    [("service and cache keys", "src/ecalc_neqsim_wrapper/fluid_service.py"), ("caches", "src/ecalc_neqsim_wrapper/cache_service.py")],
    "reference-model monitor over random histories of questions: every answer compared with the thermodynamic package asked directly; caches compared with a model LRU; also from several threads",
    "the thermodynamic package is an analytic stand-in with NeqSim's interface (no jar offline); random thread schedules only",
)

FAKE_NOTE = "the thermodynamic package is an analytic stand-in with NeqSim's interface (no jar offline)"

prop(
    "P13",
    "Compressor charts: limits, interpolation, margin, capacity and generic charts",
    "For every compressor chart (one or more speed curves in any order, control margin) and every rate, head and speed: rate limits follow speed linearly between curves; head and efficiency at a point are those of the curve, or interpolated between the two curves "
    "around the speed; a point is valid exactly inside the speed range and up to the maximum rate, and carries the right area flag; a control margin only moves the left end of each curve; rates left of the chart are lifted to the minimum flow, heads below it are choked, "
    "and exactly the points right of or above it exceed capacity; efficiencies stay within those of the chart; the scale of rate and head does not matter. A generic chart is the unified chart scaled to its design point; one made from operating points holds them all.",
    ["inputs"],
    "all charts, control margins and operating points",
    "Tests look up a handful of points in one or two charts with round numbers.",
    ["src/libecalc/domain/process/value_objects/chart/chart.py", "src/libecalc/domain/process/value_objects/chart/compressor"],
    [("chart", "src/libecalc/domain/process/value_objects/chart/chart.py"), ("compressor chart", "src/libecalc/domain/process/value_objects/chart/compressor")],
    "reference-model monitor: every answer of the chart over random charts and points compared with an independent chart",
    "heads fall with rate and curves move right and up with speed; points on an edge between curves set aside",
)

prop(
    "P24",
    "Process units do their one job, conserve the rest and refuse what they cannot",
    "For every stream and setting: a choke or pressure drop lowers only the pressure, a temperature setter changes only the temperature, a liquid remover leaves the gas phase and its mass, offtakes and recirculation move exactly their rate; mixing conserves mass, moles of each component "
    "and enthalpy at the lowest inlet pressure, whatever the order; a compressor adds head over efficiency from its chart as enthalpy and reaches the pressure its head gives; a loop lets through what enters it. Streams carry properties of their own composition, pressure and temperature. "
    "Too little pressure or rate, liquid, surge and stonewall, and mixing of different equations of state are refused with their own error, exactly when they apply. A train gives what its units give one by one, and compressors on a shaft share its speed.",
    ["inputs", "configurations", "histories"],
    "all streams, trains of units and settings",
    "Unit tests pass one dry stream through each unit; conservation and the exact limits hold for all fluids, rates and trains of units or not at all.",
    ["src/libecalc/process/process_units", "src/libecalc/process/fluid_stream", "src/libecalc/process/shaft.py", "src/libecalc/process/process_solver/process_pipeline_runner.py",
     "src/libecalc/process/process_solver/recirculation_loop.py", "src/libecalc/domain/process/entities/process_units", "src/libecalc/domain/process/compressor/core/train/utils/common.py"],
    [("process units", "src/libecalc/process/process_units"), ("stream mixer", "src/libecalc/process/fluid_stream/stream_mixer.py"), ("compression step", "src/libecalc/domain/process/compressor/core/train/utils/common.py")],
    "reference-model monitor: every unit of random trains of units compared with its own specification (conservation laws, chart, thermodynamic package), the train with its units",
    FAKE_NOTE,
)

prop(
    "P25",
    "The process solver: solutions meet the target, refusals are real, no memory",
    "For every compressor train (stages, coolers, scrubbers, offtakes, margins, any of the five pressure controls), inlet and target pressure: an answer called a solution, put on the train, delivers the target pressure and all of the mass with speed within the shaft's range and no negative setting; "
    "a target the speed alone can meet is met with the least recirculation that keeps every compressor right of its surge line and no choking; a lower one at the lowest speed by the train's own kind of control (choke, common recirculation, equal fraction, equal pressure ratio). "
    "A target called unreachable is beyond what the train can do, with the true limit and direction. Answers do not depend on what was solved before.",
    ["inputs", "configurations", "histories"],
    "all trains, inlet streams, targets and histories of targets",
    "Tests solve a few trains for a few targets; a setting from another iteration, a missed reachable target or state kept between solves shows for particular charts and targets only.",
    ["src/libecalc/process/process_solver"],
    [("section solver", "src/libecalc/process/process_solver/pipeline_section_solver.py"), ("speed and recirculation finders", "src/libecalc/process/process_solver/finders"),
     ("pressure control", "src/libecalc/process/process_solver/pressure_control"), ("anti-surge", "src/libecalc/process/process_solver/anti_surge")],
    "certificate monitor: every answer is put on a new train and judged against the train's own limits found by bisection; histories compared with new trains",
    FAKE_NOTE + "; pressures to 2e-3, a common recirculation to a percent",
)

prop(
    "P27",
    "Sections in a row each meet their own pressure, one speed per shaft",
    "For every train cut into sections: with sections on one shaft, a solution gives one speed, the highest any section needs, and every section delivers its own target pressure, the others brought down by their own pressure control; it is refused only when a section alone cannot do its part or cannot bring its pressure down at that speed. "
    "With a shaft each, sections are solved one after the other on what the one before delivers; with equal ratios, each takes the same part of the pressure ratio. Each setting is given once. Chokes inside the train, a single section or different shafts are refused. Nothing solved before matters.",
    ["inputs", "configurations", "histories"],
    "all trains, sections, targets and histories of targets",
    "Tests solve two sections with one set of targets; which section governs and what the others must do changes with targets and charts.",
    ["src/libecalc/process/process_solver/multi_pressure_solver.py", "src/libecalc/process/process_solver/multi_shaft_solver.py", "src/libecalc/process/process_solver/multi_shaft_equal_ratio_solver.py"],
    [("sections on one shaft", "src/libecalc/process/process_solver/multi_pressure_solver.py"), ("sections on a shaft each", "src/libecalc/process/process_solver/multi_shaft_solver.py")],
    "certificate monitor: every answer is put on a new train section by section; required speeds and refusals compared with the sections solved alone",
    FAKE_NOTE,
)

prop(
    "P28",
    "Distribution of rates between trains loses nothing and overflows only excess",
    "For every set of trains, shares and overflows: each train gets its own share of the rate plus what overflows to it, less what it cannot take where it has somewhere to overflow to, whatever the order of trains and overflows; the total is the inlet and every stream has the inlet's state; overflow in a circle is refused. "
    "Of several settings the first every train can take is used, else the last. The excess of a compressor train for a target pressure is zero exactly when the train can deliver it all, and otherwise leaves a rate it can deliver, at the edge of what it can.",
    ["inputs", "configurations"],
    "all networks, shares, capacities and trains",
    "Tests use two or three trains overflowing in the order they are listed.",
    ["src/libecalc/process/stream_distribution", "src/libecalc/process/process_solver/feasibility_solver.py"],
    [("distribution", "src/libecalc/process/stream_distribution/common_stream_distribution.py"), ("capacity", "src/libecalc/process/process_solver/feasibility_solver.py")],
    "reference-model monitor: rates of random networks compared with a recursion over the network; capacities tried on new trains at and beyond the edge",
    FAKE_NOTE,
)

prop(
    "P14",
    "Compressor trains: operating points are real, meet the request, or fail as such",
    "In every model, a compressor train on one shaft (single or variable speed, one or several streams, interstage pressure) is reported at a point it can be in: all stages at one speed within its charts, each on its own chart and fed by the stage before it less liquid and pressure drop, with mass, power and pressures following from head, efficiency and fluid; "
    "no stage left of its surge line or beyond stonewall. A step reported without failure meets all the requested pressures within maximum power and pressure, at the lowest speed that does, with recirculation or choking as the pressure control says. "
    "Failures name what cannot be met and appear only then. A train runs at its reported maximum rate, and not above it.",
    ["inputs", "configurations"],
    "all charts, fluids, trains, streams, pressure controls and requests",
    "Tests run a few trains on the real fluid package at a handful of rates and pressures; which control, speed and failure applies depends on all of chart, fluid, rate and pressures.",
    ["src/libecalc/domain/process/compressor/core/train", "src/libecalc/domain/process/value_objects/chart/compressor", "src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py", "src/libecalc/domain/infrastructure/energy_components/legacy_consumer/consumer_function"],
    [("common shaft train", "src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py"), ("stage", "src/libecalc/domain/process/compressor/core/train/stage.py"),
     ("chart limits", "src/libecalc/domain/process/value_objects/chart/compressor/compressor_chart.py"), ("streams of a train", "src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py")],
    "certificate monitor: every reported time step of end-to-end runs is checked stage by stage, and the required speed, control and status found by bisection on an independent forward model",
    FAKE_NOTE + "; pressures to 1.2e-3; requests on a decision boundary are set aside and counted",
)

prop(
    "P15",
    "Simplified trains: equal ratios, work, generic charts, capacity and maximum rate",
    "In every model, a simplified compressor train has the stages asked for, or the fewest that keep each within the largest pressure ratio, all with the same pressure ratio; each works on the fluid at its inlet temperature and pressure with the polytropic head of that ratio, at the efficiency its chart gives, and no less than the chart's least flow. "
    "A generic chart is that of its design point, or made from all the points the train is used at, which then are within it. Power is the sum over stages, adjusted; more than the chart takes, the head it gives or the power there is is reported invalid, anything else valid. The reported maximum rate is the largest the chart takes.",
    ["inputs", "configurations"],
    "all fluids, charts, pressures, rates and numbers of stages",
    "Tests run a handful of fixed points; charts made from input depend on all of the input at once.",
    ["src/libecalc/domain/process/compressor/core/train/simplified_train", "src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py", "src/libecalc/presentation/yaml/mappers/charts"],
    [("simplified train", "src/libecalc/domain/process/compressor/core/train/simplified_train/simplified_train.py"), ("generic charts", "src/libecalc/domain/process/value_objects/chart/compressor/chart_creator.py"), ("stages and charts from input", "src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py")],
    "reference-model monitor: every reported step of end-to-end runs compared with an independent computation of heads, charts, flow limits, power and maximum rate",
    FAKE_NOTE + "; heads to 2.5e-3, the tolerance of the head iteration",
)

prop(
    "P22",
    "Mistakes in a model are refused before anything is computed, saying where",
    "A correct model is accepted. A model with a mistake in it is refused as an error in the input before any energy is computed, never run as if the mistake were not there and never ended by an internal error: broken YAML, unknown or missing keywords, values of the wrong kind, unknown choices, references to nothing or to something of another kind, duplicate or illegal names, "
    "unknown series or variables, expressions that cannot be read, variables in a circle, missing files, tables and series that cannot be read, dates out of order, settings that do not fit a system, its streams or its table. The refusal names the keyword, component, reference or file that is wrong.",
    ["inputs", "configurations"],
    "all models and all single mistakes in them",
    "Tests try one mistake at one place; where a mistake is not looked for, the model runs with wrong numbers.",
    ["src/libecalc/presentation/yaml/yaml_types", "src/libecalc/presentation/yaml/mappers", "src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py", "src/libecalc/presentation/yaml/model.py", "src/libecalc/presentation/yaml/yaml_entities.py"],
    [("validation of the YAML", "src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py"), ("references", "src/libecalc/presentation/yaml/yaml_types/models/model_reference_validation.py"), ("mapping of components", "src/libecalc/presentation/yaml/mappers/component_mapper.py"), ("resources", "src/libecalc/presentation/yaml/yaml_entities.py")],
    "fault-injection monitor: correct random models with one user's mistake put in at a random place; the verdict, kind and words of the refusal are judged",
    FAKE_NOTE + "; a mistake in an expression may be found only when it is evaluated",
)

prop(
    "P21",
    "The comparison of two runs is the difference of what they say",
    "For any two runs, the comparison covers the time both have, at every date either changes; for every component of either and every such period it holds the difference changed minus reference of fuel or power use and of each emission, with what only one of them has counted as zero in the other; it is valid where both are; "
    "components that cannot be compared are named in the errors and left out. Comparing the other way around gives the negative, a run with itself zero, and comparing changes neither. The simple results agree with the results they are made from, in each frequency.",
    ["inputs", "configurations"],
    "all pairs of runs",
    "Tests compare a few made-up results on one time vector.",
    ["src/libecalc/presentation/simple_result/simple.py", "src/libecalc/infrastructure/file_utils.py"],
    [("comparison", "src/libecalc/presentation/simple_result/simple.py")],
    "reference-model monitor: comparisons of runs of random models and changes of them, against differences taken from the two results themselves",
    "what is not a number counts as zero, as it is null in JSON",
)

prop(
    "P23",
    "Results depend on what a model says: not on history, order, names or neighbours",
    "The same model gives the same result: run again, after any other models in the process, evaluated twice, in another process; with its YAML in another style, with comments or parts included from files; with the columns, rows or line ends of its files arranged otherwise. "
    "Changing the order of installations, consumers, references, variables or keys, or all names, changes no value of any component. Adding or removing an installation leaves the others as they were; saying a value again at another date, or running only a part of the time, leaves every value at the dates in common; what happens at one time step does not depend on what is asked at others.",
    ["inputs", "histories", "configurations"],
    "all models, orders, histories and layouts",
    "Tests run each model once, alone, as written; what is remembered between steps, models or evaluations shows only when they are varied.",
    ["src/libecalc/presentation/yaml", "src/libecalc/domain", "src/ecalc_neqsim_wrapper", "src/libecalc/presentation/json_result"],
    [("model and evaluation", "src/libecalc/presentation/yaml/model.py"), ("reading", "src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py"), ("result", "src/libecalc/presentation/json_result/mapper.py"), ("caches", "src/ecalc_neqsim_wrapper/cache_service.py")],
    "differential monitor: every value of two executions that must agree is compared, exactly where nothing is summed in another order",
    FAKE_NOTE + "; rates, powers, pressures and validity are compared when the time vectors differ, cumulatives only when they do not",
)

prop(
    "P29",
    "Pump process simulations evaluate what is asked, and streams follow the chart",
    "Every pump process simulation is evaluated once for every period of the run, at the rate, pressure, density and discharge pressure its expressions have then, whatever the other periods are. The pump runs at the larger of the rate asked for, its minimum flow and the least flow of the chart at that head; it delivers at least the least head of the chart at that flow; "
    "the difference is recirculated and choked, power and efficiency are those of that point, and points outside the chart are reported with the limit they exceed. Mass is conserved over every unit and the pressures on every connection are those of the operating point. Charts with a margin, minimum flows below the chart, charts of another kind, pressures or densities that are not positive are refused.",
    ["inputs", "configurations"],
    "all charts, minimum flows, rates, pressures and densities",
    "Tests use one chart and a few points; the envelope of a chart with several speeds has many sides.",
    ["src/libecalc/process/pump", "src/libecalc/presentation/yaml/mappers/pump_process_simulation_mapper.py", "src/libecalc/domain/process/value_objects/chart"],
    [("pump", "src/libecalc/process/pump/pump.py"), ("simulation", "src/libecalc/process/pump/pump_process_simulation.py"), ("mapping", "src/libecalc/presentation/yaml/mappers/pump_process_simulation_mapper.py")],
    "reference-model monitor: every period of random pump process simulations compared with an independent model of the chart, mass and pressure on every connection",
    "points exactly on the edge of a chart are set aside and counted",
)

prop(
    "P30",
    "Process simulations: the problem that is solved is the one the YAML describes",
    "Of every process simulation, the pipelines are its targets, in order, each made of the units it lists, from inlet to outlet and connected one after the other; every compressor has the chart and control margin it was given, on one shaft; recirculation and chokes are around and at the sections the constraints make of it, each with its control; "
    "every constraint is at the end of its section with its pressure, control and anti-surge; every pressure drop, temperature, side stream, offtake, inlet stream, rate fraction and overflow has the value of its expression in every period; every event changes its unit at its date. Definitions used twice are two units. What does not fit together is refused as an error in the input.",
    ["inputs", "configurations"],
    "all process simulations, pipelines, constraints, streams and events",
    "Tests map a few pipelines of one or two sections; positions, references and counts go wrong only in combinations.",
    ["src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py", "src/libecalc/presentation/yaml/mappers/process", "src/libecalc/ecalc_model", "src/libecalc/process/process_pipeline", "src/libecalc/process/process_solver/section_assembly.py"],
    [("mapping", "src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py"), ("sections", "src/libecalc/presentation/yaml/mappers/process/process_partitioner.py"), ("assembly", "src/libecalc/process/process_solver/section_assembly.py"), ("references", "src/libecalc/presentation/yaml/yaml_reference_service.py")],
    "reference-model monitor: what is handed to the solver for random process simulations compared with an independent reading of the YAML; one mistake injected in a fifth of them",
    FAKE_NOTE + "; where units follow the last constraint, it may be at its own unit or at the end",
)
prop(
    "P31",
    "Searches find the root or limit there is, in bounds, or say why there is none",
    "For every response that rises or falls with the searched value: bisection ends at the threshold, root finding at the root, each within its tolerance; the shaft speed, recirculation rate and choke finders meet the target pressure whenever a value they may use meets it, never use a value outside their bounds or one that cannot be evaluated as a solution, "
    "and otherwise report failure at the value that comes closest, with the right reason, direction and achievable pressure; a capacity error they report carries the rates of that error. Damped updates never overshoot the undamped one and never stall.",
    ["inputs", "configurations"],
    "all monotone responses, bounds, tolerances and regions that cannot be evaluated",
    "Tests call the finders with a few linear responses; edges, regions without results on both sides and bounds over several decades are not sampled.",
    ["src/libecalc/process/process_solver/finders", "src/libecalc/process/process_solver/search_strategies.py", "src/libecalc/common/numeric_methods.py"],
    [("searches", "src/libecalc/process/process_solver/search_strategies.py"), ("finders", "src/libecalc/process/process_solver/finders"), ("legacy searches", "src/libecalc/common/numeric_methods.py")],
    "runtime monitor around the searches: every probe is checked to be within the bounds, every result against the known solution of the synthetic response",
    "responses are monotone, as the searches specify; results within the search tolerance of a decision are set aside",
)
