"""writes properties.jsonl (one-off source of the property texts)"""
import json, os
S = "src/ecoengine/"
O = S + "objects/"
ST, HE, BU, DH = O + "components/storage/", O + "components/heating/", O + "building/", O + "dhwsystems/"
def _f(*names):
    return list(names)
P = []
def p(id, title, stmt, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
I, H, C = "inputs", "histories", "configurations"

p("P01", "Stratified tank follows its linear temperature profile",
  "At every moment the temperature of a stratified tank at any height is a line with the configured slope, clamped between the current inlet and outlet temperatures; a draw lowers and heating raises that line by exactly the drawn volume and by heat / (rho*c*dT), bounded so the tank is never charged past full nor drawn below the supply-temperature floor. Usable volume and average draw temperature are read off that same profile (volume at or above the supply temperature, and the mean over the drawn volume).",
  [I, H], "all tank sizes, slopes, temperatures, and all sequences of initialise, draw, heat, recirculation-return operations",
  "tests sample a handful of volumes and temperatures; the profile law must hold for every real-valued state reached after any history of draws and heats",
  [ST + "StratifiedTank.py", ST + "StorageTank.py"], [("thermocline offset", "StratifiedTank.draw/heat/draw_physical_gal/add_recirc_return"), ("profile reading", "StratifiedTank.get_temperature_at_fraction, get_usable_volume_supplyT_gal, get_average_draw_temp_f")])
p("P02", "A fully mixed tank conserves energy in every operation",
  "In a fully mixed tank the temperature after a draw, an inflow, heating, a fixed heat loss or a recirculation return is the energy-weighted mix of what was in the tank and what entered or left: volume*rho*c*temperature changes by exactly the energy exchanged. Non-positive volumes or heat rates change nothing, and a draw of at least the whole tank leaves it at the incoming temperature.",
  [I, H], "all volumes, temperatures, heat rates and durations; all operation sequences",
  "the balance is an identity over the reals in four or five free variables; tests check single numeric points",
  [ST + "MixedStorageTank.py"], [("energy balance", "MixedStorageTank.draw/heat/mix_primary_inflow/apply_fixed_heat_loss_kbtuh/add_recirc_return/draw_physical_gal")])
p("P03", "Energy-tracking tank: profile, slug overlay and stored energy agree",
  "The energy-tracking tank's temperature profile is always the one whose integral above the cold temperature equals the stored energy, stored energy stays between zero and the tank's maximum, and draws, heat and recirculation return change it by exactly the energy moved. While a heating slug is active, drawn water is blended into the slug by volume, heat raises only the slug, and ending the slug returns slug energy plus the energy above it to the tank.",
  [I, H], "all tank sizes, slopes, temperatures and all interleavings of draw, heat, slug start, slug end",
  "the slug life cycle is a multi-step history; tests exercise a few fixed cycles",
  [ST + "EnergyTank.py", ST + "SlugOverlayTank.py"], [("energy <-> shift inversion", "EnergyTank._energy_at_shift_pct, _shift_pct_from_energy"), ("slug overlay", "SlugOverlayTank.activate_slug/add_to_slug/heat_slug/deactivate_slug")])
p("P04", "Aquastat control has hysteresis and follows the hourly schedule",
  "A heater that is off turns on exactly when the tank temperature at its on-sensor height is below the on trigger, a heater that is on turns off exactly when the temperature at its off-sensor height is at or above the off trigger, and otherwise it keeps its state. The set point used is the one scheduled for the current hour of day; asking a heater without controls for that hour is an error.",
  [I, H, "schedules"], "all tank states, sensor heights, trigger temperatures, schedules and hours; both heater states",
  "tests fix one tank and two triggers; the boundary and the state memory must hold for every temperature and schedule",
  [HE + "Controls.py", HE + "WaterHeater.py"], [("triggers", "Controls.should_turn_on/should_turn_off"), ("state machine", "WaterHeater.update_state, get_controls_for_hour")])
p("P05", "A heater delivers and consumes only while active, at its rated performance",
  "A heater's heat output is zero whenever it is inactive and its performance map's capacity at the given outdoor, outlet and inlet temperatures whenever it is active; its power is that map's power. A nominal heater delivers its nominal capacity at every condition, and heaters built from a nominal capacity or a model name carry exactly the given schedule, set points, unit count, design inlet and fuel.",
  [I, C], "all temperatures, capacities, unit counts, fuels and activity states",
  "tests read two or three operating points of one model",
  [HE + "WaterHeater.py", HE + "PerformanceMap.py"], [("gating", "WaterHeater.get_output_kbtuh, get_capacity_kbtuh, get_power_in_kw"), ("construction", "WaterHeater.from_nominal_capacity, from_model_name")])
p("P06", "Performance maps scale with units, clamp, and fall back to resistance heat",
  "A performance map's capacity and power are per-unit values times the unit count in consistent units (1 kW = 3.412142 kBTU/hr), and COP is capacity over power. Above the map's outdoor range the high default is used, inside it the interpolated (or interpolation-snapped) value, and below it electric resistance with equal output and input; secondary heat exchangers shift both water temperatures and the inlet is capped at the map's maximum.",
  [I, C], "all registered models, outdoor / inlet / outlet temperatures, unit counts and nominal capacities",
  "boundary behaviour depends on real-valued temperatures relative to each model's table; tests query few points of few models",
  [HE + "PerformanceMap.py"], [("table lookup", "PklPerformanceMap._get_per_unit_kw, _force_closest, _resolve_temps"), ("polynomial maps", "HPWHsimPerformanceMap._get_per_unit_kbtuh"), ("registry", "PerformanceMap.from_model_name")])
p("P07", "The mixing valve conserves mass and energy in both flow regimes",
  "For every load, return flow and temperature set, the storage draw and the temperature of the water entering storage computed for the mixing valve satisfy the valve's mass and energy balance at the supply temperature. Above the critical flow the make-up is pure cold water; at or below it the make-up is the volume-weighted blend of cold water and returned water.",
  [I], "all loads, return flows and storage / supply / return / cold temperatures",
  "an algebraic identity over six real variables with a regime switch",
  [DH + "utils.py"], [("valve balance", "mixing_valve_behavior")])
p("P08", "Primary timestep: heat, then serve demand, and report what happened",
  "In each timestep of a system without recirculation the heaters first update from the tank at the current hour, the sum of their outputs heats the tank for the step's duration, and then exactly the building's demand for that step is drawn at the current inlet temperature. The reported demand, usable volume, output, power, outdoor and inlet temperatures, six tank temperatures and mode are those of that step, with power absent when no active heater reports any; a tankless heater's output is the demand's heat rate.",
  [I, H, "schedules", C], "all buildings, timestep lengths, heaters, schedules and tank states",
  "the order of operations and the reporting must hold at every one of 4320 or 52560 steps from any state",
  [DH + "DHWSystem.py", DH + "InstantWHSystem.py"], [("step", "DHWSystem.simulate_step, _get_outlet_temp_f"), ("tankless step", "InstantWHSystem.simulate_step")])
p("P09", "Recirculation timesteps: parallel-loop and swing-tank energy flows",
  "In a parallel-loop system the primary step is unchanged and the temperature-maintenance tank alone absorbs the return flow and is heated by its own heaters (per-unit output and power times the number of units). In a swing system the volume taken from storage is the demand blended down from the swing temperature, it enters the swing tank at the storage's average draw temperature, the recirculation loss is removed there and its element heats it; usable volume is zero whenever the swing tank is below supply temperature.",
  [I, H, C], "all loads, temperatures, tank sizes, heater counts, and all sequences of steps",
  "two coupled tanks and two control loops; tests check single days",
  [DH + "recirc_systems/ParallelLoopSystem.py", DH + "recirc_systems/SwingSystem.py", DH + "recirc_systems/RecircSystem.py"], [("parallel step", "ParallelLoopSystem.simulate_step"), ("swing step", "SwingSystem.simulate_step"), ("loss", "RecircSystem.get_recirc_loss_kbtuh")])
p("P10", "Return-to-primary timesteps: recirculation loss is charged to storage",
  "In a single-pass return-to-primary system each step is the primary step followed by charging the return flow's heat loss for that step's duration to storage, and usable volume and tank temperatures are reported after it. In a multi-pass system a heating slug is active exactly while a heater is on, storage is drawn through the mixing valve, and delivery temperature is the supply temperature while heating and the tank-top temperature otherwise.",
  [I, H, C], "all loads, flows, temperatures, timestep lengths and step sequences",
  "slug start / stop happens at state-dependent steps; tests observe whole-run aggregates",
  [DH + "rtp_systems/SinglePassRTPSystem.py", DH + "rtp_systems/MultiPassRTPSystem.py", DH + "rtp_systems/RTPSystem.py"], [("single-pass step", "SinglePassRTPSystem.simulate_step"), ("multi-pass step", "MultiPassRTPSystem.simulate_step")])
p("P11", "Simulation driver: step count, initial state, outage and early stop",
  "A simulation runs one-minute steps for three days or ten-minute steps for 365 days, starting from a tank charged to the on-sensor level of the normal set point, a temperature-maintenance tank at its off temperature and all heaters off, and rejects any other duration. Every step without usable volume adds its length to the outage minutes, and the run stops early only after the delivered temperature has been more than the threshold below supply for longer than the permitted consecutive minutes.",
  [I, H, C], "all systems, buildings, durations and thresholds",
  "early-stop and outage accounting depend on the whole history of delivered temperatures",
  [S + "interfaces/Simulator.py", O + "simulation/SimulationRun.py"], [("driver", "simulate, simulate_3day, simulate_annual, _initial_percent_useable"), ("deficit counter", "SimulationRun.check_outlet_deficit, record_outage")])
p("P12", "Recorded series stay aligned and reports and exports reproduce them",
  "Recording a timestep appends exactly one value to every primary series and to each of the six tank-temperature series, and one value to every temperature-maintenance series when the system has one, so index i of every series is timestep i. Success, failure message, summary and the exported table are computed from those series: one row per recorded step with its time, and success exactly when outage minutes do not exceed the allowance.",
  [I, H], "all step results, run lengths and allowances",
  "alignment must hold after any sequence of steps including steps where heaters are idle",
  [O + "simulation/SimulationRun.py"], [("recording", "SimulationRun.record_timestep"), ("reports", "SimulationRun.get_summary, get_failure_message, to_csv, is_successful")])
p("P13", "Energy and peak-demand totals account for every recorded step",
  "Total energy is the sum over all recorded steps of primary plus temperature-maintenance power times the step length, monthly energy splits that same total by calendar month of an annual run (and is zero otherwise), and peak demand is the largest power of any step including temperature maintenance. A step without a power value counts as zero.",
  [I, H], "all power series, including missing values and runs that stopped early",
  "sums over arbitrary series; tests use constant series",
  [O + "simulation/SimulationRun.py"], [("aggregation", "SimulationRun.get_total_energy_kwh, get_monthly_energy_kwh, get_peak_demand_kw, _step_to_month")])
p("P14", "Utility bills: energy, demand and base charges add up in every breakdown",
  "The annual cost of a run is the sum over steps of energy at that hour's rate, plus for every demand period that period's rate times the largest power seen in it, plus twelve base charges. The monthly and the peak / off-peak breakdowns distribute those same energy and demand charges over months and peak flags without losing or double-counting any step or period.",
  [I, H, C], "all tariffs, power series and timestep lengths",
  "a property of sums over 52560 steps and arbitrary tariffs; tests price one or two flat tariffs",
  [O + "simulation/SimulationRun.py", BU + "UtilityCostTracker.py"], [("billing", "SimulationRun.get_annual_utility_cost, get_monthly_cost_breakdown, get_monthly_cost_breakdown_detailed")])
p("P15", "Tariffs: every hour of the year has the period and rates it was given",
  "A tariff built from parameters assigns every hour of each month in its season to peak exactly when the hour of day is in the peak window, otherwise to discount when offered and in that window, otherwise to off-peak, with a separate demand period per month carrying the given rates; seasons must tile the year and invalid parameters are rejected. A tariff read from a table has exactly the table's hourly rates and periods, rejects wrong lengths, missing columns or unreadable values, an exported table reads back as the same tariff, and lookup by timestep uses the hour of year containing that step.",
  [I, C], "all parameter sets, seasons, windows (including windows over midnight), tables and timesteps",
  "8760 hours times arbitrary seasons; tests look at a few hours",
  [BU + "UtilityCostTracker.py"], [("period maps", "_fill_period_maps, _is_hour_in_range, _validate_params"), ("readers", "UtilityCostTracker.from_params, from_csv, to_csv"), ("lookup", "get_energy_charge_at_step, get_demand_period_at_step, get_demand_charge_for_period")])
p("P16", "Primary sizing: capacity meets the daily load, storage covers the worst peak",
  "The sized capacity is the heat to raise the daily demand from design inlet to supply temperature within the allowed run hours, derated for defrost, and the sized storage is the largest cumulative shortfall of generation against the peak load shape starting at any hour where demand overtakes generation, converted to storage temperature and divided by the usable stratified fraction. Sizing without a design inlet temperature, or when nothing in the tank is usable, is an error.",
  [I, C], "all load shapes, temperatures, run hours, defrost factors, set points and slopes",
  "an optimisation over 24 start hours of arbitrary load shapes; tests size a few buildings",
  [DH + "DHWSystem.py", DH + "InstantWHSystem.py"], [("capacity", "DHWSystem._calc_required_capacity"), ("running volume", "DHWSystem._calc_running_volume_supplyT_gal, _get_peak_indices"), ("storage", "DHWSystem._calc_storage_volume_storageT_gal, _calc_stratification_factor"), ("tankless", "InstantWHSystem.size")])
p("P17", "Load-shift sizing never yields less than normal sizing",
  "With load shifting, run hours are limited to the non-shed hours and the sized capacity and storage are the larger of the normal result and the load-shift result, where the latter must generate the load-up volume in the hours directly before the first shed block and store the shed block's demand plus the worst following deficit. The share of days covered scales the shifted volume through the fitted normal distribution, capped at one.",
  [I, "schedules", C], "all 24-hour schedules, set points, load shapes and coverage shares",
  "2^24 schedules and arbitrary loads; tests use two schedules",
  [DH + "DHWSystem.py", DH + "rtp_systems/RTPSystem.py", DH + "recirc_systems/SwingSystem.py"], [("load-shift sizing", "DHWSystem.size, _calc_gen_rate_ls_gph, _calc_running_volume_ls_supplyT_gal, _calc_storage_volume_ls_storageT_gal"), ("schedule reading", "_get_first_shed_block_and_load_up_hours"), ("coverage", "_load_shift_fract_total_vol")])
p("P18", "Parallel-loop sizing: maintenance heater outpaces loss, tank rides the off time",
  "A parallel-loop system's maintenance capacity is the recirculation loss times the safety factor, and its maintenance volume is what keeps the loss over the off time within the on-off temperature band. Safety factors of one or less, off times outside (0, 1] hour, inverted bands and run times below twenty minutes are rejected before anything is sized, and the primary is sized as without the loop.",
  [I, C], "all flows, temperatures, safety factors and off times",
  "closed-form law and validation boundary over real parameters",
  [DH + "recirc_systems/ParallelLoopSystem.py", DH + "recirc_systems/RecircSystem.py"], [("validation", "ParallelLoopSystem._validate_tm_inputs"), ("sizing", "ParallelLoopSystem.size, size_tm_system, from_size")])
p("P19", "Swing sizing: standard tank size, element outpaces loss, mixed-down demand",
  "The swing tank is the smallest standard volume covering both the loss rule and the peak minute draw (an error when none does), the element is the loss times the safety factor, and primary capacity and storage are sized on the storage-temperature volume the minute-by-minute swing simulation actually takes from storage at the worst start hour. The swing simulation conserves energy each minute, runs its element with an 8 F deadband above supply, and reports undersizing when the tank would fall below supply temperature.",
  [I, C], "all load shapes, losses, temperatures and run hours",
  "a 1440-minute recurrence maximised over start hours for arbitrary loads",
  [DH + "recirc_systems/SwingSystem.py"], [("tank and element", "SwingSystem._size_tm_system"), ("recurrence", "SwingSystem._sim_just_swing, _run_one_swing_step"), ("sizing", "SwingSystem.size, _calc_running_volume_supplyT_gal, _calc_running_volume_ls_swing")])
p("P20", "Return-to-primary sizing adds recirculation loss to capacity and storage",
  "A return-to-primary system's capacity is the no-recirculation capacity plus the daily recirculation loss over the allowed run hours, derated for defrost, in normal and load-shift sizing alike; its load-shift volumes include the recirculation load. A multi-pass system is sized on the largest slug of its two-day mixing-valve simulation, refuses load shifting and set points in the unusable zone, and raises capacity until a trial run shows no deficit or the allowed iterations are used.",
  [I, C], "all loads, flows, temperatures, run hours and usable fractions",
  "trial-run feedback and recurrences over arbitrary loads",
  [DH + "rtp_systems/RTPSystem.py", DH + "rtp_systems/SinglePassRTPSystem.py", DH + "rtp_systems/MultiPassRTPSystem.py"], [("capacity", "RTPSystem._calc_required_capacity, _calc_required_capacity_ls_kbtuh"), ("slug volume", "MultiPassRTPSystem._calc_running_volume_supplyT_gal"), ("boost", "MultiPassRTPSystem.from_size")])
p("P21", "Electric-resistance trade-off sizes the element for the worst deficit",
  "The added resistance capacity is the largest per-minute temperature deficit of the swing tank over the two-day simulation from both an empty and a full primary, times tank heat capacity and safety factor, added on top of the base element. The trade-off curve repeats that sizing for loads from 120 percent down in steps of ten until no resistance is needed, with the recommended index pointing at 100 percent.",
  [I, C], "all loads, primary capacities, tank sizes and safety factors",
  "a maximum over 5760 coupled steps per point",
  [DH + "recirc_systems/SwingERTrdOffSystem.py"], [("element sizing", "SwingERTrdOffSystem._size_er_element, _run_one_swing_step_er"), ("curve", "SwingERTrdOffSystem.get_er_sized_points")])
p("P22", "Sizing curves are the sizing rule evaluated point by point",
  "Every point of a sizing curve is the capacity and storage that sizing would give at that number of run hours (or that load-shift share), run hours descend from 24 through the system's own value towards the peak-load limit, points that cannot be sized end the curve, and the recommended index marks the system's own point and is always a valid index. All returned lists have equal length.",
  [I, C], "all systems, load shapes, step widths and slopes",
  "curve length and cut-off depend on arbitrary load shapes",
  [DH + "DHWSystem.py", DH + "recirc_systems/SwingSystem.py", DH + "rtp_systems/MultiPassRTPSystem.py"], [("curves", "DHWSystem.get_sizing_curve, get_ls_sizing_curve, SwingSystem.get_sizing_curve, MultiPassRTPSystem.get_sizing_curve")])
p("P23", "Sizing and curves leave building and configuration as they found them",
  "After sizing a system or computing any sizing or trade-off curve - whether it returns or raises - the building's load shapes and daily demand, the system's allowed run hours, its mix fraction (for curves) and its already-sized results (for curves) are what they were before.",
  [I, "crash_points", H], "all systems and buildings, and every point at which an intermediate step can raise",
  "tests look at the state after success; the guarantee is about every exceptional exit too",
  [DH + "DHWSystem.py", DH + "recirc_systems/SwingSystem.py", DH + "recirc_systems/SwingERTrdOffSystem.py", DH + "rtp_systems/MultiPassRTPSystem.py", DH + "rtp_systems/SinglePassRTPSystem.py"], [("restore on exit", "try/finally in size, get_sizing_curve, get_ls_sizing_curve, get_er_sized_points, _calc_gen_rate_ls_gph, _calc_running_volume_ls_supplyT_gal")])
p("P24", "Queries and reports change nothing",
  "Asking for temperatures, usable volumes, capacities, powers, loads, weather, rates, sized values, summaries, costs or exports never changes the tank, heater, building, tariff, system or run that is asked, nor data shared between objects. Repeating a query therefore gives the same answer.",
  [I, H], "all objects and all sequences of queries",
  "the absence of a write on any path cannot be sampled",
  [ST + "StratifiedTank.py", ST + "EnergyTank.py", ST + "SlugOverlayTank.py", HE + "PerformanceMap.py", BU + "ClimateZone.py", BU + "Building.py", O + "simulation/SimulationRun.py"], [("effect-free readers", "get_*, is_*, should_*, check_for_outage, to_csv, to_plotly")])
p("P25", "Re-running a simulation of the same system gives the same results",
  "Every simulation starts by resetting all state that its steps read and change - primary tank, maintenance tank and heaters - so running the same system on the same building again, after any earlier runs, sizing or curves, reproduces the same result. No step keeps hidden state outside these components.",
  [H, C], "all systems and all histories of earlier simulations",
  "leftover state appears only after particular histories",
  [S + "interfaces/Simulator.py", ST + "StratifiedTank.py", ST + "SlugOverlayTank.py", HE + "WaterHeater.py"], [("reset", "simulate, initialize of every tank, WaterHeater.turn_off")])
p("P26", "Building demand: the daily volume is split by the load shape, never lost",
  "Demand in a timestep is the daily volume times the load-shape share of the hour containing it (cycling over 24 or 8760 hours) times the step's part of the hour, from the average shape when load shifting and the peak shape otherwise. A single-use building's daily volume is its per-unit figure times its size, a multi-use building's is the sum of its parts with volume-weighted shapes, custom shapes are normalised or validated to 24 non-negative shares summing to one, and unknown types, sizes or standards are rejected.",
  [I, C], "all building types and mixes, sizes, custom shapes and timesteps",
  "arbitrary mixes and shapes; tests use a few",
  [BU + "Building.py"], [("demand", "Building.get_dhw_load_supplyT_gal"), ("construction", "Building.from_building_type, _from_multi_use, _compute_single_gal_and_shapes, _validate_load_shape"), ("annual / daily switch", "Building.set_to_annual_load_shape, set_to_daily_load_shape")])
p("P27", "Weather lookup returns the hour's air and the month's inlet temperature",
  "For every timestep the outdoor temperature is that of the hour of year and the inlet temperature that of the calendar month containing it, wrapping after a year, with constant design conditions overriding both; design values are the coldest of each. A zip code, weather station or zone identifies exactly its table column, unknown ones are rejected, and temperature buckets count every day of the year once.",
  [I, C], "all timesteps and lengths, zones, zip codes and stations",
  "calendar boundaries for every step length; tests check a few hours",
  [BU + "ClimateZone.py"], [("indexing", "ClimateZone.get_oat_f, get_inlet_water_temp_f, _day_of_year_to_month"), ("tables", "_load_oat_data, _load_inlet_water_data, _lookup_zone_for_zip, _lookup_zone_for_station")])
p("P28", "Engine: every configuration value reaches the component it configures",
  "The system and building the engine builds, sized or pre-sized, for every schematic and its alias names, carry exactly the caller's temperatures, run hours, defrost factor, set points, load-shift schedule, loop and maintenance parameters, heater model, unit counts and volumes, with the documented defaults for what was omitted. Load-up hours directly precede the first shed hour, and pre-sized capacity is divided over the heaters.",
  [I, C], "all combinations of configuration values and schematics",
  "dozens of parameters times six schematics times two modes",
  [S + "interfaces/EcosizerEngine.py"], [("plumbing", "EcosizerEngine.__init__, _build_building, _build_control_map, _build_dhw_system, _build_presized_dhw_system, _build_tm_water_heater, _build_climate_zone")])
p("P29", "Invalid or incomplete requests are rejected, never answered with a guess",
  "An unknown schematic, missing loop or maintenance parameters, an unresolvable location, a missing design inlet temperature, out-of-range derates and unit counts, and any sized value asked for before sizing raise an error naming the problem. No such request returns a number.",
  [I, C], "all configurations",
  "negative space: every invalid combination",
  [S + "interfaces/EcosizerEngine.py", DH + "DHWSystem.py", DH + "recirc_systems/ParallelLoopSystem.py", DH + "recirc_systems/SwingSystem.py", BU + "Building.py"], [("guards", "_require_recirc_params, _require_tm_params, _require_design_inlet_temp, get_minimum_*, _validate_tm_inputs, _validate_load_shape, _validate_params")])
p("P30", "Engine results and catalogues report the underlying model faithfully",
  "Sizing results, simulations, summaries, cost estimates, demand and curve points returned by the engine are those of its own system and building, with curve points in matching order and a start index that marks the same point. Model and weather-station catalogues list exactly the registry entries that pass the requested filters, and the model capacity query is the map's capacity times units and defrost derate in the requested unit.",
  [I, C], "all configurations, filters and query points",
  "all filter combinations over the registry; tests check a few",
  [S + "interfaces/EcosizerEngine.py"], [("delegation", "EcosizerEngine.get_sizing_results, simulate_3day, simulate_annual, plot_sizing_curve"), ("catalogues", "get_list_of_models, get_weather_stations, get_hpwh_output_capacity, get_oat_buckets")])
p("P31", "Results depend only on inputs and packaged data",
  "No computation reads the clock, randomness, the environment, the network or the working directory, prints, or writes any file other than the path the caller passed; data cached or shared between objects is never modified. Equal inputs therefore give equal results in any process and order.",
  [I, H, C], "all public operations",
  "absence of an ambient effect on every path",
  [S], [("effects", "whole package"), ("shared data", "_load_maps_json, _load_shape_json, module constants")])
p("P32", "Every component can stand in for the interface it implements",
  "Every storage tank, heater map and water-heating system accepts the calls its interface documents with the same parameters, so any of them can be used wherever the interface is expected by sizing, simulation and the engine. No concrete component lacks an operation of its interface, and every public name exported by the package resolves to the class or function that implements it.",
  [C, I], "all concrete classes and all call sites on an interface-typed receiver",
  "each pairing of component and caller; tests exercise the usual ones",
  [S], [("overrides", "all subclasses of StorageTank, PerformanceMap, DHWSystem"), ("exports", "ecoengine/__init__.py")])
# --- stated but not decided by static analysis
p("P90", "A sized system serves the design day without an outage",
  "Simulating a freshly sized system on the building and climate it was sized for finishes without any outage minute for every supported schematic.",
  [I, C], "all buildings, climates and schematics", "depends on the numeric trajectory of thousands of coupled steps",
  [DH, S + "interfaces/Simulator.py"], [("sizing vs simulation", "size / simulate")])
p("P91", "Packaged performance tables are physically plausible",
  "Every packaged interpolation table returns positive capacity and a COP in the physically possible range at every point of its operating area.",
  [I, C], "all models and operating points", "the tables are opaque binary interpolators",
  [S + "data/preformanceMaps"], [("tables", "pickled interpolators")])
p("P92", "Fixed-point searches inside tanks converge to the stated tolerance",
  "The bisection searches in the tanks end within their stated tolerance for every reachable state.",
  [I, H], "all reachable tank states", "floating-point convergence of a bounded iteration",
  [ST + "StratifiedTank.py", ST + "EnergyTank.py"], [("bisection", "StratifiedTank.draw, EnergyTank._shift_pct_from_energy")])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
