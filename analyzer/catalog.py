"""Which obligations of the reference model decide which property.

`obs`   patterns over operation names (Class.name, or name of a module function)
`rules` additional structural rules (rules.py), as function names
"""
STRAT = ["StratifiedTank.*", "StorageTank.*"]
MIXED = ["MixedStorageTank.*"]
ETANK = ["EnergyTank.*", "SlugOverlayTank.*"]
TANKS = STRAT + MIXED + ETANK
CTRL = ["Controls.*", "WaterHeater.__init__", "WaterHeater.is_active", "WaterHeater.turn_*", "WaterHeater.is_load_shifting",
        "WaterHeater.get_controls_for_hour", "WaterHeater.get_outlet_temp_f", "WaterHeater.update_state"]
HEATER = ["WaterHeater.*"]
PMAP = ["PerformanceMap.*", "NominalPerformanceMap.*", "PklPerformanceMap.*", "HPWHsimPerformanceMap.*", "_load_maps_json"]
DEMAND = ["Building.get_dhw_load_supplyT_gal", "Building.get_oat_f", "Building.get_inlet_water_temp_f", "Building.__init__",
          "ClimateZone.get_oat_f", "ClimateZone.get_inlet_water_temp_f", "_day_of_year_to_month"]
DESIGN = ["Building.get_design_*", "ClimateZone.get_design_*", "*._require_design_inlet_temp"]
SHAPES = ["Building.is_annual_load_shape", "Building.set_to_*", "_load_shape_json", "Building.__init__"]
STEP = ["DHWSystem.simulate_step", "*._get_outlet_temp_f", "DHWSystem.check_for_outage", "DHWSystem.__init__"] + HEATER + ["Controls.*", "NominalPerformanceMap.*"] + DEMAND
SIZE = ["DHWSystem.__init__", "DHWSystem.from_size", "DHWSystem.size", "DHWSystem._calc_*", "DHWSystem._strat_*", "DHWSystem._is_load_shifting",
        "DHWSystem._warn_if_short_cycling", "DHWSystem.get_minimum_*", "_get_peak_indices", "StratifiedTank.__init__", "WaterHeater.__init__",
        "WaterHeater.from_nominal_capacity", "NominalPerformanceMap.*"] + DESIGN + SHAPES
LS = ["*._calc_prelim_vols_supplyT_gal", "*._calc_gen_rate_ls_gph", "*._calc_required_capacity_ls_kbtuh", "*._calc_running_volume_ls_*",
      "*._calc_storage_volume_ls_*", "*._get_first_shed_block_and_load_up_hours", "_load_shift_fract_total_vol", "*._is_load_shifting"]
RECIRC = ["RecircSystem.*", "*.get_recirc_loss_kbtuh"]
CURVES = ["*.get_sizing_curve", "*.get_ls_sizing_curve", "*.get_er_sized_points", "*.get_er_sizing_curve"]
QUERY = ["*.get_*", "*.is_*", "*.should_*", "*.check_for_outage", "*.to_csv", "*.to_plotly", "mixing_valve_behavior", "*.slug_temp_f", "*.oat_min",
         "*.oat_max", "*.tm_off_temp_f", "*._zone_average_temp_f", "*._shift_pct_from_energy", "*._energy_at_shift_pct", "*._max_energy_btu",
         "PklPerformanceMap._*", "HPWHsimPerformanceMap._*", "get_*", "*._get_outlet_temp_f"]

PROPS = {
    "P01": dict(obs=STRAT),
    "P02": dict(obs=MIXED),
    "P03": dict(obs=ETANK),
    "P04": dict(obs=CTRL),
    "P05": dict(obs=HEATER + ["NominalPerformanceMap.*", "PerformanceMap.__init__", "PerformanceMap.from_model_name"]),
    "P06": dict(obs=PMAP, rules=["map_data"]),
    "P07": dict(obs=["mixing_valve_behavior"]),
    "P08": dict(obs=STEP + STRAT + ["InstantWHSystem.*"]),
    "P09": dict(obs=["ParallelLoopSystem.simulate_step", "ParallelLoopSystem.__init__", "SwingSystem.simulate_step", "SwingSystem.__init__", "SwingSystem.tm_off_temp_f"]
                + RECIRC + STEP + MIXED + STRAT),
    "P10": dict(obs=["SinglePassRTPSystem.simulate_step", "MultiPassRTPSystem.simulate_step", "RTPSystem.__init__", "RTPSystem.get_recirc_loss_kbtuh",
                     "mixing_valve_behavior"] + STEP + ETANK + STRAT),
    "P11": dict(obs=["simulate", "simulate_3day", "simulate_annual", "_initial_percent_useable", "SimulationRun.__init__", "SimulationRun.record_*",
                     "SimulationRun.check_outlet_deficit", "SimulationRun.is_successful", "*.initialize", "WaterHeater.turn_off", "SwingSystem.tm_off_temp_f",
                     "*.simulate_step", "EcosizerEngine.simulate_*", "*.check_for_outage", "*._get_outlet_temp_f", "Controls.*"] + DESIGN),
    "P12": dict(obs=["SimulationRun.__init__", "SimulationRun.record_*", "SimulationRun.is_successful", "SimulationRun.get_failure_message",
                     "SimulationRun.get_summary", "SimulationRun.to_csv", "SimulationRun.to_plotly", "SimulationRun.get_total_energy_kwh", "SimulationRun.get_peak_demand_kw",
                     "SimulationRun.check_outlet_deficit", "simulate"]),
    "P13": dict(obs=["SimulationRun.get_total_energy_kwh", "SimulationRun.get_monthly_energy_kwh", "SimulationRun.get_peak_demand_kw", "_step_to_month",
                     "SimulationRun.__init__", "SimulationRun.record_timestep", "SimulationRun.get_summary", "EcosizerEngine.get_annual_cost_estimate"]),
    "P14": dict(obs=["SimulationRun.get_annual_utility_cost", "SimulationRun.get_monthly_cost_*", "_step_to_month", "SimulationRun.record_timestep", "SimulationRun.__init__",
                     "UtilityCostTracker.get_*", "UtilityCostTracker.__init__", "get_annual_utility_comparison_graph"]),
    "P15": dict(obs=["UtilityCostTracker.*", "_hour_to_month", "_is_hour_in_range", "_validate_params", "_fill_period_maps"]),
    "P16": dict(obs=SIZE + ["InstantWHSystem.size", "InstantWHSystem.from_size", "InstantWHSystem.__init__", "DHWSystem.from_components"]),
    "P17": dict(obs=LS + SIZE + ["RTPSystem._calc_*", "SwingSystem._calc_*", "SwingSystem.size", "SinglePassRTPSystem._calc_*", "*._strat_*"]),
    "P18": dict(obs=["ParallelLoopSystem.*"] + RECIRC + SIZE),
    "P19": dict(obs=["SwingSystem.*", "_hr_to_min"] + RECIRC + SIZE + LS),
    "P20": dict(obs=["RTPSystem.*", "SinglePassRTPSystem.*", "MultiPassRTPSystem.*", "mixing_valve_behavior", "SlugOverlayTank.*", "EnergyTank.*",
                     "Building.get_dhw_load_supplyT_gal"] + SIZE + LS),
    "P21": dict(obs=["SwingERTrdOffSystem.*", "_hr_to_min", "_get_peak_indices", "SwingSystem.size", "SwingSystem.__init__", "SwingSystem._size_tm_system",
                     "SwingSystem._calc_*", "SwingSystem._sim_just_swing", "SwingSystem._run_one_swing_step"] + RECIRC + DESIGN + SHAPES),
    "P22": dict(obs=CURVES + ["*._calc_*", "_get_peak_indices", "_load_shift_fract_total_vol", "*._strat_*", "*._is_load_shifting", "SwingSystem._sim_just_swing",
                              "SwingSystem._run_one_swing_step", "MultiPassRTPSystem.from_size", "MultiPassRTPSystem.size", "*._get_first_shed_block_and_load_up_hours"] + DESIGN + SHAPES + RECIRC),
    "P23": dict(obs=["DHWSystem.size", "SwingSystem.size", "MultiPassRTPSystem.size", "ParallelLoopSystem.size", "SinglePassRTPSystem.size", "SwingERTrdOffSystem.size",
                     "SwingERTrdOffSystem._size_er_element", "SinglePassRTPSystem._calc_*", "InstantWHSystem.size"] + CURVES + SHAPES,
                outputs="state", rules=["restores"]),
    "P24": dict(obs=QUERY, outputs="state", rules=["pure_queries"]),
    "P25": dict(obs=["simulate", "*.initialize", "WaterHeater.turn_*", "WaterHeater.update_state", "*.simulate_step", "SimulationRun.__init__", "_initial_percent_useable"],
                outputs="state", rules=["rerun"]),
    "P26": dict(obs=["Building.*", "_load_shape_json", "_validate_load_shape", "EcosizerEngine._build_building", "EcosizerEngine.get_hw_magnitude"], rules=["load_shape_data"]),
    "P27": dict(obs=["ClimateZone.*", "_open_climate_csv", "_day_of_year_to_month", "get_oat_buckets", "Building.get_oat_f", "Building.get_inlet_water_temp_f",
                     "Building.get_design_*", "Building.__init__", "EcosizerEngine._build_climate_zone"], rules=["climate_data"]),
    "P28": dict(obs=["EcosizerEngine.__init__", "EcosizerEngine.build", "EcosizerEngine._*", "*.from_size", "*.from_components", "*.__init__", "WaterHeater.from_*",
                     "_load_shift_fract_total_vol", "PerformanceMap.from_model_name", "Building.from_building_type", "Controls.*"]),
    "P29": dict(obs=["EcosizerEngine._*", "*.get_minimum_*", "*._validate_tm_inputs", "*._require_*", "_validate_load_shape", "_validate_params", "*.get_er_*",
                     "*.get_recirc_capacity_kbtuh", "get_hpwh_output_capacity", "get_oat_buckets", "ClimateZone._lookup_*", "ClimateZone.get_oat_buckets", "Building._*",
                     "Building.from_building_type", "Building.set_to_*", "_load_shape_json", "PerformanceMap.from_model_name", "*._get_per_unit_*", "simulate",
                     "UtilityCostTracker.*", "MultiPassRTPSystem.from_size", "*.size", "SwingSystem.__init__", "SwingSystem._*", "*.get_ls_sizing_curve",
                     "*._calc_storage_volume_storageT_gal", "*._calc_running_volume_supplyT_gal", "WaterHeater.get_outlet_temp_f", "WaterHeater.update_state",
                     "get_annual_utility_comparison_graph", "SwingERTrdOffSystem._*"], outputs="raises"),
    "P30": dict(obs=["EcosizerEngine.get_*", "EcosizerEngine.simulate_*", "EcosizerEngine.plot_*", "get_list_of_models", "get_weather_stations", "get_hpwh_output_capacity",
                     "get_oat_buckets", "get_annual_utility_comparison_graph", "get_sizing_curve_plot", "*.plot_sizing_curve", "PerformanceMap.from_model_name", "_load_maps_json",
                     "DHWSystem.get_sizing_curve", "DHWSystem.get_ls_sizing_curve", "SimulationRun.get_summary", "*.get_minimum_*", "ClimateZone.get_oat_buckets",
                     "NominalPerformanceMap.get_*", "PklPerformanceMap.*", "HPWHsimPerformanceMap.*"] + CURVES),
    "P31": dict(obs=[], rules=["ambient_effects", "shared_data"]),
    "P32": dict(obs=[], rules=["overrides", "exports", "call_shapes"]),
}
NOT_APPLICABLE = {
    "P90": "whether a sized system rides through the simulated days depends on the numeric trajectory of thousands of coupled steps for arbitrary loads; no static argument in reach bounds it (the sizing and the step rules themselves are P16-P21 and P08-P11)",
    "P91": "the tables are pickled interpolators; the source contains no values to analyse, and loading them would be execution",
    "P92": "floating-point convergence of bounded bisections is a numeric property of runtime quantities; only the iteration itself is compared (P01, P03)",
}
