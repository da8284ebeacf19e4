"""laws of heaters, steps, recorded runs, sizing, building and weather"""
RHO_CP = 8.353535


# -- P04 ---------------------------------------------------------------------
def p04_off_heater(w: WaterHeater, t: MixedStorageTank, hour: int):
    w.turn_off()
    c = w.get_controls_for_hour(hour)
    assert c is not None
    cold = t.get_temperature_at_fraction(c.on_sensor_fract) < c.on_trigger_t_f
    w.update_state(t, hour)
    return {"turns on exactly when the on sensor is below the trigger": (bool(w.is_active()), cold)}


def p04_on_heater(w: WaterHeater, t: MixedStorageTank, hour: int):
    w.turn_on()
    c = w.get_controls_for_hour(hour)
    assert c is not None
    hot = t.get_temperature_at_fraction(c.off_sensor_fract) >= c.off_trigger_t_f
    w.update_state(t, hour)
    return {"turns off exactly when the off sensor reached the trigger": (bool(w.is_active()), not hot)}


def p04_stratified(w: WaterHeater, t: StratifiedTank, hour: int):
    w.turn_off()
    c = w.get_controls_for_hour(hour)
    assert c is not None
    cold = t.get_temperature_at_fraction(c.on_sensor_fract) < c.on_trigger_t_f
    w.update_state(t, hour)
    a = w.is_active()
    w.update_state(t, hour)
    return {"same rule on a stratified tank": (bool(a), cold)}


# -- P05 ---------------------------------------------------------------------
def p05_gating(q: float, oat: float, hot: float, cold: float):
    w = WaterHeater.from_nominal_capacity(q, None, None)
    assert q is not None
    w.turn_off()
    off = w.get_output_kbtuh(oat, hot, cold)
    w.turn_on()
    return {"nothing while inactive": (off, 0.0), "nominal capacity while active": (w.get_output_kbtuh(oat, hot, cold), q)}


# -- P06 ---------------------------------------------------------------------
def p06_units(m: PklPerformanceMap, n: PklPerformanceMap, oat: float, hot: float, cold: float):
    cap, kw = m.get_capacity_kbtuh(oat, hot, cold), m.get_power_in_kw(oat, hot, cold)
    assert cap is not None and kw is not None and kw > 0
    cop = m.get_cop(oat, hot, cold)
    return {"COP is capacity over power in the same unit": (cop * kw * 3.412142, cap)}


# -- P08 / P26 ---------------------------------------------------------------
def p08_instant(s: InstantWHSystem, b: Building, i: int, minutes: int):
    r = s.simulate_step(b, i, minutes)
    q = b.get_dhw_load_supplyT_gal(i, minutes)
    t = b.get_inlet_water_temp_f(i, minutes)
    assert s.supply_temp_f - t >= 1.0
    return {"output over the step heats the demand to supply": (r["heater_output_kbtuh"] * 1000.0 * minutes / 60.0 * s.defrost_factor, q * RHO_CP * (s.supply_temp_f - t)),
            "demand": (r["demand_supplyT_gal"], q), "inlet": (r["inlet_water_temp_f"], t), "air": (r["oat_f"], b.get_oat_f(i, minutes))}


def p26_hour_is_split(b: Building, i: int):
    """six ten-minute steps deliver the hour; an hour is the load-shape share of the day"""
    hour = b.get_dhw_load_supplyT_gal(i, 60)
    a = b.get_dhw_load_supplyT_gal(6 * i, 10) + b.get_dhw_load_supplyT_gal(6 * i + 1, 10) + b.get_dhw_load_supplyT_gal(6 * i + 2, 10)
    c = b.get_dhw_load_supplyT_gal(6 * i + 3, 10) + b.get_dhw_load_supplyT_gal(6 * i + 4, 10) + b.get_dhw_load_supplyT_gal(6 * i + 5, 10)
    return {"ten-minute steps add up to the hour": (a + c, hour)}


def p26_shape(b: Building, i: int, k: int):
    n = len(b.avg_load_shape)
    return {"average shape when load shifting": (b.get_dhw_load_supplyT_gal(i, 60, True), b.daily_dhw_use_supplyT_gal * b.avg_load_shape[i % n])}


# -- P27 ---------------------------------------------------------------------
def p27_hour(c: ClimateZone, i: int, k: int):
    return {"every minute of an hour has that hour's temperature": (c.get_oat_f(60 * i + 59, 1), c.get_oat_f(i, 60)),
            "step length does not matter": (c.get_oat_f(6 * i, 10), c.get_oat_f(i, 60))}


def p27_design(oat: float, inlet: float, i: int, m: int):
    assert oat is not None and inlet is not None
    c = ClimateZone.from_design_conditions(oat, inlet)
    return {"constant air": (c.get_oat_f(i, m), oat), "constant inlet": (c.get_inlet_water_temp_f(i, m), inlet),
            "design air": (c.get_design_oat_f(), oat), "design inlet": (c.get_design_inlet_water_temp_f(), inlet)}


# -- P11 / P12 / P13 ----------------------------------------------------------
def p11_deficit(r: SimulationRun, t: float, supply: float):
    short = t < supply - r.outlet_deficit_threshold_f
    n = r._outlet_deficit_consec_min
    stop = r.check_outlet_deficit(t, supply)
    return {"stops when the deficit lasted longer than allowed": (bool(stop), short and n + r.timestep_min > r.outlet_deficit_max_min),
            "an adequate step resets the count": (r._outlet_deficit_consec_min, n + r.timestep_min if short else 0)}


def p11_outage(r: SimulationRun, a: int, b: int, allowed: int):
    n = r.outage_minutes
    r.record_outage(a)
    r.record_outage(b)
    return {"outages add up": (r.outage_minutes, n + a + b), "success is outage within the allowance": (bool(r.is_successful(allowed)), n + a + b <= allowed)}


def p12_one_value_each(d: float, u: float, q: float, kw: float, oat: float, inlet: float, tt: float, tq: float, tk: float, mode: str):
    assert tt is not None and tq is not None
    r = SimulationRun(10, 1)
    r.record_timestep(d, u, q, kw, oat, inlet, [1.0, 2.0, 3.0, 4.0, 5.0, 6.0], mode, tt, tq, tk)
    r.record_timestep(d, u, q, kw, oat, inlet, [1.0, 2.0, 3.0, 4.0, 5.0, 6.0], mode, tt, tq, None)
    return {"demand": (len(r.dhw_demand_supplyT_gal), 2), "usable": (len(r.usable_volume_supplyT_gal), 2), "output": (len(r.heater_output_kbtuh), 2),
            "power": (len(r.heater_power_in_kw), 2), "air": (len(r.oat_f), 2), "inlet": (len(r.inlet_water_temp_f), 2), "mode": (len(r.heater_mode), 2),
            "node": (len(r.tank_temps_f[5]), 2), "nodes": (len(r.tank_temps_f), 6), "tm tank": (len(r.tm_tank_temp_f), 2),
            "tm output": (len(r.tm_heater_output_kbtuh), 2), "tm power": (len(r.tm_heater_input_kw), 2)}


def p13_two_steps(m: int, a: float, b: float, x: float):
    assert a is not None and b is not None and x is not None and a > 0.0 and b > a and x > 0.0
    r = SimulationRun(100, m)
    r.record_timestep(0.0, 0.0, 0.0, a, 0.0, 0.0, [], "normal", 0.0, 0.0, None)
    r.record_timestep(0.0, 0.0, 0.0, None, 0.0, 0.0, [], "normal", 0.0, 0.0, x)
    r.record_timestep(0.0, 0.0, 0.0, b, 0.0, 0.0, [], "normal", 0.0, 0.0, x)
    return {"energy is power times time over all steps": (r.get_total_energy_kwh(), (a + b + 2.0 * x) * m / 60.0),
            "peak is the largest step": (r.get_peak_demand_kw(), b + x)}


# -- P16 - P18, P20 ------------------------------------------------------------
def p16_capacity(s: DHWSystem, b: Building):
    q = s._calc_required_capacity(b)
    t = b.get_design_inlet_water_temp_f()
    return {"run hours of capacity heat the daily demand": (q * 1000.0 * s.defrost_factor * s.max_daily_run_hr, b.daily_dhw_use_supplyT_gal * RHO_CP * (s.supply_temp_f - t))}


def p17_never_less(s: DHWSystem, b: Building, sched: list[str], cm: dict[str, Controls], slope: float, f: float):
    n = b.daily_dhw_use_supplyT_gal / s.max_daily_run_hr
    g = s._calc_gen_rate_ls_gph(sched, cm, b, slope, f)
    return {"the load-shift rate is at least the normal rate": (max(g, n), g)}


def p17_share(p: float):
    f = _load_shift_fract_total_vol(p)
    return {"capped at one": (min(f, 1.0), f)}


def p18_rides_the_off_time(s: ParallelLoopSystem):
    s.size_tm_system()
    v = s.get_minimum_tm_volume_gal()
    loss = s.get_recirc_loss_kbtuh()
    assert s.tm_off_temp_f > s.tm_on_temp_f
    return {"the band holds the loss of the off time": (v * RHO_CP * (s.tm_off_temp_f - s.tm_on_temp_f), loss * 1000.0 * s.tm_off_time_hr),
            "capacity is the loss times the safety factor": (s.get_minimum_tm_capacity_kbtuh(), loss * s.tm_safety_factor),
            "loss is the heat the return flow gave up": (loss * 1000.0, s.return_flow_gpm * 60.0 * RHO_CP * (s.supply_temp_f - s.return_temp_f))}


# -- P15 ----------------------------------------------------------------------
def p15_window(h: int, a: int, b: int):
    assert a is not None and b is not None
    inside = _is_hour_in_range(h, a, b)
    assert a < b
    return {"outside is the complement": (bool(_is_hour_in_range(h, b, a)), not inside)}


# -- P24 / P25 ----------------------------------------------------------------
def p25_reset(t: StratifiedTank, u: StratifiedTank, hot: float, cold: float, p: float, q: float, m: float, x: float):
    """after a reset nothing of the history is left"""
    u.total_volume_gal = t.total_volume_gal
    u.strat_slope = t.strat_slope
    t.heat(q, m, hot)
    t.initialize(hot, cold, p)
    u.initialize(hot, cold, p)
    return {"profile": (t.get_temperature_at_fraction(x), u.get_temperature_at_fraction(x))}


def p25_reset_slug(v: float, c0: float, h0: float, s0: float, p0: float, k: float, hot: float, cold: float, p: float, gal: float, temp: float, x: float):
    t = SlugOverlayTank(v, c0, h0, s0, p0, k)
    u = SlugOverlayTank(v, c0, h0, s0, p0, k)
    t.initialize(hot, cold, p)
    t.activate_slug(s0)
    t.add_to_slug(gal, temp)
    t.initialize(hot, cold, p)
    u.initialize(hot, cold, p)
    return {"energy": (t._energy_btu, u._energy_btu), "slug": (bool(t.is_slug_active()), bool(u.is_slug_active())), "slug temperature": (t.slug_temp_f, u.slug_temp_f)}
