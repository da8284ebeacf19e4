"""laws of the storage tanks and the mixing valve, over their public operations

Every function takes arbitrary objects and values; `assert` restricts the claim to a stated precondition.
"""
RHO_CP = 8.353535


# -- P01 ---------------------------------------------------------------------
def p01_initial_profile(t: StratifiedTank, hot: float, cold: float, useable: float, x: float):
    assert hot >= cold
    t.initialize(hot, cold, useable)
    line = cold + t.strat_slope * 100.0 * (x - (1.0 - useable))
    return {"a clamped line that leaves the cold end at the unusable fraction": (t.get_temperature_at_fraction(x), min(hot, max(cold, line)))}


def p01_usable_reads_the_profile(hot: float, cold: float, useable: float, supply: float, volume: float, slope: float):
    assert volume > 0.0 and slope > 0.0 and hot >= supply and supply >= cold
    t = StratifiedTank(volume, slope)
    t.initialize(hot, cold, useable)
    x = 1.0 - useable + (supply - cold) / slope / 100.0      # height of the supply temperature on the line
    return {"usable is what lies above the supply temperature": (t.get_usable_volume_supplyT_gal(supply), volume * (1.0 - max(0.0, min(1.0, x))))}


def p01_heat_shifts_by_the_heated_volume(hot: float, cold: float, useable: float, kbtuh: float, minutes: float, x: float, volume: float, slope: float):
    assert volume > 0.0 and slope > 0.0 and hot > cold and kbtuh > 0.0 and minutes > 0.0
    t = StratifiedTank(volume, slope)
    t.initialize(hot, cold, useable)
    t.heat(kbtuh, minutes, hot)
    gal = kbtuh * minutes / 60.0 * 1000.0 / (RHO_CP * (hot - cold))
    full = (hot - cold) / slope / 100.0 + 1.0 - useable       # charge at which the whole tank is hot
    line = cold + slope * 100.0 * (x - (1.0 - useable) + min(gal / volume, full))
    return {"heating raises the line by heat over rho c dT, up to full": (t.get_temperature_at_fraction(x), max(cold, min(hot, line)))}


def p01_physical_draw(hot: float, cold: float, useable: float, gal: float, supply: float, x: float, volume: float, slope: float):
    assert volume > 0.0 and slope > 0.0 and hot > cold and gal > 0.0
    assert supply is not None
    t = StratifiedTank(volume, slope)
    t.initialize(hot, cold, useable)
    t.draw_physical_gal(gal, cold, supply)
    floor = (supply - cold) / slope / 100.0 + (1.0 - useable) - 1.0     # the top of the tank just at supply temperature
    line = cold + slope * 100.0 * (x - (1.0 - useable) + max(-gal / volume, floor))
    return {"a draw lowers the line by the drawn volume, down to the supply floor": (t.get_temperature_at_fraction(x), max(cold, min(hot, line)))}


def p01_no_heat_no_change(t: StratifiedTank, minutes: float, cold: float, supply: float, x: float, hot: float):
    a = t.get_temperature_at_fraction(x)
    t.heat(0.0, minutes, hot)
    t.draw(0.0, cold, supply, hot)
    b = t.get_temperature_at_fraction(x)
    t.initialize(hot, cold, 1.0)
    t.draw(0.0, cold, supply, hot)
    c = t.get_usable_volume_supplyT_gal(supply)
    t.draw(0.0, cold, supply, hot)
    return {"a zero draw moves nothing": (t.get_usable_volume_supplyT_gal(supply), c)}


# -- P02 ---------------------------------------------------------------------
def p02_heat(t: MixedStorageTank, kbtuh: float, minutes: float, hot: float, x: float):
    t0 = t.get_temperature_at_fraction(x)
    t.heat(kbtuh, minutes, hot)
    gained = t.total_volume_gal * RHO_CP * (t.get_temperature_at_fraction(x) - t0)
    return {"energy gained is the heat delivered": (gained, max(kbtuh, 0.0) * 1000.0 * minutes / 60.0)}


def p02_loss(t: MixedStorageTank, kbtuh: float, minutes: float, x: float):
    t0 = t.get_temperature_at_fraction(x)
    t.apply_fixed_heat_loss_kbtuh(kbtuh, minutes)
    lost = t.total_volume_gal * RHO_CP * (t0 - t.get_temperature_at_fraction(x))
    return {"energy lost is the loss rate times the duration": (lost, max(kbtuh, 0.0) * 1000.0 * max(minutes, 0.0) / 60.0)}


def p02_inflow(t: MixedStorageTank, gal: float, temp: float, x: float):
    assert t.total_volume_gal > 0.0
    t0 = t.get_temperature_at_fraction(x)
    t.mix_primary_inflow(gal, temp)
    v = t.total_volume_gal
    g = min(max(gal, 0.0), v)
    return {"inflow displaces its own volume": (v * t.get_temperature_at_fraction(x), (v - g) * t0 + g * temp)}


def p02_draw_physical(t: MixedStorageTank, gal: float, temp: float, x: float):
    assert t.total_volume_gal > 0.0
    t0 = t.get_temperature_at_fraction(x)
    t.draw_physical_gal(gal, temp)
    v = t.total_volume_gal
    g = min(max(gal, 0.0), v)
    return {"a draw is replaced by inlet water": (v * t.get_temperature_at_fraction(x), (v - g) * t0 + g * temp)}


def p02_draw(t: MixedStorageTank, gal: float, cold: float, supply: float, hot: float, x: float):
    t0 = t.get_temperature_at_fraction(x)
    assert t.total_volume_gal > 0.0 and gal > 0.0 and t0 > cold + 1e-6
    assert gal * (supply - cold) < t.total_volume_gal * (t0 - cold)       # less than the whole tank
    t.draw(gal, cold, supply, hot)
    return {"energy drawn is the demand's heat above cold": (t.total_volume_gal * (t0 - t.get_temperature_at_fraction(x)), gal * (supply - cold))}


def p02_uniform(t: MixedStorageTank, x: float, y: float, supply: float, gal: float):
    return {"one temperature everywhere": (t.get_temperature_at_fraction(x), t.get_temperature_at_fraction(y)),
            "drawn water has it": (t.get_average_draw_temp_f(gal), t.get_temperature_at_fraction(x)),
            "all or nothing is usable": (t.get_usable_volume_supplyT_gal(supply), t.total_volume_gal if t.get_temperature_at_fraction(x) >= supply else 0.0)}


def p02_return(t: MixedStorageTank, flow: float, ret: float, minutes: float, supply: float, x: float):
    assert supply is not None
    t0 = t.get_temperature_at_fraction(x)
    t.add_recirc_return(flow, ret, minutes, supply)
    return {"the loop's heat loss is taken from the tank": (t.total_volume_gal * (t0 - t.get_temperature_at_fraction(x)), flow * minutes * (supply - ret))}


def p02_order(t: MixedStorageTank, u: MixedStorageTank, q1: float, q2: float, m: float, hot: float, x: float, start: float, cold: float):
    assert q1 > 0.0 and q2 > 0.0
    u.total_volume_gal = t.total_volume_gal
    t.initialize(start, cold, 1.0)
    u.initialize(start, cold, 1.0)
    t.heat(q1, m, hot)
    t.heat(q2, m, hot)
    u.heat(q1 + q2, m, hot)
    return {"heat adds up": (t.get_temperature_at_fraction(x), u.get_temperature_at_fraction(x))}


# -- P03 ---------------------------------------------------------------------
def p03_slug_heat(t: SlugOverlayTank, gal: float, temp: float, kbtuh: float, minutes: float, supply: float):
    """heat delivered while the slug is active raises only the slug, by heat over its heat capacity"""
    assert t.is_slug_active() and gal > 0.0 and kbtuh > 0.0
    v = t._slug_vol_gal
    assert v > 0.0
    a = t.slug_temp_f
    t.heat_slug(kbtuh, minutes)
    return {"slug energy": (v * RHO_CP * (t.slug_temp_f - a), kbtuh * 1000.0 * minutes / 60.0)}


def p03_slug_blend(t: SlugOverlayTank, gal: float, temp: float):
    v = t._slug_vol_gal
    assert t.is_slug_active() and gal > 0.0 and v > 0.0
    a = t.slug_temp_f
    t.add_to_slug(gal, temp)
    return {"volume-weighted blend": ((v + gal) * t.slug_temp_f, v * a + gal * temp), "volume": (t._slug_vol_gal, v + gal)}


def p03_slug_cycle(t: SlugOverlayTank, supply: float):
    t.deactivate_slug()
    a = t.is_slug_active()
    t.activate_slug(supply)
    b = t.is_slug_active()
    t.deactivate_slug()
    return {"off": (1 if a else 0, 0), "on": (1 if b else 0, 1), "off again": (1 if t.is_slug_active() else 0, 0)}


def p03_energy_bounds(t: EnergyTank, btu: float, flow: float, ret: float, minutes: float, gal: float, cold: float, supply: float, hot: float, kbtuh: float):
    e0 = t._energy_btu
    t.draw(gal, cold, supply, hot)
    e1 = t._energy_btu
    assert gal > 0.0 and supply > cold
    return {"a draw takes its heat above cold, never below empty": (e1, max(0.0, e0 - gal * RHO_CP * (supply - cold)))}


def p03_energy_added(t: EnergyTank, kbtuh: float, minutes: float, hot: float):
    e0 = t._energy_btu
    assert kbtuh > 0.0 and hot > t._cold_temp_f
    t.heat(kbtuh, minutes, hot)
    return {"heating adds its heat, never past full": (t._energy_btu, min(e0 + kbtuh * 1000.0 * minutes / 60.0, t._max_energy_btu()))}


# -- P07 ---------------------------------------------------------------------
def p07_valve(load: float, flow: float, cold: float, supply: float, ret: float, hot: float):
    r = mixing_valve_behavior(load, flow, cold, supply, ret, hot)
    draw, inlet = r["storage_draw_gal"], r["inlet_temp_f"]
    # energy leaving storage equals the energy of the served load plus the loss of the loop
    return {"energy balance of storage": (draw * (hot - inlet), load * (supply - cold) + flow * (supply - ret))}


def p07_regimes_meet(flow: float, cold: float, supply: float, ret: float, hot: float):
    assert hot > supply and supply > ret
    critical = flow * (supply - ret) / (hot - supply)
    a = mixing_valve_behavior(critical, flow, cold, supply, ret, hot)
    return {"at the critical flow all of it is make-up": (a["storage_draw_gal"], critical)}


def p07_pure_cold_above(load: float, flow: float, cold: float, supply: float, ret: float, hot: float):
    assert hot > supply and load * (hot - supply) > flow * (supply - ret)
    r = mixing_valve_behavior(load, flow, cold, supply, ret, hot)
    return {"cold make-up": (r["inlet_temp_f"], cold)}


def p07_blend_below(load: float, flow: float, cold: float, supply: float, ret: float, hot: float):
    assert hot > supply and load * (hot - supply) <= flow * (supply - ret)
    r = mixing_valve_behavior(load, flow, cold, supply, ret, hot)
    d = r["storage_draw_gal"]
    return {"blend of cold and return by volume": (d * r["inlet_temp_f"], load * cold + (d - load) * ret),
            "valve outlet is at supply": (d * hot + (load + flow - d) * ret, (load + flow) * supply)}
