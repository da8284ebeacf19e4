from abc import ABC, abstractmethod

class StorageTank:
    total_volume_gal: float

    @abstractmethod
    def initialize(self, storage_temp_f: float, cold_temp_f: float, percent_useable: float):
        pass

    @abstractmethod
    def get_temperature_at_fraction(self, fract: float):
        pass

    @abstractmethod
    def get_usable_volume_supplyT_gal(self, supply_temp_f: float):
        pass

    @abstractmethod
    def draw(self, volume_supplyT_gal: float, cold_temp_f: float, supply_temp_f: float, outlet_temp_f: float):
        pass

    @abstractmethod
    def heat(self, kbtuh: float, duration_min: float, outlet_temp_f: float):
        pass

    @abstractmethod
    def add_recirc_return(self, flow_gpm: float, return_temp_f: float, duration_min: float, supply_temp_f: float | None=None):
        pass

    @abstractmethod
    def get_average_draw_temp_f(self, draw_gal: float):
        pass

    @abstractmethod
    def draw_physical_gal(self, gal: float, inlet_temp_f: float, supply_temp_f: float | None=None):
        pass


_DEFAULT_STRAT_SLOPE: float = 2.8

class StratifiedTank:

    def __init__(self, total_volume_gal: float, strat_slope: float=_DEFAULT_STRAT_SLOPE):
        self.total_volume_gal = total_volume_gal
        self.strat_slope = strat_slope
        self._delta_gal: float = 0.0
        self._strat_inter: float = 0.0
        self._inlet_temp_f: float = 50.0
        self._outlet_temp_f: float = 140.0

    def initialize(self, storage_temp_f: float, cold_temp_f: float, percent_useable: float):
        self._inlet_temp_f = cold_temp_f
        self._outlet_temp_f = storage_temp_f
        self._delta_gal = 0.0
        x_cold_pct = (1.0 - percent_useable) * 100.0
        self._strat_inter = cold_temp_f - self.strat_slope * x_cold_pct

    def get_temperature_at_fraction(self, fract: float):
        x_pct = fract * 100.0
        shift_pct = self._delta_gal / self.total_volume_gal * 100.0
        temp = self.strat_slope * (x_pct + shift_pct) + self._strat_inter
        return max(self._inlet_temp_f, min(self._outlet_temp_f, temp))

    def get_usable_volume_supplyT_gal(self, supply_temp_f: float):
        shift_pct = self._delta_gal / self.total_volume_gal * 100.0
        x_supply_pct = (supply_temp_f - self._strat_inter) / self.strat_slope - shift_pct
        x_supply_pct = max(0.0, min(100.0, x_supply_pct))
        usable_fract = (100.0 - x_supply_pct) / 100.0
        return usable_fract * self.total_volume_gal

    def _delta_gal_floor(self, min_temp_f: float | None=None):
        t_floor = min_temp_f if min_temp_f is not None else self._inlet_temp_f
        shift_pct_min = (t_floor - self._strat_inter) / self.strat_slope - 100.0
        return shift_pct_min * self.total_volume_gal / 100.0

    def draw(self, volume_supplyT_gal: float, cold_temp_f: float, supply_temp_f: float, outlet_temp_f: float):
        self._inlet_temp_f = cold_temp_f
        self._outlet_temp_f = outlet_temp_f
        if outlet_temp_f <= cold_temp_f or volume_supplyT_gal <= 0.0:
            return
        supply_delta = supply_temp_f - cold_temp_f
        outlet_delta = outlet_temp_f - cold_temp_f
        physical_vol = volume_supplyT_gal * supply_delta / outlet_delta
        avg_temp = self.get_average_draw_temp_f(physical_vol)
        if avg_temp >= outlet_temp_f - 1e-06:
            self._delta_gal -= physical_vol
            self._delta_gal = max(self._delta_gal, self._delta_gal_floor(supply_temp_f))
            return
        lo = physical_vol
        hi = self.total_volume_gal
        for _ in range(52):
            mid = (lo + hi) * 0.5
            avg_t = self.get_average_draw_temp_f(mid)
            if avg_t > cold_temp_f:
                yield_mid = mid * (avg_t - cold_temp_f) / supply_delta
            else:
                yield_mid = 0.0
            if yield_mid < volume_supplyT_gal:
                lo = mid
            else:
                hi = mid
            if hi - lo < 1e-06:
                break
        self._delta_gal -= min((lo + hi) * 0.5, self.total_volume_gal)
        self._delta_gal = max(self._delta_gal, self._delta_gal_floor(supply_temp_f))

    def heat(self, kbtuh: float, duration_min: float, outlet_temp_f: float):
        self._outlet_temp_f = outlet_temp_f
        if kbtuh <= 0.0 or outlet_temp_f <= self._inlet_temp_f:
            return
        heat_kbtu = kbtuh * duration_min / 60.0
        v_heated_gal = heat_kbtu * 1000.0 / (_RHO_CP * (outlet_temp_f - self._inlet_temp_f))
        self._delta_gal += v_heated_gal
        shift_pct_max = (outlet_temp_f - self._strat_inter) / self.strat_slope
        delta_gal_max = shift_pct_max * self.total_volume_gal / 100.0
        self._delta_gal = min(self._delta_gal, delta_gal_max)

    def add_recirc_return(self, flow_gpm: float, return_temp_f: float, duration_min: float, supply_temp_f: float | None=None):
        if self._outlet_temp_f <= self._inlet_temp_f:
            return
        t_supply = supply_temp_f if supply_temp_f is not None else self._outlet_temp_f
        vol_gal = flow_gpm * duration_min
        recirc_loss_kbtu = vol_gal * _RHO_CP * (t_supply - return_temp_f) / 1000.0
        net_delta_gal = recirc_loss_kbtu * 1000.0 / (_RHO_CP * (self._outlet_temp_f - self._inlet_temp_f))
        self._delta_gal -= net_delta_gal

    def get_average_draw_temp_f(self, draw_gal: float):
        draw_gal = min(draw_gal, self.total_volume_gal)
        if draw_gal <= 0.0:
            return self._outlet_temp_f
        shift_pct = self._delta_gal / self.total_volume_gal * 100.0
        x_draw_pct = max(0.0, 100.0 - draw_gal / self.total_volume_gal * 100.0)
        x_cold_pct = max(0.0, min(100.0, (self._inlet_temp_f - self._strat_inter) / self.strat_slope - shift_pct))
        x_hot_pct = max(0.0, min(100.0, (self._outlet_temp_f - self._strat_inter) / self.strat_slope - shift_pct))
        lo, hi = (max(x_draw_pct, 0.0), min(100.0, x_cold_pct))
        cold_integral = self._inlet_temp_f * max(0.0, hi - lo)
        lo, hi = (max(x_draw_pct, x_cold_pct), min(100.0, x_hot_pct))
        if hi > lo:
            a, b = (lo, hi)
            trans_integral = self.strat_slope / 2.0 * ((b + shift_pct) ** 2 - (a + shift_pct) ** 2) + self._strat_inter * (b - a)
        else:
            trans_integral = 0.0
        lo, hi = (max(x_draw_pct, x_hot_pct), 100.0)
        hot_integral = self._outlet_temp_f * max(0.0, hi - lo)
        total_width = 100.0 - x_draw_pct
        if total_width <= 0.0:
            return self._outlet_temp_f
        return (cold_integral + trans_integral + hot_integral) / total_width

    def draw_physical_gal(self, gal: float, inlet_temp_f: float, supply_temp_f: float | None=None):
        self._inlet_temp_f = inlet_temp_f
        if gal > 0.0:
            self._delta_gal -= gal
            self._delta_gal = max(self._delta_gal, self._delta_gal_floor(supply_temp_f))

    def get_stratification_factor(self, on_fract: float, supply_temp_f: float, storage_temp_f: float):
        if storage_temp_f <= supply_temp_f:
            return 0.0
        strat_factor_pct = (storage_temp_f - supply_temp_f) / self.strat_slope
        return max(0.0, strat_factor_pct * (1.0 - on_fract))


class MixedStorageTank:

    def __init__(self, total_volume_gal: float):
        self.total_volume_gal = total_volume_gal
        self._temperature_f: float = 0.0

    def initialize(self, storage_temp_f: float, cold_temp_f: float, percent_useable: float):
        self._temperature_f = storage_temp_f
        self._cold_temp_f = cold_temp_f

    def get_temperature_at_fraction(self, fract: float):
        return self._temperature_f

    def get_usable_volume_supplyT_gal(self, supply_temp_f: float):
        return self.total_volume_gal if self._temperature_f >= supply_temp_f else 0.0

    def draw(self, volume_supplyT_gal: float, cold_temp_f: float, supply_temp_f: float, outlet_temp_f: float):
        self._cold_temp_f = cold_temp_f
        if self._temperature_f <= cold_temp_f or volume_supplyT_gal <= 0.0:
            return
        physical_vol_gal = volume_supplyT_gal * (supply_temp_f - cold_temp_f) / max(self._temperature_f - cold_temp_f, 1e-06)
        remaining_gal = self.total_volume_gal - physical_vol_gal
        if remaining_gal <= 0.0:
            self._temperature_f = cold_temp_f
            return
        total_energy_btu = remaining_gal * _RHO_CP * self._temperature_f + physical_vol_gal * _RHO_CP * cold_temp_f
        self._temperature_f = total_energy_btu / (self.total_volume_gal * _RHO_CP)

    def heat(self, kbtuh: float, duration_min: float, outlet_temp_f: float):
        if kbtuh <= 0.0:
            return
        heat_kbtu = kbtuh * duration_min / 60.0
        delta_t = heat_kbtu * 1000.0 / (self.total_volume_gal * _RHO_CP)
        self._temperature_f = self._temperature_f + delta_t

    def add_recirc_return(self, flow_gpm: float, return_temp_f: float, duration_min: float, supply_temp_f: float | None=None):
        if supply_temp_f is None:
            supply_temp_f = self._temperature_f
        vol_circulated_gal = flow_gpm * duration_min
        delta_t = vol_circulated_gal * (return_temp_f - supply_temp_f) / self.total_volume_gal
        self._temperature_f += delta_t

    def apply_fixed_heat_loss_kbtuh(self, kbtuh: float, duration_min: float):
        if kbtuh <= 0.0 or duration_min <= 0.0:
            return
        heat_kbtu = kbtuh * duration_min / 60.0
        delta_t = heat_kbtu * 1000.0 / (self.total_volume_gal * _RHO_CP)
        self._temperature_f -= delta_t

    def mix_primary_inflow(self, gal: float, primary_temp_f: float):
        if gal <= 0.0:
            return
        vol_remaining = self.total_volume_gal - gal
        if vol_remaining <= 0.0:
            self._temperature_f = primary_temp_f
            return
        total_energy = gal * _RHO_CP * primary_temp_f + vol_remaining * _RHO_CP * self._temperature_f
        self._temperature_f = total_energy / (self.total_volume_gal * _RHO_CP)

    def get_average_draw_temp_f(self, draw_gal: float):
        return self._temperature_f

    def draw_physical_gal(self, gal: float, inlet_temp_f: float, supply_temp_f: float | None=None):
        if gal <= 0.0:
            return
        remaining_gal = self.total_volume_gal - gal
        if remaining_gal <= 0.0:
            self._temperature_f = inlet_temp_f
            return
        total_energy = remaining_gal * _RHO_CP * self._temperature_f + gal * _RHO_CP * inlet_temp_f
        self._temperature_f = total_energy / (self.total_volume_gal * _RHO_CP)



class EnergyTank:

    def __init__(self, total_volume_gal: float, cold_temp_f: float, storage_temp_f: float, strat_slope: float=_DEFAULT_STRAT_SLOPE):
        self.total_volume_gal = total_volume_gal
        self._cold_temp_f = cold_temp_f
        self._storage_temp_f = storage_temp_f
        self.strat_slope = strat_slope
        self._energy_btu: float = 0.0
        self._cold_pct: float = 0.0

    def _max_energy_btu(self):
        usable_vol_gal = (1.0 - self._cold_pct / 100.0) * self.total_volume_gal
        return usable_vol_gal * _RHO_CP * (self._storage_temp_f - self._cold_temp_f)

    def _energy_at_shift_pct(self, s: float):
        dT = self._storage_temp_f - self._cold_temp_f
        if dT <= 0.0:
            return 0.0
        x_ramp = dT / self.strat_slope
        a = max(self._cold_pct, min(100.0, -s))
        b = max(self._cold_pct, min(100.0, x_ramp - s))
        I = self.strat_slope / 2.0 * ((b + s) ** 2 - (a + s) ** 2) + dT * (100.0 - b)
        return _RHO_CP * self.total_volume_gal / 100.0 * I

    def _shift_pct_from_energy(self):
        dT = self._storage_temp_f - self._cold_temp_f
        if dT <= 0.0:
            return 0.0
        E = max(0.0, min(self._energy_btu, self._max_energy_btu()))
        if E <= 0.0:
            return -100.0
        if E >= self._max_energy_btu():
            return dT / self.strat_slope
        lo: float = -100.0
        hi: float = dT / self.strat_slope
        tol: float = 1e-06 * max(E, 1.0)
        for _ in range(30):
            mid = (lo + hi) * 0.5
            e_mid = self._energy_at_shift_pct(mid)
            if abs(e_mid - E) < tol:
                break
            if e_mid < E:
                lo = mid
            else:
                hi = mid
        return (lo + hi) * 0.5

    def initialize(self, storage_temp_f: float, cold_temp_f: float, percent_useable: float):
        self._cold_temp_f = cold_temp_f
        self._storage_temp_f = storage_temp_f
        s_init = (percent_useable - 1.0) * 100.0
        self._energy_btu = self._energy_at_shift_pct(s_init)

    def get_temperature_at_fraction(self, fract: float):
        x_pct = fract * 100.0
        if x_pct < self._cold_pct:
            return self._cold_temp_f
        shift_pct = self._shift_pct_from_energy()
        temp = self.strat_slope * (x_pct + shift_pct) + self._cold_temp_f
        return max(self._cold_temp_f, min(self._storage_temp_f, temp))

    def get_usable_volume_supplyT_gal(self, supply_temp_f: float):
        shift_pct = self._shift_pct_from_energy()
        x_supply_pct = (supply_temp_f - self._cold_temp_f) / self.strat_slope - shift_pct
        x_supply_pct = max(0.0, min(100.0, x_supply_pct))
        return (100.0 - x_supply_pct) / 100.0 * self.total_volume_gal

    def draw(self, volume_supplyT_gal: float, cold_temp_f: float, supply_temp_f: float, outlet_temp_f: float):
        self._cold_temp_f = cold_temp_f
        if volume_supplyT_gal <= 0.0 or supply_temp_f <= cold_temp_f:
            return
        energy_requested = volume_supplyT_gal * _RHO_CP * (supply_temp_f - cold_temp_f)
        self._energy_btu = max(0.0, self._energy_btu - energy_requested)

    def add_energy_btu(self, btu: float):
        if btu > 0.0:
            self._energy_btu = min(self._energy_btu + btu, self._max_energy_btu())

    def heat(self, kbtuh: float, duration_min: float, outlet_temp_f: float):
        if kbtuh <= 0.0 or outlet_temp_f <= self._cold_temp_f:
            return
        heat_btu = kbtuh * 1000.0 * duration_min / 60.0
        self._energy_btu = min(self._energy_btu + heat_btu, self._max_energy_btu())

    def add_recirc_return(self, flow_gpm: float, return_temp_f: float, duration_min: float, supply_temp_f: float | None=None):
        t_supply = supply_temp_f if supply_temp_f is not None else self._storage_temp_f
        recirc_loss_btu = flow_gpm * duration_min * _RHO_CP * (t_supply - return_temp_f)
        self._energy_btu = max(0.0, self._energy_btu - recirc_loss_btu)

    def _zone_average_temp_f(self, lo_pct: float, hi_pct: float):
        if hi_pct <= lo_pct:
            return self._cold_temp_f
        shift_pct = self._shift_pct_from_energy()
        dT = self._storage_temp_f - self._cold_temp_f
        x_ramp = dT / self.strat_slope if dT > 0.0 else 0.0
        x_cold_pct = max(0.0, min(100.0, -shift_pct))
        x_hot_pct = max(0.0, min(100.0, x_ramp - shift_pct))
        lo_c, hi_c = (max(lo_pct, 0.0), min(hi_pct, x_cold_pct))
        cold_integral = self._cold_temp_f * max(0.0, hi_c - lo_c)
        lo_t = max(lo_pct, x_cold_pct)
        hi_t = min(hi_pct, x_hot_pct)
        if hi_t > lo_t:
            a, b = (lo_t, hi_t)
            trans_integral = self.strat_slope / 2.0 * ((b + shift_pct) ** 2 - (a + shift_pct) ** 2) + self._cold_temp_f * (b - a)
        else:
            trans_integral = 0.0
        lo_h = max(lo_pct, x_hot_pct)
        hi_h = min(hi_pct, 100.0)
        hot_integral = self._storage_temp_f * max(0.0, hi_h - lo_h)
        return (cold_integral + trans_integral + hot_integral) / (hi_pct - lo_pct)

    def get_average_draw_temp_f(self, draw_gal: float):
        draw_gal = min(draw_gal, self.total_volume_gal)
        if draw_gal <= 0.0:
            return self._storage_temp_f
        x_draw_pct = max(0.0, 100.0 - draw_gal / self.total_volume_gal * 100.0)
        return self._zone_average_temp_f(x_draw_pct, 100.0)

    def draw_physical_gal(self, gal: float, inlet_temp_f: float, supply_temp_f: float | None=None, update_internal_cold_temp: bool=True):
        if update_internal_cold_temp:
            self._cold_temp_f = inlet_temp_f
        if gal <= 0.0:
            return
        avg_temp = self.get_average_draw_temp_f(gal)
        energy_removed = gal * _RHO_CP * max(0.0, avg_temp - inlet_temp_f)
        self._energy_btu = max(0.0, self._energy_btu - energy_removed)


class SlugOverlayTank:

    def __init__(self, total_volume_gal: float, cold_temp_f: float, storage_temp_f: float, supply_temp_f: float, percent_useable: float=1.0, strat_slope: float=_DEFAULT_STRAT_SLOPE):
        super().__init__(total_volume_gal, cold_temp_f, storage_temp_f, strat_slope)
        self._supply_temp_f: float = supply_temp_f
        self.percent_useable: float = percent_useable
        self._cold_pct: float = (1.0 - percent_useable) * 100.0
        self._max_usable_vol_gal: float = percent_useable * total_volume_gal
        self._slug_active: bool = False
        self._slug_vol_gal: float = 0.0
        self._slug_temp_f: float = cold_temp_f
        self._slug_top_pct: float = self._cold_pct

    def initialize(self, storage_temp_f: float, cold_temp_f: float, percent_useable: float):
        self._cold_temp_f = cold_temp_f
        self._storage_temp_f = storage_temp_f
        self._slug_active = False
        self._slug_vol_gal = 0.0
        self._slug_temp_f = cold_temp_f
        self._slug_top_pct = self._cold_pct
        dT = storage_temp_f - cold_temp_f
        if dT <= 0.0 or self.strat_slope <= 0.0 or percent_useable <= 0.0:
            self._energy_btu = 0.0
            return
        x_supply_pct = (1.0 - percent_useable) * 100.0
        shift_pct = (self._supply_temp_f - cold_temp_f) / self.strat_slope - x_supply_pct
        self._energy_btu = max(0.0, min(self._energy_at_shift_pct(shift_pct), self._max_energy_btu()))

    def is_slug_active(self):
        return self._slug_active

    def activate_slug(self, supply_temp_f: float):
        if self._slug_active:
            return
        shift_pct = self._shift_pct_from_energy()
        x_supply_pct = (supply_temp_f - self._cold_temp_f) / self.strat_slope - shift_pct
        x_supply_pct = max(self._cold_pct, min(100.0, x_supply_pct))
        slug_vol_gal = max(0.0, (x_supply_pct - self._cold_pct) / 100.0 * self.total_volume_gal)
        if slug_vol_gal > 0.0:
            slug_temp_f = self._zone_average_temp_f(self._cold_pct, x_supply_pct)
        else:
            slug_temp_f = self._cold_temp_f
        self._slug_active = True
        self._slug_vol_gal = slug_vol_gal
        self._slug_temp_f = slug_temp_f
        self._slug_top_pct = self._cold_pct + slug_vol_gal / self.total_volume_gal * 100.0 if self.total_volume_gal > 0.0 else self._cold_pct
        self._original_slug_vol_gal = self._slug_vol_gal

    def add_to_slug(self, draw_gal: float, inlet_temp_f: float):
        if not self._slug_active or draw_gal <= 0.0:
            return
        if self._slug_vol_gal <= 0.0:
            self._slug_temp_f = inlet_temp_f
            self._slug_vol_gal = draw_gal
        else:
            self._slug_temp_f = (self._slug_vol_gal * self._slug_temp_f + draw_gal * inlet_temp_f) / (self._slug_vol_gal + draw_gal)
            self._slug_vol_gal += draw_gal
        self._slug_top_pct = self._cold_pct + self._slug_vol_gal / self.total_volume_gal * 100.0 if self.total_volume_gal > 0.0 else self._cold_pct

    def heat_slug(self, kbtuh: float, duration_min: float):
        if not self._slug_active or self._slug_vol_gal <= 0.0 or kbtuh <= 0.0:
            return
        heat_btu = kbtuh * 1000.0 * duration_min / 60.0
        self._slug_temp_f += heat_btu / (self._slug_vol_gal * _RHO_CP)
        self._slug_temp_f = self._slug_temp_f

    @property
    def slug_temp_f(self):
        return self._slug_temp_f

    def deactivate_slug(self):
        if not self._slug_active:
            return
        slug_btu = max(0.0, self._slug_vol_gal * _RHO_CP * (self._slug_temp_f - self._cold_temp_f))
        if self._slug_top_pct >= 100.0:
            self._energy_btu = slug_btu
        else:
            total_slug_growth_gal = self._slug_vol_gal - self._original_slug_vol_gal
            above_slug_gal = max(0.0, self._max_usable_vol_gal - self._slug_vol_gal)
            above_slug_pct = 100.0 - self._slug_top_pct
            slug_growth_vol_pct = total_slug_growth_gal / self.total_volume_gal * 100.0
            top_of_tank_pct = 100.0 - slug_growth_vol_pct
            above_slug_temp_f = self._zone_average_temp_f(top_of_tank_pct - above_slug_pct, top_of_tank_pct)
            above_slug_btu = max(0.0, above_slug_gal * _RHO_CP * (above_slug_temp_f - self._cold_temp_f))
            self._energy_btu = above_slug_btu + slug_btu
        self._slug_active = False
        self._slug_vol_gal = 0.0
        self._original_slug_vol_gal = 0.0
        self._slug_temp_f = self._cold_temp_f
        self._slug_top_pct = self._cold_pct

    def get_average_draw_temp_f(self, draw_gal: float):
        if not self._slug_active:
            return super().get_average_draw_temp_f(draw_gal)
        draw_gal_pct = draw_gal / self.total_volume_gal * 100.0
        if 100.0 - draw_gal_pct >= self._slug_top_pct:
            return super().get_average_draw_temp_f(draw_gal)
        non_slug_draw_pct = 100.0 - self._slug_top_pct
        slug_draw_pct = draw_gal_pct - non_slug_draw_pct
        return (super().get_average_draw_temp_f(self.total_volume_gal * (non_slug_draw_pct / 100.0)) * non_slug_draw_pct + self._slug_temp_f * slug_draw_pct) / draw_gal_pct

    def get_temperature_at_fraction(self, fract: float, verbose=False):
        if verbose:
            print(f'{self._slug_active}, {fract * 100.0}, {self._slug_top_pct}')
        if not self._slug_active:
            return super().get_temperature_at_fraction(fract)
        x_pct = fract * 100.0
        if x_pct < self._cold_pct:
            return self._cold_temp_f
        if x_pct <= self._slug_top_pct:
            return max(self._cold_temp_f, min(self._storage_temp_f, self._slug_temp_f))
        total_slug_growth_gal = self._slug_vol_gal - self._original_slug_vol_gal
        fract_minus_slug_vol = fract - total_slug_growth_gal / self.total_volume_gal
        return super().get_temperature_at_fraction(fract_minus_slug_vol)

    def get_usable_volume_supplyT_gal(self, supply_temp_f: float):
        if not self._slug_active:
            return min(super().get_usable_volume_supplyT_gal(supply_temp_f), self.total_volume_gal * self.percent_useable)
        hot_usable = self._max_usable_vol_gal - self._slug_vol_gal
        slug_usable = self._slug_vol_gal if self._slug_temp_f >= supply_temp_f else 0.0
        return hot_usable + slug_usable

    def draw_physical_gal(self, gal: float, inlet_temp_f: float, supply_temp_f: float | None=None, update_internal_cold_temp: bool=True):
        if not self._slug_active:
            return super().draw_physical_gal(gal, inlet_temp_f, supply_temp_f, update_internal_cold_temp)
        available_gal = max(0.0, self._max_usable_vol_gal - self._slug_vol_gal)
        if available_gal < gal:
            remove_from_slug_gal = gal - available_gal
            self._slug_vol_gal = self._slug_vol_gal - remove_from_slug_gal
        self.add_to_slug(gal, inlet_temp_f)
        if available_gal < gal:
            self._slug_top_pct = 100.0
            self._slug_vol_gal = self._max_usable_vol_gal
