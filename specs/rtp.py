import numpy as np

class RTPSystem:

    def __init__(self, water_heaters, storage_tank, supply_temp_f: float, storage_temp_f: float, return_temp_f: float, return_flow_gpm: float, max_daily_run_hr: float=16.0, defrost_factor: float=1.0):
        super().__init__(water_heaters, storage_tank, supply_temp_f, storage_temp_f, max_daily_run_hr=max_daily_run_hr, defrost_factor=defrost_factor)
        self.return_temp_f = return_temp_f
        self.return_flow_gpm = return_flow_gpm

    def get_recirc_loss_kbtuh(self):
        return self.return_flow_gpm * 60.0 * _RHO_CP * (self.supply_temp_f - self.return_temp_f) / 1000.0

    def _calc_required_capacity(self, building):
        dhw_cap = super()._calc_required_capacity(building)
        recirc_cap = self.get_recirc_loss_kbtuh() * 24.0 / self.max_daily_run_hr / self.defrost_factor
        return dhw_cap + recirc_cap

    def _calc_required_capacity_ls_kbtuh(self, control_schedule, control_map, building, strat_slope: float, fract_total_vol: float=1.0):
        dhw_ls_cap = super()._calc_required_capacity_ls_kbtuh(control_schedule, control_map, building, strat_slope, fract_total_vol)
        recirc_cap = self.get_recirc_loss_kbtuh() * 24.0 / self.max_daily_run_hr / self.defrost_factor
        return dhw_ls_cap + recirc_cap


_SPRTP_STRAT_SLOPE: float = 1.7

class SinglePassRTPSystem:

    @classmethod
    def from_size(cls, building, supply_temp_f: float, storage_temp_f: float, return_temp_f: float, return_flow_gpm: float, max_daily_run_hr: float=16.0, defrost_factor: float=1.0, control_schedule: list[str] | None=None, control_map: dict[str, Controls] | None=None, strat_slope: float=_SPRTP_STRAT_SLOPE, load_shift_fract_total_vol: float=1.0):
        system = cls(water_heaters=[], storage_tank=None, supply_temp_f=supply_temp_f, storage_temp_f=storage_temp_f, return_temp_f=return_temp_f, return_flow_gpm=return_flow_gpm, max_daily_run_hr=max_daily_run_hr, defrost_factor=defrost_factor)
        system.size(building, control_schedule=control_schedule, control_map=control_map, strat_slope=strat_slope, load_shift_fract_total_vol=load_shift_fract_total_vol)
        system.storage_tank = StratifiedTank(total_volume_gal=system._minimum_storage_storageT_gal, strat_slope=strat_slope)
        system.water_heaters = [WaterHeater.from_nominal_capacity(nominal_capacity_kbtuh=system._minimum_capacity_kbtuh, control_schedule=control_schedule, control_map=control_map)]
        return system

    def size(self, building, control_schedule: list[str] | None=None, control_map: dict[str, Controls] | None=None, strat_slope: float=1.7, load_shift_fract_total_vol: float=1.0):
        super().size(building, control_schedule=control_schedule, control_map=control_map, strat_slope=strat_slope, load_shift_fract_total_vol=load_shift_fract_total_vol)
        self._recirc_capacity_kbtuh: float = self.get_recirc_loss_kbtuh() * 24.0 / self.max_daily_run_hr / self.defrost_factor

    def get_recirc_capacity_kbtuh(self):
        if not hasattr(self, '_recirc_capacity_kbtuh') or self._recirc_capacity_kbtuh is None:
            raise RuntimeError('size() must be called before get_recirc_capacity_kbtuh().')
        return self._recirc_capacity_kbtuh

    def _calc_running_volume_supplyT_gal(self, building, capacity_kbtuh: float):
        design_inlet = self._require_design_inlet_temp(building)
        recirc_daily_supplyT_gal = self.get_recirc_loss_kbtuh() * 1000.0 / (_RHO_CP * (self.supply_temp_f - design_inlet)) * 24.0
        result = super()._calc_running_volume_supplyT_gal(building, capacity_kbtuh)
        return result

    def _calc_gen_rate_ls_gph(self, control_schedule: list[str], control_map, building, strat_slope: float, fract_total_vol: float=1.0):
        design_inlet = self._require_design_inlet_temp(building)
        recirc_daily_supplyT_gal = self.get_recirc_loss_kbtuh() * 1000.0 / (_RHO_CP * (self.supply_temp_f - design_inlet)) * 24.0
        daily_dhw_use_supplyT_gal = building.daily_dhw_use_supplyT_gal
        building.daily_dhw_use_supplyT_gal += recirc_daily_supplyT_gal
        try:
            result = super()._calc_gen_rate_ls_gph(control_schedule, control_map, building, strat_slope, fract_total_vol)
        finally:
            building.daily_dhw_use_supplyT_gal = daily_dhw_use_supplyT_gal
        return result

    def _calc_running_volume_ls_supplyT_gal(self, control_schedule: list[str], building, gen_rate_ls_gph: float, fract_total_vol: float=1.0):
        design_inlet = self._require_design_inlet_temp(building)
        recirc_daily_supplyT_gal = self.get_recirc_loss_kbtuh() * 1000.0 / (_RHO_CP * (self.supply_temp_f - design_inlet)) * 24.0
        daily_dhw_use_supplyT_gal = building.daily_dhw_use_supplyT_gal
        building.daily_dhw_use_supplyT_gal += recirc_daily_supplyT_gal
        try:
            result = super()._calc_running_volume_ls_supplyT_gal(control_schedule, building, gen_rate_ls_gph, fract_total_vol)
        finally:
            building.daily_dhw_use_supplyT_gal = daily_dhw_use_supplyT_gal
        return result

    def simulate_step(self, building, timestep_interval: int, interval_min: int=1, mode: str='normal'):
        step = super().simulate_step(building, timestep_interval, interval_min, mode)
        if self.storage_tank is not None:
            self.storage_tank.add_recirc_return(self.return_flow_gpm, self.return_temp_f, interval_min, supply_temp_f=self.supply_temp_f)
            step['usable_volume_supplyT_gal'] = self.storage_tank.get_usable_volume_supplyT_gal(self.supply_temp_f)
            step['tank_temps_f'] = [self.storage_tank.get_temperature_at_fraction(f) for f in (0.0, 0.2, 0.4, 0.6, 0.8, 1.0)]
        return step


_MPRTP_STRAT_SLOPE: float = 0.8
_MPRTP_MAX_DAILY_RUN_HR: float = 14.0

class MultiPassRTPSystem:

    @classmethod
    def from_size(cls, building, supply_temp_f: float, storage_temp_f: float, return_temp_f: float, return_flow_gpm: float, max_daily_run_hr: float=_MPRTP_MAX_DAILY_RUN_HR, defrost_factor: float=1.0, control_schedule: list[str] | None=None, control_map: dict[str, Controls] | None=None, strat_slope: float=_MPRTP_STRAT_SLOPE, percent_useable: float=1.0, capacity_boost_trial_days: int=3, capacity_boost_iterations: int=3):
        if control_map and percent_useable < 1.0:
            cold_fract = 1.0 - percent_useable
            for key, ctrl in control_map.items():
                if ctrl.on_sensor_fract < cold_fract:
                    raise ValueError(f"Control '{key}': on_sensor_fract={ctrl.on_sensor_fract:.3f} is in the unusable zone (must be >= {cold_fract:.3f} for percent_useable={percent_useable:.3f}).")
                if ctrl.off_sensor_fract < cold_fract:
                    raise ValueError(f"Control '{key}': off_sensor_fract={ctrl.off_sensor_fract:.3f} is in the unusable zone (must be >= {cold_fract:.3f} for percent_useable={percent_useable:.3f}).")
        system = cls(water_heaters=[], storage_tank=None, supply_temp_f=supply_temp_f, storage_temp_f=storage_temp_f, return_temp_f=return_temp_f, return_flow_gpm=return_flow_gpm, max_daily_run_hr=max_daily_run_hr, defrost_factor=defrost_factor)
        system.size(building, control_map=control_map, strat_slope=strat_slope)
        cold_temp_f = system._require_design_inlet_temp(building)
        system.storage_tank = SlugOverlayTank(total_volume_gal=system._minimum_storage_storageT_gal, cold_temp_f=cold_temp_f, storage_temp_f=storage_temp_f, supply_temp_f=supply_temp_f, percent_useable=percent_useable, strat_slope=strat_slope)
        system.water_heaters = [WaterHeater.from_nominal_capacity(nominal_capacity_kbtuh=system._minimum_capacity_kbtuh, control_schedule=control_schedule, control_map=control_map)]
        inlet_temp_f = building.get_design_inlet_water_temp_f() or 50.0
        ctrl = control_map.get('normal') or next(iter(control_map.values()), None)
        starting_percent_usable = max(0.0, min(1.0, 1.0 - ctrl.on_sensor_fract))
        for _ in range(capacity_boost_iterations):
            system.storage_tank.initialize(storage_temp_f=system.storage_temp_f, cold_temp_f=inlet_temp_f, percent_useable=starting_percent_usable)
            minutes = 24 * 60 * capacity_boost_trial_days
            deficit_minutes = 0
            min_tank_outlet_f = supply_temp_f
            heater_on = False
            start_heat_min = 0
            for i in range(minutes):
                step = system.simulate_step(building=building, timestep_interval=i, interval_min=1)
                if step['heater_output_kbtuh'] > 0 and (not heater_on):
                    heater_on = True
                    start_heat_min = i
                elif step['heater_output_kbtuh'] <= 0 and heater_on:
                    heater_on = False
                if step['usable_volume_supplyT_gal'] <= 0.0:
                    tank_outlet_f = step['tank_temps_f'][-1]
                    if tank_outlet_f < min_tank_outlet_f:
                        deficit_minutes = i - start_heat_min
                        min_tank_outlet_f = tank_outlet_f
            if deficit_minutes > 0:
                capacity_increase_kbtu = system.storage_tank.total_volume_gal * percent_useable * _RHO_CP * (supply_temp_f - min_tank_outlet_f) / 1000
                if capacity_increase_kbtu > 0:
                    system._minimum_capacity_kbtuh = system._minimum_capacity_kbtuh + capacity_increase_kbtu / (deficit_minutes / 60)
                    system.water_heaters = [WaterHeater.from_nominal_capacity(nominal_capacity_kbtuh=system._minimum_capacity_kbtuh, control_schedule=control_schedule, control_map=control_map)]
            else:
                break
        return system

    def size(self, building, control_schedule: list[str] | None=None, control_map: dict[str, Controls] | None=None, strat_slope: float=_MPRTP_STRAT_SLOPE, load_shift_fract_total_vol: float=1.0):
        if self._is_load_shifting(control_map):
            raise ValueError("MultiPassRTPSystem does not support load-shift sizing. Remove the 'shed' key from control_map.")
        was_annual = building.is_annual_load_shape()
        if was_annual:
            building.set_to_daily_load_shape()
        try:
            self._avg_storage_outlet_temp_f = min([self._calc_avg_hot_temp_at_on_trigger(control.on_sensor_fract, control.on_trigger_t_f, strat_slope) for control in control_map.values()])
            capacity_kbtuh = self._calc_required_capacity(building)
            running_vol_supplyT_gal = self._calc_running_volume_supplyT_gal(building, capacity_kbtuh)
            design_inlet_temp_f = self._require_design_inlet_temp(building)
            strat_factor = self._calc_stratification_factor(control_map, strat_slope, design_inlet_temp_f)
            storage_vol_storageT_gal = self._calc_storage_volume_storageT_gal(running_vol_supplyT_gal, strat_factor)
            self._minimum_capacity_kbtuh = capacity_kbtuh
            self._minimum_storage_storageT_gal = storage_vol_storageT_gal
            self._sizing_strat_slope = strat_slope
        finally:
            if was_annual:
                building.set_to_annual_load_shape()

    def get_sizing_curve(self, building, strat_slope: float=_MPRTP_STRAT_SLOPE, step: float=0.5):
        was_annual = building.is_annual_load_shape()
        if was_annual:
            building.set_to_daily_load_shape()
        _strat_slope = getattr(self, '_sizing_strat_slope', strat_slope)
        _cmap = self.water_heaters[0].control_map if self.water_heaters else None
        _sched = self.water_heaters[0].control_schedule if self.water_heaters else None
        _pct_use = self.storage_tank.percent_useable if self.storage_tank and hasattr(self.storage_tank, 'percent_useable') else 1.0
        try:
            design_inlet = self._require_design_inlet_temp(building)
            delta_t = self.supply_temp_f - design_inlet
            recirc_loss = self.get_recirc_loss_kbtuh()
            _numerator = building.daily_dhw_use_supplyT_gal * _RHO_CP * delta_t / 1000.0 + recirc_loss * 24.0
            min_run_hr = 1.0 / float(np.max(building.peak_load_shape)) * 1.001
            heat_hours = np.arange(self.max_daily_run_hr, min_run_hr, -step)
            heat_hours_out: list[float] = []
            capacity_out: list[float] = []
            storage_out: list[float] = []
            rec_back_hr: float | None = None
            for h in heat_hours:
                if h == self.max_daily_run_hr:
                    pt = self
                elif h < 9:
                    break
                else:
                    try:
                        pt = MultiPassRTPSystem.from_size(building=building, supply_temp_f=self.supply_temp_f, storage_temp_f=self.storage_temp_f, return_temp_f=self.return_temp_f, return_flow_gpm=self.return_flow_gpm, max_daily_run_hr=float(h), defrost_factor=self.defrost_factor, control_schedule=_sched, control_map=_cmap, strat_slope=_strat_slope, percent_useable=_pct_use, capacity_boost_trial_days=2, capacity_boost_iterations=1)
                    except (ValueError, RuntimeError, ZeroDivisionError):
                        break
                vol = pt._minimum_storage_storageT_gal
                if vol == 0.0:
                    break
                back_hr = round(_numerator / (pt._minimum_capacity_kbtuh * self.defrost_factor), 1)
                if rec_back_hr is None:
                    rec_back_hr = back_hr
                if any((back_hr >= existing for existing in heat_hours_out)):
                    continue
                heat_hours_out.append(back_hr)
                capacity_out.append(pt._minimum_capacity_kbtuh)
                storage_out.append(vol)
            if heat_hours_out:
                order = sorted(range(len(heat_hours_out)), key=lambda i: heat_hours_out[i], reverse=True)
                heat_hours_out = [heat_hours_out[i] for i in order]
                capacity_out = [capacity_out[i] for i in order]
                storage_out = [storage_out[i] for i in order]
                rec_index = min(range(len(heat_hours_out)), key=lambda i: abs(heat_hours_out[i] - (rec_back_hr or 0.0)))
            else:
                rec_index = 0
            return {'heat_hours': heat_hours_out, 'capacity_kbtuh': capacity_out, 'storage_storageT_gal': storage_out, 'recommended_index': rec_index}
        finally:
            if was_annual:
                building.set_to_annual_load_shape()

    def _calc_running_volume_supplyT_gal(self, building, capacity_kbtuh: float):
        cold_temp_f = self._require_design_inlet_temp(building)
        interval_min = 1
        n_timesteps = 2 * 24 * 60
        flow_per_min_gal = self.return_flow_gpm * interval_min
        heat_kbtu_per_min = capacity_kbtuh * interval_min / 60.0
        slug_vol_gal = 0.0
        slug_temp_f = cold_temp_f
        max_slug_vol_gal = 0.0
        for t in range(n_timesteps):
            demand_supplyT_gal = building.get_dhw_load_supplyT_gal(t, interval_min)
            result = mixing_valve_behavior(demand_supplyT_gal, flow_per_min_gal, cold_temp_f, self.supply_temp_f, self.return_temp_f, self._avg_storage_outlet_temp_f)
            draw_gal = result['storage_draw_gal']
            inlet_temp = result['inlet_temp_f']
            if draw_gal > 0:
                if slug_vol_gal <= 0.0:
                    slug_vol_gal = draw_gal
                    slug_temp_f = inlet_temp
                else:
                    slug_temp_f = (slug_vol_gal * slug_temp_f + draw_gal * inlet_temp) / (slug_vol_gal + draw_gal)
                    slug_vol_gal += draw_gal
            if slug_vol_gal > 0.0:
                slug_temp_f += heat_kbtu_per_min * 1000.0 / (slug_vol_gal * _RHO_CP)
            if slug_vol_gal > 0.0 and slug_temp_f >= self.storage_temp_f:
                slug_vol_gal = 0.0
                slug_temp_f = cold_temp_f
            if slug_vol_gal > max_slug_vol_gal:
                max_slug_vol_gal = slug_vol_gal
        return max_slug_vol_gal

    def simulate_step(self, building, timestep_interval: int, interval_min: int=1, mode: str='normal'):
        tank: SlugOverlayTank = self.storage_tank
        demand_supplyT_gal = building.get_dhw_load_supplyT_gal(timestep_interval, interval_min)
        oat_f = building.get_oat_f(timestep_interval, interval_min)
        inlet_water_temp_f = building.get_inlet_water_temp_f(timestep_interval, interval_min)
        hour_of_day = timestep_interval * interval_min // 60 % 24
        mode = self.water_heaters[0].control_schedule[hour_of_day] if self.water_heaters and self.water_heaters[0].control_schedule else 'normal'
        tank._cold_temp_f = inlet_water_temp_f
        was_heating = any((wh.is_active() for wh in self.water_heaters))
        for wh in self.water_heaters:
            wh.update_state(tank, hour_of_day)
        is_heating = any((wh.is_active() for wh in self.water_heaters))
        if is_heating:
            tank.activate_slug(self.supply_temp_f)
        elif was_heating and (not is_heating):
            tank.deactivate_slug()
        top_temp_f = tank.get_temperature_at_fraction(1.0)
        total_kbtuh = sum((wh.get_output_kbtuh(oat_f, wh.get_outlet_temp_f(hour_of_day)) for wh in self.water_heaters))
        active_kws = [wh.get_power_in_kw(oat_f, wh.get_outlet_temp_f(hour_of_day)) for wh in self.water_heaters if wh.is_active()]
        total_kw: float | None = sum((kw or 0.0 for kw in active_kws)) if any((kw is not None for kw in active_kws)) else None
        flow_per_min_gal = self.return_flow_gpm * interval_min
        result = mixing_valve_behavior(demand_supplyT_gal, flow_per_min_gal, inlet_water_temp_f, self.supply_temp_f, self.return_temp_f, top_temp_f)
        draw_gal = result['storage_draw_gal']
        mv_inlet_temp_f = result['inlet_temp_f']
        if is_heating:
            if tank.is_slug_active() and tank._slug_vol_gal > 0:
                tank.heat_slug(total_kbtuh, interval_min)
        if draw_gal > 0:
            tank.draw_physical_gal(draw_gal, mv_inlet_temp_f, update_internal_cold_temp=False)
        usable_vol_gal = tank.get_usable_volume_supplyT_gal(self.supply_temp_f)
        tank_temps_f = [tank.get_temperature_at_fraction(f) for f in (0.0, 0.2, 0.4, 0.6, 0.8, 1.0)]
        delivery_temp_f = self.supply_temp_f if is_heating else top_temp_f
        return {'demand_supplyT_gal': demand_supplyT_gal, 'usable_volume_supplyT_gal': usable_vol_gal, 'heater_output_kbtuh': total_kbtuh, 'heater_power_in_kw': total_kw, 'oat_f': oat_f, 'inlet_water_temp_f': inlet_water_temp_f, 'tank_temps_f': tank_temps_f, 'mode': mode, 'delivery_temp_f': delivery_temp_f}
