import numpy as np
import plotly.graph_objects as go

class RecircSystem:

    def __init__(self, water_heaters, storage_tank, supply_temp_f, storage_temp_f, return_temp_f, return_flow_gpm, max_daily_run_hr: float=24.0, defrost_factor: float=1.0):
        super().__init__(water_heaters, storage_tank, supply_temp_f, storage_temp_f, max_daily_run_hr=max_daily_run_hr, defrost_factor=defrost_factor)
        self.return_temp_f = return_temp_f
        self.return_flow_gpm = return_flow_gpm

    def get_recirc_loss_kbtuh(self):
        return self.return_flow_gpm * (self.supply_temp_f - self.return_temp_f) * _RHO_CP * 60.0 / 1000.0

    def get_daily_recirc_loss_kbtu(self):
        return self.get_recirc_loss_kbtuh() * 24.0

    def simulate_step(self, building, timestep_interval, interval_min=1, mode='normal'):
        return super().simulate_step(building, timestep_interval, interval_min, mode)


_TM_MIN_RUNTIME_HR: float = 20.0 / 60.0

class ParallelLoopSystem:

    def __init__(self, water_heaters, storage_tank, supply_temp_f: float, storage_temp_f: float, return_temp_f: float, return_flow_gpm: float, tm_on_temp_f: float, tm_off_temp_f: float, tm_off_time_hr: float=0.5, tm_safety_factor: float=1.2, tm_storage_tank=None, tm_water_heater=None, num_tm_heaters: int=1, max_daily_run_hr: float=24.0, defrost_factor: float=1.0):
        super().__init__(water_heaters, storage_tank, supply_temp_f, storage_temp_f, return_temp_f, return_flow_gpm, max_daily_run_hr=max_daily_run_hr, defrost_factor=defrost_factor)
        self.tm_on_temp_f = tm_on_temp_f
        self.tm_off_temp_f = tm_off_temp_f
        self.tm_off_time_hr = tm_off_time_hr
        self.tm_safety_factor = tm_safety_factor
        self.tm_storage_tank = tm_storage_tank
        self.tm_water_heater = tm_water_heater
        self.num_tm_heaters = num_tm_heaters
        self._minimum_tm_volume_gal: float | None = None
        self._minimum_tm_capacity_kbtuh: float | None = None

    @classmethod
    def from_size(cls, building, supply_temp_f: float, storage_temp_f: float, return_temp_f: float, return_flow_gpm: float, tm_on_temp_f: float, tm_off_temp_f: float, tm_off_time_hr: float=0.5, tm_safety_factor: float=1.2, num_tm_heaters: int=1, max_daily_run_hr: float=24.0, defrost_factor: float=1.0, control_schedule=None, control_map=None, strat_slope: float=2.8, load_shift_fract_total_vol: float=1.0):
        system = cls(water_heaters=[], storage_tank=None, supply_temp_f=supply_temp_f, storage_temp_f=storage_temp_f, return_temp_f=return_temp_f, return_flow_gpm=return_flow_gpm, tm_on_temp_f=tm_on_temp_f, tm_off_temp_f=tm_off_temp_f, tm_off_time_hr=tm_off_time_hr, tm_safety_factor=tm_safety_factor, num_tm_heaters=num_tm_heaters, max_daily_run_hr=max_daily_run_hr, defrost_factor=defrost_factor)
        system.size(building, control_schedule=control_schedule, control_map=control_map, strat_slope=strat_slope, load_shift_fract_total_vol=load_shift_fract_total_vol)
        system.storage_tank = StratifiedTank(total_volume_gal=system._minimum_storage_storageT_gal, strat_slope=strat_slope)
        system.water_heaters = [WaterHeater.from_nominal_capacity(nominal_capacity_kbtuh=system._minimum_capacity_kbtuh, control_schedule=control_schedule, control_map=control_map)]
        system.tm_storage_tank = MixedStorageTank(total_volume_gal=system._minimum_tm_volume_gal)
        tm_controls = Controls(on_sensor_fract=0.5, on_trigger_t_f=tm_on_temp_f, off_sensor_fract=0.5, off_trigger_t_f=tm_off_temp_f, outlet_temp_f=tm_off_temp_f)
        system.tm_water_heater = WaterHeater.from_nominal_capacity(nominal_capacity_kbtuh=system._minimum_tm_capacity_kbtuh / system.num_tm_heaters, control_schedule=['normal'] * 24, control_map={'normal': tm_controls})
        return system

    def _validate_tm_inputs(self):
        if self.tm_safety_factor <= 1.0:
            raise ValueError('tm_safety_factor must be > 1.0. The TM heater must be able to outpace recirc losses over a full cycle.')
        if not 0 < self.tm_off_time_hr <= 1.0:
            raise ValueError('tm_off_time_hr must be > 0 and <= 1.0 hour.')
        if self.tm_off_temp_f <= self.tm_on_temp_f:
            raise ValueError('tm_off_temp_f must be greater than tm_on_temp_f.')
        expected_runtime_hr = self.tm_off_time_hr / (self.tm_safety_factor - 1.0)
        if _TM_MIN_RUNTIME_HR >= expected_runtime_hr:
            raise ValueError(f'Expected TM heater runtime ({expected_runtime_hr * 60:.1f} min) is below the recommended minimum ({_TM_MIN_RUNTIME_HR * 60:.0f} min). Increase tm_off_time_hr or tm_safety_factor.')

    def size(self, building, control_schedule=None, control_map=None, strat_slope: float=2.8, load_shift_fract_total_vol: float=1.0):
        self._validate_tm_inputs()
        super().size(building, control_schedule=control_schedule, control_map=control_map, strat_slope=strat_slope, load_shift_fract_total_vol=load_shift_fract_total_vol)
        self.size_tm_system()

    def size_tm_system(self):
        recirc_loss_btuhr = self.get_recirc_loss_kbtuh() * 1000.0
        self._minimum_tm_volume_gal = recirc_loss_btuhr / _RHO_CP * (self.tm_off_time_hr / (self.tm_off_temp_f - self.tm_on_temp_f))
        self._minimum_tm_capacity_kbtuh = self.tm_safety_factor * recirc_loss_btuhr / 1000.0

    def get_minimum_tm_volume_gal(self):
        if self._minimum_tm_volume_gal is None:
            raise RuntimeError('size() must be called before get_minimum_tm_volume_gal().')
        return self._minimum_tm_volume_gal

    def get_minimum_tm_capacity_kbtuh(self):
        if self._minimum_tm_capacity_kbtuh is None:
            raise RuntimeError('size() must be called before get_minimum_tm_capacity_kbtuh().')
        return self._minimum_tm_capacity_kbtuh

    def simulate_step(self, building: Building, timestep_interval: int, interval_min: int=1, mode: str='normal'):
        step = super().simulate_step(building, timestep_interval, interval_min, mode)
        hour_of_day = timestep_interval * interval_min // 60 % 24
        oat_f = step['oat_f']
        self.tm_storage_tank.add_recirc_return(self.return_flow_gpm, self.return_temp_f, interval_min)
        self.tm_water_heater.update_state(self.tm_storage_tank, hour_of_day)
        tm_top_temp_f = self.tm_storage_tank.get_temperature_at_fraction(1.0)
        tm_inlet_temp_f = (self.tm_off_temp_f + self.tm_on_temp_f) / 2.0
        tm_kbtuh = self.tm_water_heater.get_output_kbtuh(oat_f, tm_top_temp_f, tm_inlet_temp_f) * self.num_tm_heaters
        tm_kw_per_unit = self.tm_water_heater.get_power_in_kw(oat_f, tm_top_temp_f, tm_inlet_temp_f) if self.tm_water_heater.is_active() else None
        tm_kw = tm_kw_per_unit * self.num_tm_heaters if tm_kw_per_unit is not None else None
        self.tm_storage_tank.heat(tm_kbtuh, interval_min, self.tm_off_temp_f)
        step['tm_tank_temp_f'] = self.tm_storage_tank.get_temperature_at_fraction(0.5)
        step['tm_heater_output_kbtuh'] = tm_kbtuh
        step['tm_heater_input_kw'] = tm_kw
        return step


_SWING_SIZING_TABLE: list[int] = [40, 50, 80, 100, 120, 160, 175, 240, 350, 400, 500, 600, 800, 1000, 1250]
_SWING_SIZING_TABLE_CA: list[int] = [80, 96, 168, 288, 480]
_WATTS_PER_GAL: float = 100.0
_ELEMENT_DEADBAND_F: float = 8.0

def _hr_to_min(hourly_arr: np.ndarray):
    return np.repeat(hourly_arr, 60)

class SwingSystem:

    def __init__(self, water_heaters, storage_tank, supply_temp_f: float, storage_temp_f: float, return_temp_f: float, return_flow_gpm: float, tm_safety_factor: float=1.2, max_daily_run_hr: float=24.0, defrost_factor: float=1.0):
        super().__init__(water_heaters, storage_tank, supply_temp_f, storage_temp_f, return_temp_f, return_flow_gpm, max_daily_run_hr=max_daily_run_hr, defrost_factor=defrost_factor)
        if tm_safety_factor <= 1.0:
            raise ValueError('tm_safety_factor must be > 1.0 — the TM element must outpace recirc losses.')
        self.tm_safety_factor = tm_safety_factor
        self._minimum_tm_volume_gal: float | None = None
        self._minimum_tm_ca_volume_gal: float | None = None
        self._minimum_tm_capacity_kbtuh: float | None = None
        self._eff_mix_fraction: float = 1.0
        self.tm_storage_tank: MixedStorageTank | None = None
        self.tm_water_heater: WaterHeater | None = None

    @classmethod
    def from_size(cls, building: Building, supply_temp_f: float, storage_temp_f: float, return_temp_f: float, return_flow_gpm: float, tm_safety_factor: float=1.2, max_daily_run_hr: float=24.0, defrost_factor: float=1.0, control_schedule: list[str] | None=None, control_map: dict[str, Controls] | None=None, strat_slope: float=2.8, load_shift_fract_total_vol: float=1.0):
        system = cls(water_heaters=[], storage_tank=None, supply_temp_f=supply_temp_f, storage_temp_f=storage_temp_f, return_temp_f=return_temp_f, return_flow_gpm=return_flow_gpm, tm_safety_factor=tm_safety_factor, max_daily_run_hr=max_daily_run_hr, defrost_factor=defrost_factor)
        system.size(building, control_schedule=control_schedule, control_map=control_map, strat_slope=strat_slope, load_shift_fract_total_vol=load_shift_fract_total_vol)
        system.storage_tank = StratifiedTank(total_volume_gal=system._minimum_storage_storageT_gal, strat_slope=strat_slope)
        system.water_heaters = [WaterHeater.from_nominal_capacity(nominal_capacity_kbtuh=system._minimum_capacity_kbtuh, control_schedule=control_schedule, control_map=control_map)]
        system.tm_storage_tank = MixedStorageTank(total_volume_gal=system._minimum_tm_volume_gal)
        tm_controls = Controls(on_sensor_fract=0.5, on_trigger_t_f=supply_temp_f, off_sensor_fract=0.5, off_trigger_t_f=supply_temp_f + _ELEMENT_DEADBAND_F, outlet_temp_f=supply_temp_f + _ELEMENT_DEADBAND_F)
        system.tm_water_heater = WaterHeater.from_nominal_capacity(nominal_capacity_kbtuh=system._minimum_tm_capacity_kbtuh, control_schedule=['normal'] * 24, control_map={'normal': tm_controls})
        return system

    def size(self, building: Building, control_schedule: list[str] | None=None, control_map: dict[str, Controls] | None=None, strat_slope: float=2.8, load_shift_fract_total_vol: float=1.0):
        was_annual = building.is_annual_load_shape()
        if was_annual:
            building.set_to_daily_load_shape()
        original_max_run_hr = self.max_daily_run_hr
        if control_schedule and self._is_load_shifting(control_map):
            non_shed = float(sum((1 for h in control_schedule if h != 'shed')))
            self.max_daily_run_hr = min(self.max_daily_run_hr, non_shed)
        try:
            design_inlet_temp_f = self._require_design_inlet_temp(building)
            self._size_tm_system(building)
            self._eff_mix_fraction = 1.0
            running_vol_supplyT_gal = self._calc_running_volume_supplyT_gal(building, capacity_kbtuh=None)
            strat_factor = self._calc_stratification_factor(control_map, strat_slope, design_inlet_temp_f)
            storage_vol_storageT_gal = self._calc_storage_volume_storageT_gal(running_vol_supplyT_gal, strat_factor)
            capacity_kbtuh = self._calc_required_capacity(building)
            if control_schedule and self._is_load_shifting(control_map):
                ls_gen_rate_gph = self._calc_gen_rate_ls_gph(control_schedule, control_map, building, strat_slope, fract_total_vol=load_shift_fract_total_vol)
                ls_capacity_kbtuh = self._calc_required_capacity_ls_kbtuh(control_schedule, control_map, building, strat_slope, fract_total_vol=load_shift_fract_total_vol)
                ls_running_vol, ls_eff_mix = self._calc_running_volume_ls_swing(control_schedule, building, ls_gen_rate_gph, fract_total_vol=load_shift_fract_total_vol)
                ls_storage_vol = self._calc_storage_volume_ls_storageT_gal(ls_running_vol, control_map, strat_slope, design_inlet_temp_f)
                capacity_kbtuh = max(capacity_kbtuh, ls_capacity_kbtuh)
                if ls_storage_vol > storage_vol_storageT_gal:
                    storage_vol_storageT_gal = ls_storage_vol
                    self._eff_mix_fraction = ls_eff_mix
            self._minimum_capacity_kbtuh = capacity_kbtuh
            self._minimum_storage_storageT_gal = storage_vol_storageT_gal
            self._sizing_strat_slope = strat_slope
        finally:
            self.max_daily_run_hr = original_max_run_hr
            if was_annual:
                building.set_to_annual_load_shape()

    def get_sizing_curve(self, building: 'Building', strat_slope: float=2.8, step: float=0.25):
        was_annual = building.is_annual_load_shape()
        if was_annual:
            building.set_to_daily_load_shape()
        _strat_slope = getattr(self, '_sizing_strat_slope', strat_slope)
        try:
            design_inlet = self._require_design_inlet_temp(building)
            _cmap = self.water_heaters[0].control_map if self.water_heaters else None
            strat_factor = self._calc_stratification_factor(_cmap, _strat_slope, design_inlet)
            min_run_hr = 1.0 / float(np.max(building.peak_load_shape)) * 1.001
            arr1 = np.arange(24.0, self.max_daily_run_hr, -step)
            arr2 = np.arange(self.max_daily_run_hr, min_run_hr, -step)
            heat_hours = np.concatenate([arr1, arr2])
            rec_index = len(arr1)
            heat_hours_out: list[float] = []
            capacity_out: list[float] = []
            storage_out: list[float] = []
            original_run_hr = self.max_daily_run_hr
            original_eff_mix = self._eff_mix_fraction
            try:
                for h in heat_hours:
                    self.max_daily_run_hr = float(h)
                    try:
                        running_vol = self._calc_running_volume_supplyT_gal(building, None)
                        if running_vol == 0.0:
                            break
                        cap = self._calc_required_capacity(building)
                        storage_vol = self._calc_storage_volume_storageT_gal(running_vol, strat_factor)
                    except (ValueError, RuntimeError):
                        break
                    heat_hours_out.append(float(h))
                    capacity_out.append(cap)
                    storage_out.append(storage_vol)
            finally:
                self.max_daily_run_hr = original_run_hr
                self._eff_mix_fraction = original_eff_mix
            rec_index = min(rec_index, max(0, len(heat_hours_out) - 1))
            return {'heat_hours': heat_hours_out, 'capacity_kbtuh': capacity_out, 'storage_storageT_gal': storage_out, 'recommended_index': rec_index}
        finally:
            if was_annual:
                building.set_to_annual_load_shape()

    def get_ls_sizing_curve(self, building: 'Building', *args, **kwargs):
        original_eff_mix = self._eff_mix_fraction
        try:
            return super().get_ls_sizing_curve(building, *args, **kwargs)
        finally:
            self._eff_mix_fraction = original_eff_mix

    def _size_tm_system(self, building=None):
        recirc_loss_btuhr = self.get_recirc_loss_kbtuh() * 1000.0
        vol_required = recirc_loss_btuhr / (_WATTS_PER_GAL * _W_TO_KBTUH)
        if building is not None:
            peak_draw_gal_per_min = building.daily_dhw_use_supplyT_gal * float(np.max(building.peak_load_shape)) / 60.0
            vol_required = max(vol_required, peak_draw_gal_per_min)
        if vol_required > max(_SWING_SIZING_TABLE):
            raise ValueError(f'Recirculation losses ({recirc_loss_btuhr:.0f} BTU/hr) require a swing tank larger than {max(_SWING_SIZING_TABLE)} gal. Consider splitting into multiple central plants.')
        self._minimum_tm_volume_gal = min((v for v in _SWING_SIZING_TABLE if v >= vol_required))
        if self._minimum_tm_volume_gal < 480:
            self._minimum_tm_ca_volume_gal = min((v for v in _SWING_SIZING_TABLE_CA if v >= vol_required))
        else:
            self._minimum_tm_ca_volume_gal = 480.0
        self._minimum_tm_capacity_kbtuh = self.tm_safety_factor * recirc_loss_btuhr / 1000.0

    def _calc_required_capacity(self, building: Building):
        design_inlet_temp_f = self._require_design_inlet_temp(building)
        gen_rate_gph = building.daily_dhw_use_supplyT_gal * self._eff_mix_fraction / self.max_daily_run_hr
        delta_t = self.storage_temp_f - design_inlet_temp_f
        return gen_rate_gph * _RHO_CP * delta_t / self.defrost_factor / 1000

    def _calc_running_volume_supplyT_gal(self, building: Building, capacity_kbtuh: float):
        daily_gal = building.daily_dhw_use_supplyT_gal
        load_shape = building.peak_load_shape
        inlet_t_f = self._require_design_inlet_temp(building)
        gen_norm = np.ones(24) / self.max_daily_run_hr
        hourly_diff = gen_norm - load_shape
        peak_indices = _get_peak_indices(hourly_diff)
        if not peak_indices:
            return 0.0
        n_real_peaks = len(peak_indices)
        extended = list(peak_indices)
        for idx in peak_indices:
            if idx + 1 < 24:
                extended.append(idx + 1)
        extended = sorted(set(extended))
        running_vol = 0.0
        eff_mix_fraction = 1.0
        for k, peak_idx in enumerate(extended):
            hw_out_hrly = np.tile(load_shape, 2)[peak_idx:peak_idx + 24]
            hw_out_min = _hr_to_min(hw_out_hrly) / 60.0 * daily_gal
            _, _, hw_from_swing = self._sim_just_swing(len(hw_out_min), hw_out_min, building, self.supply_temp_f + 0.1)
            temp_eff_mix = sum(hw_from_swing) / daily_gal
            gen_hrly = np.tile(gen_norm, 2)[peak_idx:peak_idx + 24]
            gen_min = _hr_to_min(gen_hrly) / 60.0 * daily_gal * temp_eff_mix
            diff_min = gen_min - np.array(hw_from_swing)
            cum_diff = np.cumsum(diff_min)
            neg_vals = cum_diff[cum_diff < 0]
            if k >= n_real_peaks and len(neg_vals) == 0:
                continue
            if len(neg_vals) == 0:
                continue
            new_vol = float(-np.min(neg_vals))
            if new_vol > running_vol:
                running_vol = new_vol
                eff_mix_fraction = temp_eff_mix
        self._eff_mix_fraction = eff_mix_fraction
        running_vol *= (self.storage_temp_f - inlet_t_f) / (self.supply_temp_f - inlet_t_f)
        return running_vol

    def _calc_prelim_vols_supplyT_gal(self, control_schedule: list[str], building: Building, fract_total_vol: float=1.0):
        daily_gal = building.daily_dhw_use_supplyT_gal
        load_shape = building.avg_load_shape
        load_shape_gph = load_shape * daily_gal
        first_shed_block, load_up_hours = self._get_first_shed_block_and_load_up_hours(control_schedule)
        vshift_raw = float(sum((load_shape_gph[h] for h in first_shed_block)))
        shed_hw_min = _hr_to_min(np.array([load_shape_gph[h] for h in first_shed_block])) / 60.0
        _, _, hw_swing_shed = self._sim_just_swing(len(shed_hw_min), shed_hw_min, building, self.supply_temp_f + 0.1)
        eff_shed = sum(hw_swing_shed) / vshift_raw if vshift_raw > 0 else 1.0
        vshift = vshift_raw * eff_shed * fract_total_vol
        lu_start = first_shed_block[0] - load_up_hours
        vconsumed_lu_raw = float(sum((load_shape_gph[h] for h in range(lu_start, first_shed_block[0]))))
        if load_up_hours > 0 and vconsumed_lu_raw > 0:
            lu_hw_min = _hr_to_min(np.array([load_shape_gph[h] for h in range(lu_start, first_shed_block[0])])) / 60.0
            _, _, hw_swing_lu = self._sim_just_swing(len(lu_hw_min), lu_hw_min, building, self.supply_temp_f + 0.1)
            eff_lu = sum(hw_swing_lu) / vconsumed_lu_raw
            vconsumed_lu = vconsumed_lu_raw * eff_lu
        else:
            vconsumed_lu = vconsumed_lu_raw
        return (vshift, vconsumed_lu)

    def _calc_gen_rate_ls_gph(self, control_schedule: list[str], control_map: dict[str, Controls], building: Building, strat_slope: float, fract_total_vol: float=1.0):
        daily_gal = building.daily_dhw_use_supplyT_gal
        normal_gen_rate_gph = daily_gal * self._eff_mix_fraction / self.max_daily_run_hr
        _, load_up_hours = self._get_first_shed_block_and_load_up_hours(control_schedule)
        if load_up_hours == 0:
            return normal_gen_rate_gph
        vshift, vconsumed_lu = self._calc_prelim_vols_supplyT_gal(control_schedule, building, fract_total_vol)
        normal_ctrl = control_map['normal']
        lu_ctrl = control_map.get('loadUp', normal_ctrl)
        shed_ctrl = control_map['shed']
        lu_strat = self._strat_pct_of_tank(lu_ctrl.on_sensor_fract, lu_ctrl.on_trigger_t_f, strat_slope)
        normal_strat = self._strat_pct_of_tank(normal_ctrl.on_sensor_fract, normal_ctrl.on_trigger_t_f, strat_slope)
        shed_strat = self._strat_pct_of_tank(shed_ctrl.on_sensor_fract, shed_ctrl.on_trigger_t_f, strat_slope)
        ls_band = lu_strat - shed_strat
        if ls_band <= 0:
            return normal_gen_rate_gph
        vload = vshift * (lu_strat - normal_strat) / ls_band
        lu_gen_rate_gph = (vload + vconsumed_lu) / load_up_hours
        return max(normal_gen_rate_gph, lu_gen_rate_gph)

    def _calc_required_capacity_ls_kbtuh(self, control_schedule: list[str], control_map: dict[str, Controls], building: Building, strat_slope: float, fract_total_vol: float=1.0):
        design_inlet_temp_f = self._require_design_inlet_temp(building)
        gen_rate_ls_gph = self._calc_gen_rate_ls_gph(control_schedule, control_map, building, strat_slope, fract_total_vol)
        delta_t = self.storage_temp_f - design_inlet_temp_f
        return gen_rate_ls_gph * _RHO_CP * delta_t / self.defrost_factor / 1000

    def _calc_running_volume_ls_supplyT_gal(self, control_schedule: list[str], building: 'Building', gen_rate_ls_gph: float, fract_total_vol: float=1.0):
        vol, _ = self._calc_running_volume_ls_swing(control_schedule, building, gen_rate_ls_gph, fract_total_vol)
        return vol

    def _calc_running_volume_ls_swing(self, control_schedule: list[str], building: Building, gen_rate_ls_gph: float, fract_total_vol: float=1.0):
        daily_gal = building.daily_dhw_use_supplyT_gal
        load_shape = building.avg_load_shape
        inlet_t_f = self._require_design_inlet_temp(building)
        first_shed_block, _ = self._get_first_shed_block_and_load_up_hours(control_schedule)
        vshift, _ = self._calc_prelim_vols_supplyT_gal(control_schedule, building, fract_total_vol)
        gen_profile_gph = np.array([0.0 if control_schedule[h] == 'shed' else gen_rate_ls_gph for h in range(24)])
        shed_end_idx = first_shed_block[-1] + 1
        hw_out_hourly = np.tile(load_shape * daily_gal, 2)[shed_end_idx:shed_end_idx + 24]
        hw_out_min = _hr_to_min(hw_out_hourly) / 60.0
        _, _, hw_from_swing = self._sim_just_swing(len(hw_out_min), hw_out_min, building, self.supply_temp_f + 0.1)
        eff_mix_fraction = sum(hw_from_swing) / daily_gal
        gen_hrly = np.tile(gen_profile_gph, 2)[shed_end_idx:shed_end_idx + 24]
        gen_min = _hr_to_min(gen_hrly) / 60.0
        diff_min = gen_min - np.array(hw_from_swing)
        cum_diff = np.cumsum(diff_min)
        neg_vals = cum_diff[cum_diff < 0]
        deficit = float(-np.min(neg_vals)) if len(neg_vals) > 0 else 0.0
        running_vol = deficit + vshift
        running_vol *= (self.storage_temp_f - inlet_t_f) / (self.supply_temp_f - inlet_t_f)
        return (running_vol, eff_mix_fraction)

    def _sim_just_swing(self, n_steps: int, hw_out: np.ndarray, building: Building, init_st: float | None=None):
        inlet_t_f = self._require_design_inlet_temp(building)
        swing_temps = [self.supply_temp_f] * n_steps
        tm_run = [0.0] * n_steps
        hw_from_primary = [0.0] * n_steps
        swing_temps[0] = init_st if init_st is not None else self.supply_temp_f
        hw_from_primary[0] = hw_out[0]
        swingheating = False
        for i in range(1, n_steps):
            t_prev = swing_temps[i - 1]
            if t_prev > inlet_t_f:
                hw_from_primary[i] = hw_out[i] * (self.supply_temp_f - inlet_t_f) / (t_prev - inlet_t_f)
            else:
                hw_from_primary[i] = hw_out[i]
            swingheating, swing_temps[i], tm_run[i] = self._run_one_swing_step(swingheating, t_prev, hw_from_primary[i], self.storage_temp_f)
        return (swing_temps, tm_run, hw_from_primary)

    def _run_one_swing_step(self, swingheating: bool, t_curr: float, hw_out: float, primary_storage_t_f: float):
        tm_vol = self._minimum_tm_volume_gal
        t_new = t_curr
        if hw_out > 0:
            vol_remaining = tm_vol - hw_out
            if vol_remaining <= 0:
                raise ValueError(f'Swing tank ({tm_vol:.0f} gal) is undersized: per-minute draw of {hw_out:.3f} gal exceeds tank volume.')
            t_new = (hw_out * primary_storage_t_f + t_curr * vol_remaining) / tm_vol
        recirc_btuhr = self.get_recirc_loss_kbtuh() * 1000.0
        t_new -= recirc_btuhr / 60.0 / (_RHO_CP * tm_vol)
        element_dT = self._minimum_tm_capacity_kbtuh * 1000.0 / 60.0 / (_RHO_CP * tm_vol)
        time_running = 0.0
        if swingheating:
            t_new += element_dT
            time_running = 1.0
            if t_new > self.supply_temp_f + _ELEMENT_DEADBAND_F:
                time_over = min((t_new - (self.supply_temp_f + _ELEMENT_DEADBAND_F)) / element_dT, 1.0)
                t_new -= element_dT * time_over
                time_running = 1.0 - time_over
                swingheating = False
        elif t_new <= self.supply_temp_f:
            time_missed = min((self.supply_temp_f - t_new) / element_dT, 1.0)
            t_new += element_dT * time_missed
            time_running = time_missed
            swingheating = True
        if t_new < self.supply_temp_f:
            raise ValueError('Swing tank dropped below supply temperature during sizing simulation. System is undersized — increase TM capacity or reduce recirc losses.')
        return (swingheating, t_new, time_running)

    @property
    def tm_off_temp_f(self):
        if self.tm_water_heater is not None:
            ctrl = self.tm_water_heater.get_controls_for_hour(0)
            if ctrl is not None:
                return ctrl.off_trigger_t_f
        return self.supply_temp_f + _ELEMENT_DEADBAND_F

    def get_minimum_tm_volume_gal(self):
        if self._minimum_tm_volume_gal is None:
            raise RuntimeError('size() must be called before get_minimum_tm_volume_gal().')
        return self._minimum_tm_volume_gal

    def get_minimum_tm_ca_volume_gal(self):
        if self._minimum_tm_ca_volume_gal is None:
            raise RuntimeError('size() must be called before get_minimum_tm_ca_volume_gal().')
        return self._minimum_tm_ca_volume_gal

    def get_minimum_tm_capacity_kbtuh(self):
        if self._minimum_tm_capacity_kbtuh is None:
            raise RuntimeError('size() must be called before get_minimum_tm_capacity_kbtuh().')
        return self._minimum_tm_capacity_kbtuh

    def simulate_step(self, building: Building, timestep_interval: int, interval_min: int=1, mode: str='normal'):
        use_avg = any((wh.is_load_shifting() for wh in self.water_heaters))
        demand_supplyT_gal = building.get_dhw_load_supplyT_gal(timestep_interval, interval_min, use_avg=use_avg)
        oat_f = building.get_oat_f(timestep_interval, interval_min)
        inlet_temp_f = building.get_inlet_water_temp_f(timestep_interval, interval_min)
        hour_of_day = timestep_interval * interval_min // 60 % 24
        outlet_temp_f = self._get_outlet_temp_f(hour_of_day)
        step_mode = self.water_heaters[0].control_schedule[hour_of_day] if self.water_heaters and self.water_heaters[0].control_schedule else 'normal'
        for wh in self.water_heaters:
            wh.update_state(self.storage_tank, hour_of_day)
        top_temp_f = self.storage_tank.get_temperature_at_fraction(1.0)
        primary_kbtuh = sum((wh.get_output_kbtuh(oat_f, wh.get_outlet_temp_f(hour_of_day), inlet_temp_f) for wh in self.water_heaters))
        primary_kw_list = [wh.get_power_in_kw(oat_f, wh.get_outlet_temp_f(hour_of_day), inlet_temp_f) for wh in self.water_heaters if wh.is_active()]
        primary_kw: float | None = sum((kw or 0.0 for kw in primary_kw_list)) if primary_kw_list else None
        self.storage_tank.heat(primary_kbtuh, interval_min, outlet_temp_f)
        swing_t = self.tm_storage_tank.get_temperature_at_fraction(0.5)
        if swing_t > self.supply_temp_f:
            hw_swing_gal = demand_supplyT_gal * (self.supply_temp_f - inlet_temp_f) / (swing_t - inlet_temp_f)
        else:
            hw_swing_gal = demand_supplyT_gal
        feed_temp_f = self.storage_tank.get_average_draw_temp_f(hw_swing_gal)
        self.tm_storage_tank.mix_primary_inflow(hw_swing_gal, feed_temp_f)
        self.tm_storage_tank.apply_fixed_heat_loss_kbtuh(self.get_recirc_loss_kbtuh(), interval_min)
        self.tm_water_heater.update_state(self.tm_storage_tank, hour_of_day)
        tm_top_t = self.tm_storage_tank.get_temperature_at_fraction(1.0)
        tm_kbtuh = self.tm_water_heater.get_output_kbtuh(oat_f, tm_top_t)
        tm_kw_val = self.tm_water_heater.get_power_in_kw(oat_f, tm_top_t) if self.tm_water_heater.is_active() else None
        tm_ctrl = self.tm_water_heater.get_controls_for_hour(hour_of_day)
        tm_outlet_f = tm_ctrl.outlet_temp_f if tm_ctrl is not None else self.tm_off_temp_f
        self.tm_storage_tank.heat(tm_kbtuh, interval_min, tm_outlet_f)
        self.storage_tank.draw_physical_gal(hw_swing_gal, inlet_temp_f, self.supply_temp_f)
        if swing_t < self.supply_temp_f:
            usable_vol_gal = 0.0
        else:
            usable_vol_gal = self.storage_tank.get_usable_volume_supplyT_gal(self.supply_temp_f)
        tank_temps_f = [self.storage_tank.get_temperature_at_fraction(f) for f in (0.0, 0.2, 0.4, 0.6, 0.8, 1.0)]
        if primary_kw is not None or tm_kw_val is not None:
            total_kw: float | None = primary_kw or 0.0
        else:
            total_kw = None
        swing_mid_temp_f = self.tm_storage_tank.get_temperature_at_fraction(0.5)
        return {'demand_supplyT_gal': demand_supplyT_gal, 'usable_volume_supplyT_gal': usable_vol_gal, 'heater_output_kbtuh': primary_kbtuh, 'heater_power_in_kw': total_kw, 'oat_f': oat_f, 'inlet_water_temp_f': inlet_temp_f, 'tank_temps_f': tank_temps_f, 'mode': step_mode, 'delivery_temp_f': swing_mid_temp_f, 'tm_tank_temp_f': swing_mid_temp_f, 'tm_heater_output_kbtuh': tm_kbtuh, 'tm_heater_input_kw': tm_kbtuh / _W_TO_KBTUH}


class SwingERTrdOffSystem:

    def __init__(self, water_heaters, storage_tank, supply_temp_f: float, storage_temp_f: float, return_temp_f: float, return_flow_gpm: float, tm_safety_factor: float=1.2, er_safety_factor: float=1.0, max_daily_run_hr: float=24.0, defrost_factor: float=1.0):
        super().__init__(water_heaters=water_heaters, storage_tank=storage_tank, supply_temp_f=supply_temp_f, storage_temp_f=storage_temp_f, return_temp_f=return_temp_f, return_flow_gpm=return_flow_gpm, tm_safety_factor=tm_safety_factor, max_daily_run_hr=max_daily_run_hr, defrost_factor=defrost_factor)
        self.er_safety_factor = er_safety_factor
        self._er_capacity_kbtuh: float | None = None

    @classmethod
    def from_components(cls, water_heaters: list[WaterHeater], storage_tank, tm_storage_tank: MixedStorageTank, initial_tm_capacity_kbtuh: float, building: Building, supply_temp_f: float, storage_temp_f: float, return_temp_f: float, return_flow_gpm: float, er_safety_factor: float=1.0, control_schedule: list[str] | None=None, control_map: dict[str, Controls] | None=None):
        system = cls(water_heaters=water_heaters, storage_tank=storage_tank, supply_temp_f=supply_temp_f, storage_temp_f=storage_temp_f, return_temp_f=return_temp_f, return_flow_gpm=return_flow_gpm, er_safety_factor=er_safety_factor)
        design_oat_f = building.get_design_oat_f()
        design_inlet_temp_f = system._require_design_inlet_temp(building)
        system._minimum_capacity_kbtuh = sum((wh.performance_map.get_capacity_kbtuh(design_oat_f, storage_temp_f, design_inlet_temp_f) for wh in water_heaters))
        system._minimum_storage_storageT_gal = storage_tank.total_volume_gal
        system._minimum_tm_volume_gal = tm_storage_tank.total_volume_gal
        system._minimum_tm_capacity_kbtuh = initial_tm_capacity_kbtuh
        system.tm_storage_tank = tm_storage_tank
        system._size_er_element(building)
        tm_controls = Controls(on_sensor_fract=0.5, on_trigger_t_f=supply_temp_f, off_sensor_fract=0.5, off_trigger_t_f=supply_temp_f + _ELEMENT_DEADBAND_F, outlet_temp_f=supply_temp_f + _ELEMENT_DEADBAND_F)
        system.tm_water_heater = WaterHeater.from_nominal_capacity(nominal_capacity_kbtuh=system._minimum_tm_capacity_kbtuh, control_schedule=['normal'] * 24, control_map={'normal': tm_controls})
        return system

    @classmethod
    def from_size(cls, building: Building, supply_temp_f: float, storage_temp_f: float, return_temp_f: float, return_flow_gpm: float, tm_safety_factor: float=1.2, er_safety_factor: float=1.0, max_daily_run_hr: float=24.0, defrost_factor: float=1.0, control_schedule: list[str] | None=None, control_map: dict[str, Controls] | None=None, strat_slope: float=2.8, load_shift_fract_total_vol: float=1.0):
        system = cls(water_heaters=[], storage_tank=None, supply_temp_f=supply_temp_f, storage_temp_f=storage_temp_f, return_temp_f=return_temp_f, return_flow_gpm=return_flow_gpm, tm_safety_factor=tm_safety_factor, er_safety_factor=er_safety_factor, max_daily_run_hr=max_daily_run_hr, defrost_factor=defrost_factor)
        system.size(building, control_schedule=control_schedule, control_map=control_map, strat_slope=strat_slope, load_shift_fract_total_vol=load_shift_fract_total_vol)
        system.storage_tank = StratifiedTank(total_volume_gal=system._minimum_storage_storageT_gal, strat_slope=strat_slope)
        system.water_heaters = [WaterHeater.from_nominal_capacity(nominal_capacity_kbtuh=system._minimum_capacity_kbtuh, control_schedule=control_schedule, control_map=control_map)]
        system.tm_storage_tank = MixedStorageTank(total_volume_gal=system._minimum_tm_volume_gal)
        tm_controls = Controls(on_sensor_fract=0.5, on_trigger_t_f=supply_temp_f, off_sensor_fract=0.5, off_trigger_t_f=supply_temp_f + _ELEMENT_DEADBAND_F, outlet_temp_f=supply_temp_f + _ELEMENT_DEADBAND_F)
        system.tm_water_heater = WaterHeater.from_nominal_capacity(nominal_capacity_kbtuh=system._minimum_tm_capacity_kbtuh, control_schedule=['normal'] * 24, control_map={'normal': tm_controls})
        return system

    def size(self, building: Building, control_schedule: list[str] | None=None, control_map: dict[str, Controls] | None=None, strat_slope: float=2.8, load_shift_fract_total_vol: float=1.0):
        super().size(building, control_schedule=control_schedule, control_map=control_map, strat_slope=strat_slope, load_shift_fract_total_vol=load_shift_fract_total_vol)
        self._size_er_element(building)

    def _size_er_element(self, building: Building):
        inlet_t_f = self._require_design_inlet_temp(building)
        hpwh_design_kbtuh = self._minimum_capacity_kbtuh
        gen_gpm = hpwh_design_kbtuh * 1000.0 / (_RHO_CP * (self.storage_temp_f - inlet_t_f)) / 60.0
        daily_gal = building.daily_dhw_use_supplyT_gal
        was_annual = building.is_annual_load_shape()
        if was_annual:
            building.set_to_daily_load_shape()
        load_shape = building.peak_load_shape
        if was_annual:
            building.set_to_annual_load_shape()
        hourly_diff = np.ones(24) / self.max_daily_run_hr - load_shape
        peak_indices = _get_peak_indices(hourly_diff)
        peak_idx = peak_indices[0] if peak_indices else 0
        hw_out_hourly = np.tile(load_shape * daily_gal, 3)[peak_idx:peak_idx + 48]
        hw_out_min = _hr_to_min(hw_out_hourly) / 60.0
        n_steps = len(hw_out_min)
        base_tm_kbtuh = self._minimum_tm_capacity_kbtuh
        max_deficit = 0.0
        for primary_init_gal in (0.0, self._minimum_storage_storageT_gal):
            swing_t = self.supply_temp_f
            swingheating = False
            primary_level = primary_init_gal
            for i in range(n_steps):
                if swing_t > inlet_t_f:
                    hw_from_primary = hw_out_min[i] * (self.supply_temp_f - inlet_t_f) / (swing_t - inlet_t_f)
                else:
                    hw_from_primary = hw_out_min[i]
                hot_available = primary_level + gen_gpm
                if hw_from_primary <= 0.0 or hot_available <= 0.0:
                    feed_temp = inlet_t_f
                elif hw_from_primary <= hot_available:
                    feed_temp = self.storage_temp_f
                else:
                    feed_temp = (hot_available * self.storage_temp_f + (hw_from_primary - hot_available) * inlet_t_f) / hw_from_primary
                primary_level = min(max(primary_level + gen_gpm - hw_from_primary, 0.0), self._minimum_storage_storageT_gal)
                swingheating, swing_t, deficit = self._run_one_swing_step_er(swingheating, swing_t, hw_from_primary, feed_temp, base_tm_kbtuh)
                if deficit > max_deficit:
                    max_deficit = deficit
        er_cap = self._minimum_tm_volume_gal * _RHO_CP * 60.0 * max_deficit / 1000.0 * self.er_safety_factor
        self._er_capacity_kbtuh = er_cap
        self._minimum_tm_capacity_kbtuh += er_cap

    def _run_one_swing_step_er(self, swingheating: bool, t_curr: float, hw_out: float, primary_storage_t_f: float, tm_capacity_kbtuh: float):
        tm_vol = self._minimum_tm_volume_gal
        t_new = t_curr
        if hw_out > 0:
            vol_remaining = tm_vol - hw_out
            if vol_remaining <= 0:
                raise ValueError(f'Swing tank ({tm_vol:.0f} gal) is undersized: per-minute draw of {hw_out:.3f} gal exceeds tank volume.')
            t_new = (hw_out * primary_storage_t_f + t_curr * vol_remaining) / tm_vol
        recirc_btuhr = self.get_recirc_loss_kbtuh() * 1000.0
        t_new -= recirc_btuhr / 60.0 / (_RHO_CP * tm_vol)
        element_dT = tm_capacity_kbtuh * 1000.0 / 60.0 / (_RHO_CP * tm_vol)
        if swingheating:
            t_new += element_dT
            if t_new > self.supply_temp_f + _ELEMENT_DEADBAND_F:
                time_over = min((t_new - (self.supply_temp_f + _ELEMENT_DEADBAND_F)) / element_dT, 1.0)
                t_new -= element_dT * time_over
                swingheating = False
        elif t_new <= self.supply_temp_f:
            time_missed = min((self.supply_temp_f - t_new) / element_dT, 1.0)
            t_new += element_dT * time_missed
            swingheating = True
        deficit = 0.0
        if t_new < self.supply_temp_f:
            deficit = self.supply_temp_f - t_new
            t_new = self.supply_temp_f
        return (swingheating, t_new, deficit)

    def get_er_capacity_kbtuh(self):
        if self._er_capacity_kbtuh is None:
            raise RuntimeError('size() must be called before get_er_capacity_kbtuh().')
        return self._er_capacity_kbtuh

    def get_er_capacity_kw(self):
        return self.get_er_capacity_kbtuh() / _W_TO_KBTUH

    def get_er_sized_points(self, building: Building, additional_er_safety: float=1.0):
        if self._er_capacity_kbtuh is None or self._er_capacity_kbtuh <= 0:
            raise RuntimeError('get_er_sized_points() requires a system where ER sizing was needed.  No ER addition was found — check that size() has been called and that peak demand exceeds primary HPWH capacity.')
        original_daily_gal = building.daily_dhw_use_supplyT_gal
        base_tm_kbtuh = self._minimum_tm_capacity_kbtuh - self._er_capacity_kbtuh
        original_total_tm = self._minimum_tm_capacity_kbtuh
        original_er_kbtuh = self._er_capacity_kbtuh
        original_er_safety = self.er_safety_factor
        er_cap_kw: list[float] = []
        fract_covered: list[float] = []
        startind = 0
        i = 120.0
        try:
            while i > 0:
                if i == 100.0:
                    startind = len(fract_covered)
                    total_tm_i = original_total_tm
                    er_needed = True
                else:
                    building.daily_dhw_use_supplyT_gal = original_daily_gal * (i / 100.0)
                    self._minimum_tm_capacity_kbtuh = base_tm_kbtuh
                    self._er_capacity_kbtuh = None
                    self.er_safety_factor = additional_er_safety
                    self._size_er_element(building)
                    self.er_safety_factor = original_er_safety
                    total_tm_i = self._minimum_tm_capacity_kbtuh
                    er_needed = bool(self._er_capacity_kbtuh and self._er_capacity_kbtuh > 0)
                er_cap_kw.append(round(total_tm_i / _W_TO_KBTUH, 0))
                fract_covered.append(i)
                i -= 10.0
                if not er_needed:
                    break
        finally:
            building.daily_dhw_use_supplyT_gal = original_daily_gal
            self._minimum_tm_capacity_kbtuh = original_total_tm
            self._er_capacity_kbtuh = original_er_kbtuh
            self.er_safety_factor = original_er_safety
        fract_covered.reverse()
        er_cap_kw.reverse()
        startind = len(fract_covered) - 1 - startind
        return (er_cap_kw, fract_covered, startind)

    def get_er_sizing_curve(self, building: Building, additional_er_safety: float=1.0):
        er_cap_kw, fract_covered, startind = self.get_er_sized_points(building, additional_er_safety)
        fig = go.Figure()
        fig.add_trace(go.Scatter(x=fract_covered, y=er_cap_kw, visible=True, line=dict(color='#28a745', width=4), hovertemplate='Percent Coverage: %{x:.1f}%<br>ER Heating Capacity: %{y:.1f} kW', opacity=0.8))
        for ii in range(len(fract_covered)):
            fig.add_trace(go.Scatter(x=[fract_covered[ii]], y=[er_cap_kw[ii]], visible=False, mode='markers', marker_symbol='diamond', opacity=1, marker_color='#2EA3F2', marker_size=10, name='System Size', hoverlabel=dict(font=dict(color='white'), bordercolor='white')))
        fig.data[startind + 1].visible = True
        fig.update_layout(title='Electric Resistance Sizing Curve', xaxis_title='Percent Coverage (%)', yaxis_title='Electric Resistance Heating Capacity (kW)', showlegend=False)
        steps = []
        for ii in range(1, len(fig.data)):
            label = f'Percent Coverage: <b>{fract_covered[ii - 1]:.0f}</b> %, Electric Resistance Heating Capacity: <b>{er_cap_kw[ii - 1]:.1f}</b> kW'
            step = dict(label=label, method='update', args=[{'visible': [False] * len(fig.data)}])
            step['args'][0]['visible'][0] = True
            step['args'][0]['visible'][ii] = True
            steps.append(step)
        fig.update_layout(sliders=[dict(steps=steps, active=startind, currentvalue=dict(font={'size': 16}, prefix='<b>Electric Resistance Size</b> ', visible=True, xanchor='left'), pad={'t': 50}, minorticklen=0, ticklen=0, bgcolor='#CCD9DB', borderwidth=0)])
        return fig
