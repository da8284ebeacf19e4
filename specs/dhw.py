from statistics import NormalDist
import numpy as np
import warnings

_LS_NORM_MEAN: float = 0.7052988591269841
_LS_NORM_STD: float = 0.08236427664525116
_LS_NORM_DIST: NormalDist = NormalDist(mu=_LS_NORM_MEAN, sigma=_LS_NORM_STD)

def _load_shift_fract_total_vol(load_shift_percent: float):
    if load_shift_percent >= 1.0:
        return 1.0
    fract = _LS_NORM_DIST.inv_cdf(load_shift_percent)
    return min(fract, 1.0)

def _get_peak_indices(hourly_diff: np.ndarray):
    n = len(hourly_diff)
    return [i for i in range(n) if hourly_diff[i - 1] >= 0 and hourly_diff[i] < 0]

class DHWSystem:

    def __init__(self, water_heaters: list[WaterHeater], storage_tank: StorageTank | None, supply_temp_f: float, storage_temp_f: float, max_daily_run_hr: float=16.0, defrost_factor: float=1.0):
        self.water_heaters = water_heaters
        self.storage_tank = storage_tank
        self.supply_temp_f = supply_temp_f
        self.storage_temp_f = storage_temp_f
        self.max_daily_run_hr = max_daily_run_hr
        self.defrost_factor = defrost_factor
        self._minimum_capacity_kbtuh: float | None = None
        self._minimum_storage_storageT_gal: float | None = None

    @classmethod
    def from_size(cls, building: Building, supply_temp_f: float, storage_temp_f: float, max_daily_run_hr: float=24.0, defrost_factor: float=1.0, control_schedule: list[str] | None=None, control_map: dict[str, Controls] | None=None, strat_slope: float=2.8, load_shift_fract_total_vol: float=1.0):
        system = cls(water_heaters=[], storage_tank=None, supply_temp_f=supply_temp_f, storage_temp_f=storage_temp_f, max_daily_run_hr=max_daily_run_hr, defrost_factor=defrost_factor)
        system.size(building, control_schedule=control_schedule, control_map=control_map, strat_slope=strat_slope, load_shift_fract_total_vol=load_shift_fract_total_vol)
        system.storage_tank = StratifiedTank(total_volume_gal=system._minimum_storage_storageT_gal, strat_slope=strat_slope)
        system.water_heaters = [WaterHeater.from_nominal_capacity(nominal_capacity_kbtuh=system._minimum_capacity_kbtuh, control_schedule=control_schedule, control_map=control_map)]
        return system

    @classmethod
    def from_components(cls, storage_volume_storageT_gal: float, water_heaters: list[WaterHeater], supply_temp_f: float, storage_temp_f: float, max_daily_run_hr: float=24.0, defrost_factor: float=1.0, strat_slope: float=2.8):
        return cls(water_heaters=water_heaters, storage_tank=StratifiedTank(total_volume_gal=storage_volume_storageT_gal, strat_slope=strat_slope), supply_temp_f=supply_temp_f, storage_temp_f=storage_temp_f, max_daily_run_hr=max_daily_run_hr, defrost_factor=defrost_factor)

    def size(self, building: Building, control_schedule: list[str] | None=None, control_map: dict[str, Controls] | None=None, strat_slope: float=2.8, load_shift_fract_total_vol: float=1.0):
        was_annual = building.is_annual_load_shape()
        if was_annual:
            building.set_to_daily_load_shape()
        original_max_run_hr = self.max_daily_run_hr
        if control_schedule and self._is_load_shifting(control_map):
            non_shed_hours_hr = float(sum((1 for h in control_schedule if h != 'shed')))
            self.max_daily_run_hr = min(self.max_daily_run_hr, non_shed_hours_hr)
        try:
            design_inlet_temp_f = self._require_design_inlet_temp(building)
            capacity_kbtuh = self._calc_required_capacity(building)
            running_vol_supplyT_gal = self._calc_running_volume_supplyT_gal(building, capacity_kbtuh)
            strat_factor = self._calc_stratification_factor(control_map, strat_slope, design_inlet_temp_f)
            storage_vol_storageT_gal = self._calc_storage_volume_storageT_gal(running_vol_supplyT_gal, strat_factor)
            if control_schedule and self._is_load_shifting(control_map):
                ls_capacity_kbtuh = self._calc_required_capacity_ls_kbtuh(control_schedule, control_map, building, strat_slope, fract_total_vol=load_shift_fract_total_vol)
                gen_rate_ls_gph = self._calc_gen_rate_ls_gph(control_schedule, control_map, building, strat_slope, fract_total_vol=load_shift_fract_total_vol)
                ls_running_vol_supplyT_gal = self._calc_running_volume_ls_supplyT_gal(control_schedule, building, gen_rate_ls_gph, fract_total_vol=load_shift_fract_total_vol)
                ls_storage_vol_storageT_gal = self._calc_storage_volume_ls_storageT_gal(ls_running_vol_supplyT_gal, control_map, strat_slope, design_inlet_temp_f)
                capacity_kbtuh = max(capacity_kbtuh, ls_capacity_kbtuh)
                storage_vol_storageT_gal = max(storage_vol_storageT_gal, ls_storage_vol_storageT_gal)
            self._minimum_capacity_kbtuh = capacity_kbtuh
            self._minimum_storage_storageT_gal = storage_vol_storageT_gal
            self._sizing_strat_slope = strat_slope
            if control_map:
                self._warn_if_short_cycling(control_map, capacity_kbtuh, storage_vol_storageT_gal)
        finally:
            self.max_daily_run_hr = original_max_run_hr
            if was_annual:
                building.set_to_annual_load_shape()

    def get_minimum_capacity_kbtuh(self):
        if self._minimum_capacity_kbtuh is None:
            raise RuntimeError('size() must be called before get_minimum_capacity_kbtuh().')
        return self._minimum_capacity_kbtuh

    def get_minimum_storage_storageT_gal(self):
        if self._minimum_storage_storageT_gal is None:
            raise RuntimeError('size() must be called before get_minimum_storage_storageT_gal().')
        return self._minimum_storage_storageT_gal

    def get_sizing_curve(self, building: Building, strat_slope: float=2.8, step: float=0.25):
        was_annual = building.is_annual_load_shape()
        if was_annual:
            building.set_to_daily_load_shape()
        _strat_slope = getattr(self, '_sizing_strat_slope', strat_slope)
        try:
            design_inlet = self._require_design_inlet_temp(building)
            _cmap = self.water_heaters[0].control_map if self.water_heaters else None
            strat_factor = self._calc_stratification_factor(_cmap, _strat_slope, design_inlet)
            min_run_hr = 1.0 / float(np.max(building.peak_load_shape)) * 1.001
            arr1 = np.arange(24.0, self.max_daily_run_hr, -step)
            arr2 = np.arange(self.max_daily_run_hr, min_run_hr, -step)
            heat_hours = np.concatenate([arr1, arr2])
            rec_index = len(arr1)
            heat_hours_out: list[float] = []
            capacity_out: list[float] = []
            storage_out: list[float] = []
            original_run_hr = self.max_daily_run_hr
            try:
                for h in heat_hours:
                    self.max_daily_run_hr = float(h)
                    try:
                        cap = self._calc_required_capacity(building)
                        running_vol = self._calc_running_volume_supplyT_gal(building, cap)
                        if running_vol == 0.0:
                            break
                        storage_vol = self._calc_storage_volume_storageT_gal(running_vol, strat_factor)
                    except (ValueError, RuntimeError):
                        break
                    heat_hours_out.append(float(h))
                    capacity_out.append(cap)
                    storage_out.append(storage_vol)
            finally:
                self.max_daily_run_hr = original_run_hr
            rec_index = min(rec_index, max(0, len(heat_hours_out) - 1))
            return {'heat_hours': heat_hours_out, 'capacity_kbtuh': capacity_out, 'storage_storageT_gal': storage_out, 'recommended_index': rec_index}
        finally:
            if was_annual:
                building.set_to_annual_load_shape()

    def get_ls_sizing_curve(self, building: Building, control_schedule: list[str], control_map: dict[str, Controls], strat_slope: float=2.8, load_shift_percent: float=1.0):
        if not self._is_load_shifting(control_map):
            raise ValueError("get_ls_sizing_curve() requires a control_map with a 'shed' key. Use get_sizing_curve() for systems without load shifting.")
        was_annual = building.is_annual_load_shape()
        if was_annual:
            building.set_to_daily_load_shape()
        _strat_slope = getattr(self, '_sizing_strat_slope', strat_slope)
        original_max_run_hr = self.max_daily_run_hr
        non_shed_hours_hr = float(sum((1 for h in control_schedule if h != 'shed')))
        self.max_daily_run_hr = min(self.max_daily_run_hr, non_shed_hours_hr)
        try:
            design_inlet = self._require_design_inlet_temp(building)
            cap_normal = self._calc_required_capacity(building)
            run_vol_normal = self._calc_running_volume_supplyT_gal(building, cap_normal)
            strat_normal = self._calc_stratification_factor(control_map, _strat_slope, design_inlet)
            stor_normal = self._calc_storage_volume_storageT_gal(run_vol_normal, strat_normal)
            ls_percents: list[float] = [i / 100.0 for i in range(25, 101)]
            capacity_out: list[float] = []
            storage_out: list[float] = []
            for ls_pct in ls_percents:
                fract = _load_shift_fract_total_vol(ls_pct)
                cap_ls = self._calc_required_capacity_ls_kbtuh(control_schedule, control_map, building, _strat_slope, fract)
                gen_rate = self._calc_gen_rate_ls_gph(control_schedule, control_map, building, _strat_slope, fract)
                run_vol_ls = self._calc_running_volume_ls_supplyT_gal(control_schedule, building, gen_rate, fract)
                stor_ls = self._calc_storage_volume_ls_storageT_gal(run_vol_ls, control_map, _strat_slope, design_inlet)
                capacity_out.append(max(cap_normal, cap_ls))
                storage_out.append(max(stor_normal, stor_ls))
            ls_pct_clamped = max(0.25, min(1.0, load_shift_percent))
            rec_index = round((ls_pct_clamped - 0.25) * 100)
            rec_index = max(0, min(rec_index, len(ls_percents) - 1))
            return {'load_shift_percent': ls_percents, 'capacity_kbtuh': capacity_out, 'storage_storageT_gal': storage_out, 'recommended_index': rec_index}
        finally:
            self.max_daily_run_hr = original_max_run_hr
            if was_annual:
                building.set_to_annual_load_shape()

    def plot_sizing_curve(self, building: Building, control_schedule: list[str] | None=None, control_map: dict[str, Controls] | None=None, load_shift_percent: float=1.0, strat_slope: float=2.8, title: str='Primary Sizing Curve', filepath: str | None=None):
        try:
            import plotly.graph_objects as go
        except ImportError:
            raise ImportError('plotly is required for plot_sizing_curve(). Install it with: pip install plotly')
        is_ls = self._is_load_shifting(control_map)
        if is_ls:
            curve = self.get_ls_sizing_curve(building, control_schedule=control_schedule, control_map=control_map, strat_slope=strat_slope, load_shift_percent=load_shift_percent)
            x_vals = [p * 100.0 for p in curve['load_shift_percent']]
            y_vals = curve['storage_storageT_gal']
            x_label = 'Load-Shift Days Covered (%)'
            y_label = 'Primary Tank Volume (gal at Storage Temperature)'
            hover = 'Load-shift coverage: <b>%{x:.0f}%</b><br>Storage: <b>%{y:.1f} gal</b><extra></extra>'

            def _slider_label(i: int):
                return f'Coverage: <b>{x_vals[i]:.0f}%</b>, Storage: <b>{y_vals[i]:.1f} gal</b>'
        else:
            curve = self.get_sizing_curve(building, strat_slope=strat_slope)
            x_vals = curve['storage_storageT_gal']
            y_vals = curve['capacity_kbtuh']
            heat_hours = curve['heat_hours']
            x_label = 'Primary Tank Volume (gal at Storage Temperature)'
            y_label = 'Heating Capacity (kBTU/hr)'
            hover = 'Storage: <b>%{x:.1f} gal</b><br>Capacity: <b>%{y:.1f} kBTU/hr</b><extra></extra>'
            _rec_raw = curve['recommended_index']
            x_vals = x_vals[::-1]
            y_vals = y_vals[::-1]
            heat_hours = heat_hours[::-1]
            rec = len(x_vals) - 1 - _rec_raw

            def _slider_label(i: int):
                return f'Storage: <b>{x_vals[i]:.1f} gal</b>, Capacity: <b>{y_vals[i]:.1f} kBTU/hr</b>, Run hours: <b>{heat_hours[i]:.2f} hr/day</b>'
        if is_ls:
            rec = curve['recommended_index']
        fig = go.Figure()
        fig.add_trace(go.Scatter(x=x_vals, y=y_vals, mode='lines', line=dict(color='#28a745', width=3), hovertemplate=hover, showlegend=False))
        for i in range(len(x_vals)):
            fig.add_trace(go.Scatter(x=[x_vals[i]], y=[y_vals[i]], mode='markers', marker=dict(symbol='diamond', color='#2EA3F2', size=12), hovertemplate=hover, showlegend=False, visible=i == rec))
        steps = []
        for i in range(len(x_vals)):
            visibility = [True] + [j == i for j in range(len(x_vals))]
            steps.append(dict(label=_slider_label(i), method='update', args=[{'visible': visibility}]))
        fig.update_layout(title=title, xaxis_title=x_label, yaxis_title=y_label, showlegend=False, sliders=[dict(steps=steps, active=rec, currentvalue=dict(prefix='<b>Selected size</b>: ', visible=True, font=dict(size=14), xanchor='left'), pad={'t': 60}, ticklen=0, minorticklen=0, bgcolor='#CCD9DB', borderwidth=0)])
        if filepath is not None:
            fig.write_html(filepath)
        return fig

    def _calc_required_capacity(self, building: Building):
        design_inlet_temp_f = self._require_design_inlet_temp(building)
        gen_rate_gph = building.daily_dhw_use_supplyT_gal / self.max_daily_run_hr
        delta_t = self.supply_temp_f - design_inlet_temp_f
        return gen_rate_gph * _RHO_CP * delta_t / self.defrost_factor / 1000

    def _calc_running_volume_supplyT_gal(self, building: Building, capacity_kbtuh: float):
        daily_gal = building.daily_dhw_use_supplyT_gal
        load_shape = building.peak_load_shape
        gen_rate_gph = daily_gal / self.max_daily_run_hr
        hourly_demand_gph = daily_gal * load_shape
        hourly_diff_gph = gen_rate_gph - hourly_demand_gph
        tiled_diff = np.tile(hourly_diff_gph, 2)
        peak_indices = _get_peak_indices(hourly_diff_gph)
        if not peak_indices:
            return 0.0
        running_vol = 0.0
        for idx in peak_indices:
            cum_diff = np.cumsum(tiled_diff[idx:])
            neg_values = cum_diff[cum_diff < 0]
            if len(neg_values) > 0:
                running_vol = max(running_vol, float(-np.min(neg_values)))
        return running_vol

    def _calc_storage_volume_storageT_gal(self, running_volume_supplyT_gal: float, stratification_factor: float):
        return running_volume_supplyT_gal / stratification_factor

    def _calc_stratification_factor(self, control_map: dict[str, Controls] | None, strat_slope: float, inlet_temp_f: float):
        if not control_map:
            return self._calc_supply_temp_gal_from_100gal_tank(0.0, self.supply_temp_f, strat_slope, inlet_temp_f) / 100.0
        if 'normal' in control_map:
            ctrl = control_map['normal']
            return self._calc_supply_temp_gal_from_100gal_tank(ctrl.on_sensor_fract, ctrl.on_trigger_t_f, strat_slope, inlet_temp_f) / 100.0
        return min((self._calc_supply_temp_gal_from_100gal_tank(ctrl.on_sensor_fract, ctrl.on_trigger_t_f, strat_slope, inlet_temp_f) / 100.0 for ctrl in control_map.values()))

    def _calc_supply_temp_gal_from_100gal_tank(self, on_fract: float, on_temp_f: float, strat_slope: float, inlet_temp_f: float):
        on_pct = on_fract * 100.0
        supply_delta = self.supply_temp_f - inlet_temp_f
        supply_height_pct = on_pct + (self.supply_temp_f - on_temp_f) / strat_slope
        storage_height_pct = min(on_pct + (self.storage_temp_f - on_temp_f) / strat_slope, 100.0)
        supply_height_pct = max(supply_height_pct, on_pct)
        if supply_height_pct >= 100.0:
            return 0.0
        s1 = supply_height_pct - on_pct
        s2 = storage_height_pct - on_pct
        a = on_temp_f - inlet_temp_f
        transition_supply_gal = (a * (s2 - s1) + strat_slope * (s2 ** 2 - s1 ** 2) / 2.0) / supply_delta
        fully_hot_phys_gal = max(0.0, 100.0 - storage_height_pct)
        fully_hot_supply_gal = fully_hot_phys_gal * (self.storage_temp_f - inlet_temp_f) / supply_delta
        return transition_supply_gal + fully_hot_supply_gal

    def _calc_avg_hot_temp_at_on_trigger(self, on_fract: float, on_temp_f: float, strat_slope: float):
        on_pct = on_fract * 100.0
        supply_height_pct = on_pct + (self.supply_temp_f - on_temp_f) / strat_slope
        storage_height_pct = on_pct + (self.storage_temp_f - on_temp_f) / strat_slope
        top_of_transition_temp_f = self.storage_temp_f
        if storage_height_pct > 100.0:
            top_of_transition_temp_f = on_temp_f + (100.0 - on_pct) * strat_slope
        if supply_height_pct >= 100.0:
            return self.supply_temp_f
        bottom_of_transition_temp_f = self.supply_temp_f
        if supply_height_pct < 0:
            bottom_of_transition_temp_f = on_temp_f - on_pct * strat_slope
        transition_avg_temp_f = (top_of_transition_temp_f + bottom_of_transition_temp_f) / 2
        transition_phys_gal = min(100.0, storage_height_pct) - max(0.0, supply_height_pct)
        transition_temp_sum = transition_phys_gal * transition_avg_temp_f
        fully_hot_phys_gal = max(0.0, 100.0 - storage_height_pct)
        fully_hot_temp_sum = self.storage_temp_f * fully_hot_phys_gal
        total_phys_gal = transition_phys_gal + fully_hot_phys_gal
        if total_phys_gal <= 0.0:
            return self.supply_temp_f
        return (transition_temp_sum + fully_hot_temp_sum) / total_phys_gal

    def _strat_factor_for_on_params(self, on_fract: float, on_temp_f: float, strat_slope: float):
        on_pct = on_fract * 100
        delta_t = self.storage_temp_f - self.supply_temp_f
        supply_height_pct = on_pct + (self.supply_temp_f - on_temp_f) / strat_slope
        storage_height_pct = on_pct + (self.storage_temp_f - on_temp_f) / strat_slope
        storage_height_pct = min(storage_height_pct, 100.0)
        supply_height_pct = max(supply_height_pct, on_pct)
        vol_fully_hot = (100 - storage_height_pct) * delta_t
        vol_transition = (storage_height_pct - supply_height_pct) * delta_t / 2
        vol_above_supply = vol_fully_hot + vol_transition
        ideal_vol = (100 - on_pct) * delta_t
        return vol_above_supply / ideal_vol

    def _strat_pct_of_tank(self, on_fract: float, on_temp_f: float, strat_slope: float):
        return self._strat_factor_for_on_params(on_fract, on_temp_f, strat_slope) * (1.0 - on_fract)

    @staticmethod
    def _is_load_shifting(control_map: dict[str, Controls] | None):
        return bool(control_map) and 'shed' in control_map

    @staticmethod
    def _get_first_shed_block_and_load_up_hours(control_schedule: list[str]):
        shed_indices = [h for h in range(24) if control_schedule[h] == 'shed']
        if not shed_indices:
            return ([], 0)
        first_shed_block = [shed_indices[0]]
        for h in shed_indices[1:]:
            if h == first_shed_block[-1] + 1:
                first_shed_block.append(h)
            else:
                break
        load_up_hours = 0
        h = first_shed_block[0] - 1
        while h >= 0 and control_schedule[h] == 'loadUp':
            load_up_hours += 1
            h -= 1
        return (first_shed_block, load_up_hours)

    def _calc_prelim_vols_supplyT_gal(self, control_schedule: list[str], building: Building, fract_total_vol: float=1.0):
        first_shed_block, load_up_hours = self._get_first_shed_block_and_load_up_hours(control_schedule)
        load_shape_gph = building.avg_load_shape * building.daily_dhw_use_supplyT_gal
        vshift_supplyT_gal = float(sum((load_shape_gph[h] for h in first_shed_block))) * fract_total_vol
        lu_start = first_shed_block[0] - load_up_hours
        vconsumed_lu_supplyT_gal = float(sum((load_shape_gph[h] for h in range(lu_start, first_shed_block[0]))))
        return (vshift_supplyT_gal, vconsumed_lu_supplyT_gal)

    def _calc_gen_rate_ls_gph(self, control_schedule: list[str], control_map: dict[str, Controls], building: Building, strat_slope: float, fract_total_vol: float=1.0):
        daily_gal = building.daily_dhw_use_supplyT_gal
        normal_gen_rate_gph = daily_gal / self.max_daily_run_hr
        _, load_up_hours = self._get_first_shed_block_and_load_up_hours(control_schedule)
        if load_up_hours == 0:
            return normal_gen_rate_gph
        vshift_supplyT_gal, vconsumed_lu_supplyT_gal = self._calc_prelim_vols_supplyT_gal(control_schedule, building, fract_total_vol)
        normal_ctrl = control_map['normal']
        lu_ctrl = control_map.get('loadUp', normal_ctrl)
        shed_ctrl = control_map['shed']
        normal_strat_pct = self._strat_pct_of_tank(normal_ctrl.on_sensor_fract, normal_ctrl.on_trigger_t_f, strat_slope)
        lu_strat_pct = self._strat_pct_of_tank(lu_ctrl.on_sensor_fract, lu_ctrl.on_trigger_t_f, strat_slope)
        shed_strat_pct = self._strat_pct_of_tank(shed_ctrl.on_sensor_fract, shed_ctrl.on_trigger_t_f, strat_slope)
        ls_band = lu_strat_pct - shed_strat_pct
        if ls_band <= 0:
            return normal_gen_rate_gph
        vload_supplyT_gal = vshift_supplyT_gal * (lu_strat_pct - normal_strat_pct) / ls_band
        lu_gen_rate_gph = (vload_supplyT_gal + vconsumed_lu_supplyT_gal) / load_up_hours
        return max(normal_gen_rate_gph, lu_gen_rate_gph)

    def _calc_required_capacity_ls_kbtuh(self, control_schedule: list[str], control_map: dict[str, Controls], building: Building, strat_slope: float, fract_total_vol: float=1.0):
        design_inlet_temp_f = self._require_design_inlet_temp(building)
        gen_rate_ls_gph = self._calc_gen_rate_ls_gph(control_schedule, control_map, building, strat_slope, fract_total_vol)
        delta_t = self.supply_temp_f - design_inlet_temp_f
        return gen_rate_ls_gph * _RHO_CP * delta_t / self.defrost_factor / 1000

    def _calc_running_volume_ls_supplyT_gal(self, control_schedule: list[str], building: Building, gen_rate_ls_gph: float, fract_total_vol: float=1.0):
        first_shed_block, _ = self._get_first_shed_block_and_load_up_hours(control_schedule)
        vshift_supplyT_gal, _ = self._calc_prelim_vols_supplyT_gal(control_schedule, building, fract_total_vol)
        load_shape = building.avg_load_shape
        daily_gal = building.daily_dhw_use_supplyT_gal
        gen_profile_gph = np.array([0.0 if control_schedule[h] == 'shed' else gen_rate_ls_gph for h in range(24)])
        demand_profile_gph = daily_gal * load_shape
        diff_gph = gen_profile_gph - demand_profile_gph
        shed_end_idx = first_shed_block[-1] + 1
        tiled_diff = np.tile(diff_gph, 2)
        cum_diff = np.cumsum(tiled_diff[shed_end_idx:])
        neg_values = cum_diff[cum_diff < 0]
        ls_deficit_supplyT_gal = float(-np.min(neg_values)) if len(neg_values) > 0 else 0.0
        ls_deficit_supplyT_gal *= fract_total_vol
        return ls_deficit_supplyT_gal + vshift_supplyT_gal

    def _calc_storage_volume_ls_storageT_gal(self, ls_running_vol_supplyT_gal: float, control_map: dict[str, Controls], strat_slope: float, inlet_temp_f: float):
        normal_ctrl = control_map['normal']
        lu_ctrl = control_map.get('loadUp', normal_ctrl)
        shed_ctrl = control_map['shed']
        lu_x = self._calc_supply_temp_gal_from_100gal_tank(lu_ctrl.off_sensor_fract, lu_ctrl.off_trigger_t_f, strat_slope, inlet_temp_f)
        shed_x = self._calc_supply_temp_gal_from_100gal_tank(shed_ctrl.on_sensor_fract, shed_ctrl.on_trigger_t_f, strat_slope, inlet_temp_f)
        ls_band = (lu_x - shed_x) / 100.0
        return self._calc_storage_volume_storageT_gal(ls_running_vol_supplyT_gal, ls_band)

    def _require_design_inlet_temp(self, building: Building):
        temp = building.get_design_inlet_water_temp_f()
        if temp is None:
            raise ValueError('Sizing requires a design inlet water temperature. Provide a ClimateZone (via zip code, weather station, zone ID, or design_inlet_water_temp_f) when constructing the Building.')
        return temp
    _MIN_CYCLE_MIN: float = 10.0

    def _warn_if_short_cycling(self, control_map: dict[str, Controls], capacity_kbtuh: float, storage_vol_storageT_gal: float):
        delta_t_storage = self.storage_temp_f - self.supply_temp_f
        if delta_t_storage <= 0:
            return
        heat_rate_gph = capacity_kbtuh * 1000 / (_RHO_CP * delta_t_storage)
        for key, ctrl in control_map.items():
            if ctrl.off_sensor_fract > ctrl.on_sensor_fract:
                warnings.warn(f'Controls key {key}: off_sensor_fract ({ctrl.off_sensor_fract}) is above on_sensor_fract ({ctrl.on_sensor_fract}). Expected off <= on — the heater may never shut off.', UserWarning, stacklevel=4)
                continue
            deadband_vol_gal = (ctrl.on_sensor_fract - ctrl.off_sensor_fract) * storage_vol_storageT_gal
            cycle_time_min = deadband_vol_gal / heat_rate_gph * 60
            if cycle_time_min < self._MIN_CYCLE_MIN:
                warnings.warn(f'Controls key {key}: short cycling risk — estimated cycle time is {cycle_time_min:.1f} min (minimum recommended: {self._MIN_CYCLE_MIN} min). Consider increasing storage volume or widening the sensor deadband (on_sensor_fract={ctrl.on_sensor_fract}, off_sensor_fract={ctrl.off_sensor_fract}).', UserWarning, stacklevel=4)

    def simulate_step(self, building: Building, timestep_interval: int, interval_min: int=1, mode: str='normal'):
        use_avg = any((wh.is_load_shifting() for wh in self.water_heaters))
        demand_supplyT_gal = building.get_dhw_load_supplyT_gal(timestep_interval, interval_min, use_avg=use_avg)
        oat_f = building.get_oat_f(timestep_interval, interval_min)
        inlet_temp_f = building.get_inlet_water_temp_f(timestep_interval, interval_min)
        hour_of_day = timestep_interval * interval_min // 60 % 24
        outlet_temp_f = self._get_outlet_temp_f(hour_of_day)
        mode = self.water_heaters[0].control_schedule[hour_of_day] if self.water_heaters and self.water_heaters[0].control_schedule else 'normal'
        if self.storage_tank is not None:
            for wh in self.water_heaters:
                wh.update_state(self.storage_tank, hour_of_day)
            top_temp_f = self.storage_tank.get_temperature_at_fraction(1.0)
            total_kbtuh = sum((wh.get_output_kbtuh(oat_f, wh.get_outlet_temp_f(hour_of_day), inlet_temp_f) for wh in self.water_heaters))
            total_kw: float | None = None
            active_kws = [wh.get_power_in_kw(oat_f, wh.get_outlet_temp_f(hour_of_day), inlet_temp_f) for wh in self.water_heaters if wh.is_active()]
            if any((kw is not None for kw in active_kws)):
                total_kw = sum((kw or 0.0 for kw in active_kws))
            self.storage_tank.heat(total_kbtuh, interval_min, outlet_temp_f)
            self.storage_tank.draw(demand_supplyT_gal, inlet_temp_f, self.supply_temp_f, outlet_temp_f)
            usable_vol_gal = self.storage_tank.get_usable_volume_supplyT_gal(self.supply_temp_f)
            tank_temps_f = [self.storage_tank.get_temperature_at_fraction(f) for f in (0.0, 0.2, 0.4, 0.6, 0.8, 1.0)]
        else:
            total_kbtuh = 0.0
            total_kw = None
            usable_vol_gal = 0.0
            tank_temps_f = [0.0] * 6
        return {'demand_supplyT_gal': demand_supplyT_gal, 'usable_volume_supplyT_gal': usable_vol_gal, 'heater_output_kbtuh': total_kbtuh, 'heater_power_in_kw': total_kw, 'oat_f': oat_f, 'inlet_water_temp_f': inlet_temp_f, 'tank_temps_f': tank_temps_f, 'mode': mode}

    def _get_outlet_temp_f(self, hour_of_day: int):
        outlet_temps = [wh.get_controls_for_hour(hour_of_day).outlet_temp_f for wh in self.water_heaters if wh.get_controls_for_hour(hour_of_day) is not None]
        return max(outlet_temps) if outlet_temps else self.storage_temp_f

    def check_for_outage(self, demand_supplyT_gal: float):
        if self.storage_tank is None:
            return False
        return self.storage_tank.get_usable_volume_supplyT_gal(self.supply_temp_f) <= 0.0


def mixing_valve_behavior(load_supplyT_gal: float, flow_returnT_gal: float, cold_temp_f: float, supply_temp_f: float, return_temp_f: float, storage_temp_f: float):
    recirc_loss_btu = flow_returnT_gal * _RHO_CP * (supply_temp_f - return_temp_f)
    critical_flow_gal = recirc_loss_btu / (_RHO_CP * (storage_temp_f - supply_temp_f))
    if load_supplyT_gal > critical_flow_gal:
        storage_draw_gal = load_supplyT_gal * ((supply_temp_f - cold_temp_f) / (storage_temp_f - cold_temp_f)) + flow_returnT_gal * ((supply_temp_f - return_temp_f) / (storage_temp_f - cold_temp_f))
        inlet_temp_f = cold_temp_f
    else:
        storage_draw_gal = (load_supplyT_gal + flow_returnT_gal) * ((supply_temp_f - return_temp_f) / (storage_temp_f - return_temp_f))
        recirc_to_tank_gal = storage_draw_gal - load_supplyT_gal
        inlet_temp_f = (load_supplyT_gal * cold_temp_f + recirc_to_tank_gal * return_temp_f) / storage_draw_gal
    return {'storage_draw_gal': storage_draw_gal, 'inlet_temp_f': inlet_temp_f}


class InstantWHSystem:

    def __init__(self, supply_temp_f: float, storage_temp_f: float, defrost_factor: float=1.0):
        super().__init__(water_heaters=[], storage_tank=None, supply_temp_f=supply_temp_f, storage_temp_f=storage_temp_f, defrost_factor=defrost_factor)

    @classmethod
    def from_size(cls, building, supply_temp_f: float, storage_temp_f: float, defrost_factor: float=1.0):
        system = cls(supply_temp_f=supply_temp_f, storage_temp_f=storage_temp_f, defrost_factor=defrost_factor)
        system.size(building)
        return system

    def size(self, building, **kwargs):
        design_inlet_temp_f = self._require_design_inlet_temp(building)
        delta_t = self.supply_temp_f - design_inlet_temp_f
        peak_gph = building.daily_dhw_use_supplyT_gal * float(max(building.peak_load_shape))
        self._minimum_capacity_kbtuh = peak_gph * _RHO_CP * delta_t / self.defrost_factor / 1000.0
        self._minimum_storage_storageT_gal = 0.0

    def simulate_step(self, building, timestep_interval: int, interval_min: int=1, mode: str='normal'):
        demand_supplyT_gal = building.get_dhw_load_supplyT_gal(timestep_interval, interval_min)
        oat_f = building.get_oat_f(timestep_interval, interval_min)
        inlet_temp_f = building.get_inlet_water_temp_f(timestep_interval, interval_min)
        delta_t = max(self.supply_temp_f - inlet_temp_f, 1.0)
        capacity_kbtuh = demand_supplyT_gal * (60.0 / interval_min) * _RHO_CP * delta_t / self.defrost_factor / 1000.0
        return {'demand_supplyT_gal': demand_supplyT_gal, 'usable_volume_supplyT_gal': 0.0, 'heater_output_kbtuh': capacity_kbtuh, 'heater_power_in_kw': capacity_kbtuh / _W_TO_KBTUH, 'oat_f': oat_f, 'inlet_water_temp_f': inlet_temp_f, 'tank_temps_f': [self.supply_temp_f] * 6, 'mode': 'normal'}
