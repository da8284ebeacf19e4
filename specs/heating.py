import json
import math
import os
import pickle

_RHO_CP: float = 8.353535
_W_TO_KBTUH: float = 3.412142


class Controls:

    def __init__(self, on_sensor_fract: float, on_trigger_t_f: float, off_sensor_fract: float, off_trigger_t_f: float, outlet_temp_f: float):
        self.on_sensor_fract = on_sensor_fract
        self.on_trigger_t_f = on_trigger_t_f
        self.off_sensor_fract = off_sensor_fract
        self.off_trigger_t_f = off_trigger_t_f
        self.outlet_temp_f = outlet_temp_f

    def should_turn_on(self, storage_tank: StorageTank):
        temp = storage_tank.get_temperature_at_fraction(self.on_sensor_fract)
        return temp < self.on_trigger_t_f

    def should_turn_off(self, storage_tank: StorageTank):
        temp = storage_tank.get_temperature_at_fraction(self.off_sensor_fract)
        return temp >= self.off_trigger_t_f


class WaterHeater:

    def __init__(self, performance_map: PerformanceMap | None, control_schedule: list[str] | None, control_map: dict[str, Controls] | None, fuel_type: Literal['electric', 'gas']='electric'):
        self.performance_map = performance_map
        self.control_schedule = control_schedule
        self.control_map = control_map
        self.fuel_type = fuel_type
        self._active = False

    @classmethod
    def from_nominal_capacity(cls, nominal_capacity_kbtuh: float, control_schedule: list[str] | None, control_map: dict[str, Controls] | None, fuel_type: Literal['electric', 'gas']='electric'):
        return cls(performance_map=NominalPerformanceMap(nominal_capacity_kbtuh), control_schedule=control_schedule, control_map=control_map, fuel_type=fuel_type)

    @classmethod
    def from_model_name(cls, model_name: str, control_schedule: list[str] | None, control_map: dict[str, Controls] | None, num_units: int=1, design_inlet_temp_f: float=50.0, nominal_capacity_kbtuh: float | None=None, fuel_type: Literal['electric', 'gas']='electric'):
        return cls(performance_map=PerformanceMap.from_model_name(model_name, num_units=num_units, design_inlet_temp_f=design_inlet_temp_f, nominal_capacity_kbtuh=nominal_capacity_kbtuh), control_schedule=control_schedule, control_map=control_map, fuel_type=fuel_type)

    def is_active(self):
        return self._active

    def turn_on(self):
        self._active = True

    def turn_off(self):
        self._active = False

    def is_load_shifting(self):
        if self.control_map is None:
            return False
        return 'loadUp' in self.control_map or 'shed' in self.control_map

    def get_controls_for_hour(self, hour_of_day: int):
        if self.control_schedule is None or self.control_map is None:
            return None
        key = self.control_schedule[hour_of_day]
        return self.control_map.get(key)

    def get_capacity_kbtuh(self, oat_f: float, outlet_temp_f: float, inlet_temp_f: float | None=None):
        if self.performance_map is not None:
            return self.performance_map.get_capacity_kbtuh(oat_f, outlet_temp_f, inlet_temp_f)
        return None

    def get_power_in_kw(self, oat_f: float, outlet_temp_f: float, inlet_temp_f: float | None=None):
        if self.performance_map is not None:
            return self.performance_map.get_power_in_kw(oat_f, outlet_temp_f, inlet_temp_f)
        return None

    def get_output_kbtuh(self, oat_f: float, outlet_temp_f: float, inlet_temp_f: float | None=None):
        if not self._active:
            return 0.0
        cap = self.get_capacity_kbtuh(oat_f, outlet_temp_f, inlet_temp_f)
        return cap if cap is not None else 0.0

    def get_outlet_temp_f(self, hour_of_day: int):
        controls = self.get_controls_for_hour(hour_of_day)
        if controls is None:
            raise ValueError(f'No Controls configured for hour {hour_of_day}.')
        return controls.outlet_temp_f

    def update_state(self, storage_tank: StorageTank, hour_of_day: int):
        controls = self.get_controls_for_hour(hour_of_day)
        if controls is None:
            raise ValueError(f'No Controls configured for hour {hour_of_day}.')
        if self._active:
            if controls.should_turn_off(storage_tank):
                self.turn_off()
        elif controls.should_turn_on(storage_tank):
            self.turn_on()


_DATA_DIR = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..', '..', 'data', 'preformanceMaps'))
_TWO_INPUT_PKL_NAMES = frozenset({'MODELS_SANCO2_C_SP', 'MODELS_COLMAC_R454B_C_SP', 'MODELS_Droplet_C_SP'})

def _load_maps_json():
    if not hasattr(_load_maps_json, '_cache'):
        path = os.path.join(_DATA_DIR, 'maps.json')
        with open(path) as f:
            _load_maps_json._cache = json.load(f)
    return _load_maps_json._cache

class PerformanceMap:

    def __init__(self, map_data: object, model_name: str=''):
        self.map_data = map_data
        self.model_name = model_name

    @classmethod
    def from_model_name(cls, model_name: str, num_units: int=1, design_inlet_temp_f: float=50.0, nominal_capacity_kbtuh: float | None=None):
        registry = _load_maps_json()
        if model_name not in registry:
            raise ValueError(f"Model '{model_name}' not found in the performance map registry. Check maps.json for valid model names.")
        entry = registry[model_name]
        secondary_hx = bool(entry.get('secondary_heat_exchanger', False))
        hx_increase = float(entry.get('hx_increase', 0.0))
        is_two_input_pkl = model_name in _TWO_INPUT_PKL_NAMES or model_name.endswith('MP') or 'Lochinvar' in model_name
        is_multipass = model_name.endswith('MP')
        if 'pkl_prefix' in entry:
            prefix = entry['pkl_prefix']
            pkls_dir = os.path.join(_DATA_DIR, 'pkls')
            with open(os.path.join(pkls_dir, f'{prefix}_capacity_interpolator.pkl'), 'rb') as f:
                output_interp = pickle.load(f)
            with open(os.path.join(pkls_dir, f'{prefix}_power_in_interpolator.pkl'), 'rb') as f:
                input_interp = pickle.load(f)
            with open(os.path.join(pkls_dir, f'{prefix}_bounds.pkl'), 'rb') as f:
                bounds = pickle.load(f)
            unique_oats = bounds[0]
            inTs_and_outTs_by_oat = bounds[1]
            inlet_min, inlet_max = bounds[2]
            default_out_high_kw, default_in_high_kw = bounds[3]
            default_out_low_kw, default_in_low_kw = bounds[4]
            return PklPerformanceMap(model_name=model_name, output_interpolator=output_interp, input_interpolator=input_interp, unique_oats=unique_oats, inTs_and_outTs_by_oat=inTs_and_outTs_by_oat, inlet_min=inlet_min, inlet_max=inlet_max, default_out_high_kw=default_out_high_kw, default_in_high_kw=default_in_high_kw, default_out_low_kw=default_out_low_kw, default_in_low_kw=default_in_low_kw, num_units=num_units, is_two_input=is_two_input_pkl, secondary_hx=secondary_hx, hx_increase=hx_increase, nominal_capacity_kbtuh=nominal_capacity_kbtuh, design_inlet_temp_f=design_inlet_temp_f)
        if 'perfmap' in entry:
            return HPWHsimPerformanceMap(model_name=model_name, perfmap=entry['perfmap'], num_units=num_units, is_multipass=is_multipass, nominal_capacity_kbtuh=nominal_capacity_kbtuh, design_inlet_temp_f=design_inlet_temp_f)
        raise ValueError(f"Registry entry for '{model_name}' has neither 'pkl_prefix' nor 'perfmap' — cannot construct a PerformanceMap.")

    def get_capacity_kbtuh(self, oat_f: float, outlet_temp_f: float, inlet_temp_f: float | None=None):
        pass

    def get_power_in_kw(self, oat_f: float, outlet_temp_f: float, inlet_temp_f: float | None=None):
        pass

    def get_cop(self, oat_f: float, outlet_temp_f: float, inlet_temp_f: float | None=None):
        cap_kbtuh = self.get_capacity_kbtuh(oat_f, outlet_temp_f, inlet_temp_f)
        pwr_kw = self.get_power_in_kw(oat_f, outlet_temp_f, inlet_temp_f)
        if cap_kbtuh is None or pwr_kw is None or pwr_kw <= 0:
            return None
        return cap_kbtuh / _W_TO_KBTUH / pwr_kw

    def is_within_operating_bounds(self, oat_f: float):
        pass

class NominalPerformanceMap:

    def __init__(self, nominal_capacity_kbtuh: float, model_name: str=''):
        super().__init__(map_data=None, model_name=model_name)
        self.nominal_capacity_kbtuh = nominal_capacity_kbtuh

    def get_capacity_kbtuh(self, oat_f: float, outlet_temp_f: float, inlet_temp_f: float | None=None):
        return self.nominal_capacity_kbtuh

class PklPerformanceMap:

    def __init__(self, model_name: str, output_interpolator: object, input_interpolator: object, unique_oats: list[float], inTs_and_outTs_by_oat: list[list[tuple[float, list[float]]]], inlet_min: float, inlet_max: float, default_out_high_kw: float, default_in_high_kw: float, default_out_low_kw: float, default_in_low_kw: float, num_units: int, is_two_input: bool, secondary_hx: bool, hx_increase: float, nominal_capacity_kbtuh: float | None, design_inlet_temp_f: float):
        super().__init__(map_data=None, model_name=model_name)
        self._output_interp = output_interpolator
        self._input_interp = input_interpolator
        self._unique_oats = unique_oats
        self._inTs_outTs = inTs_and_outTs_by_oat
        self._inlet_min = inlet_min
        self._inlet_max = inlet_max
        self._default_out_high_kw = default_out_high_kw
        self._default_in_high_kw = default_in_high_kw
        self._default_out_low_kw = default_out_low_kw
        self._default_in_low_kw = default_in_low_kw
        self.num_units = num_units
        self._is_two_input = is_two_input
        self._secondary_hx = secondary_hx
        self._hx_increase = hx_increase
        self._nominal_kbtuh = nominal_capacity_kbtuh
        self._design_inlet_f = design_inlet_temp_f

    @property
    def oat_min(self):
        return self._unique_oats[0]

    @property
    def oat_max(self):
        return self._unique_oats[-1]

    def _resolve_temps(self, outlet_temp_f: float, inlet_temp_f: float | None):
        inlet = inlet_temp_f if inlet_temp_f is not None else self._design_inlet_f
        outlet = outlet_temp_f
        if self._secondary_hx:
            inlet += self._hx_increase
            outlet += self._hx_increase
        inlet = min(inlet, self._inlet_max)
        return (inlet, outlet)

    def _raw_query(self, inlet_t: float, outlet_t: float, oat_f: float):
        if self._is_two_input:
            arr = [[inlet_t, oat_f]]
        else:
            arr = [[inlet_t, outlet_t, oat_f]]
        return (float(self._output_interp(arr)[0][0]), float(self._input_interp(arr)[0][0]))

    def _idx_nearest_oat(self, oat_f: float):
        best, idx = (abs(self._unique_oats[0] - oat_f), 0)
        for i in range(1, len(self._unique_oats)):
            d = abs(self._unique_oats[i] - oat_f)
            if d < best:
                best, idx = (d, i)
        return idx

    def _idx_nearest_inlet(self, oat_idx: int, inlet_t: float):
        entries = self._inTs_outTs[oat_idx]
        best = abs(entries[-1][0] - inlet_t)
        closest = -1
        for i, (t_in, _) in enumerate(entries):
            d = abs(t_in - inlet_t)
            if d < best and t_in >= inlet_t:
                best, closest = (d, i)
        return closest

    def _nearest_outlet(self, oat_idx: int, inlet_idx: int, outlet_t: float):
        outlets = self._inTs_outTs[oat_idx][inlet_idx][1]
        best = abs(self._unique_oats[0] - outlet_t)
        best_i = 0
        for i, o in enumerate(outlets):
            d = abs(o - outlet_t)
            if d < best:
                best, best_i = (d, i)
        return outlets[best_i]

    def _force_closest(self, inlet_t: float, outlet_t: float, oat_f: float):
        oat_idx = self._idx_nearest_oat(oat_f)
        try:
            inlet_idx = self._idx_nearest_inlet(oat_idx, inlet_t)
        except Exception:
            return None
        snapped_oat = self._unique_oats[oat_idx]
        snapped_inlet = self._inTs_outTs[oat_idx][inlet_idx][0]
        out_kw, inp_kw = self._raw_query(snapped_inlet, outlet_t, snapped_oat)
        if not (math.isnan(out_kw) or math.isnan(inp_kw)):
            return (out_kw, inp_kw)
        snapped_outlet = self._nearest_outlet(oat_idx, inlet_idx, outlet_t)
        out_kw, inp_kw = self._raw_query(snapped_inlet, snapped_outlet, snapped_oat)
        if not (math.isnan(out_kw) or math.isnan(inp_kw)):
            if snapped_outlet < outlet_t and outlet_t > snapped_inlet:
                adj = out_kw * (outlet_t - snapped_inlet - (snapped_outlet - snapped_inlet)) / (outlet_t - snapped_inlet)
                out_kw += adj
                inp_kw += adj
            return (out_kw, inp_kw)
        return None

    def _er_per_unit_kw(self):
        if self._nominal_kbtuh is not None:
            return self._nominal_kbtuh / self.num_units / _W_TO_KBTUH
        return self._default_out_low_kw

    def _get_per_unit_kw(self, oat_f: float, inlet_t: float, outlet_t: float):
        if oat_f is None:
            raise ValueError('oat_f is required for real performance maps. Provide a ClimateZone with a design OAT when constructing the Building.')
        if oat_f >= self.oat_max:
            return (self._default_out_high_kw, self._default_in_high_kw)
        out_kw, inp_kw = self._raw_query(inlet_t, outlet_t, oat_f)
        if not (math.isnan(out_kw) or math.isnan(inp_kw)):
            return (out_kw, inp_kw)
        if oat_f < self.oat_min:
            er = self._er_per_unit_kw()
            return (er, er)
        result = self._force_closest(inlet_t, outlet_t, oat_f)
        if result is not None:
            return result
        er = self._er_per_unit_kw()
        return (er, er / 1.5)

    def get_capacity_kbtuh(self, oat_f: float, outlet_temp_f: float, inlet_temp_f: float | None=None):
        inlet, outlet = self._resolve_temps(outlet_temp_f, inlet_temp_f)
        out_kw, _ = self._get_per_unit_kw(oat_f, inlet, outlet)
        return out_kw * self.num_units * _W_TO_KBTUH

    def get_power_in_kw(self, oat_f: float, outlet_temp_f: float, inlet_temp_f: float | None=None):
        inlet, outlet = self._resolve_temps(outlet_temp_f, inlet_temp_f)
        _, inp_kw = self._get_per_unit_kw(oat_f, inlet, outlet)
        return inp_kw * self.num_units

    def is_within_operating_bounds(self, oat_f: float):
        return oat_f >= self.oat_min

class HPWHsimPerformanceMap:

    def __init__(self, model_name: str, perfmap: list[dict], num_units: int, is_multipass: bool, nominal_capacity_kbtuh: float | None, design_inlet_temp_f: float):
        super().__init__(map_data=perfmap, model_name=model_name)
        self._perfmap = perfmap
        self.num_units = num_units
        self._is_multipass = is_multipass
        self._nominal_kbtuh = nominal_capacity_kbtuh
        self._design_inlet_f = design_inlet_temp_f

    @property
    def oat_min(self):
        return self._perfmap[0]['T_F'] if self._perfmap else float('-inf')

    @staticmethod
    def _linear_interp(x: float, x0: float, x1: float, y0: float, y1: float):
        return y0 + (x - x0) * (y1 - y0) / (x1 - x0)

    @staticmethod
    def _quad(coeffs: list[float], x: float):
        return coeffs[0] + coeffs[1] * x + coeffs[2] * x * x

    @staticmethod
    def _poly11(coeffs: list[float], oat: float, out_t: float, in_t: float):
        c = coeffs
        return c[0] + c[1] * oat + c[2] * out_t + c[3] * in_t + c[4] * oat * oat + c[5] * out_t * out_t + c[6] * in_t * in_t + c[7] * oat * out_t + c[8] * oat * in_t + c[9] * out_t * in_t + c[10] * oat * out_t * in_t

    @staticmethod
    def _poly6(coeffs: list[float], x1: float, x2: float):
        c = coeffs
        return c[0] + c[1] * x1 + c[2] * x2 + c[3] * x1 * x1 + c[4] * x2 * x2 + c[5] * x1 * x2

    def _er_per_unit_kbtuh(self):
        if self._nominal_kbtuh is not None:
            return self._nominal_kbtuh / self.num_units
        if self._perfmap:
            entry = self._perfmap[0]
            input_kw = self._quad(entry['inputPower_coeffs'], self._design_inlet_f) / 1000.0
            cop = max(self._quad(entry['COP_coeffs'], self._design_inlet_f), 0.0)
            return max(cop * input_kw * _W_TO_KBTUH, 0.0)
        return 0.0

    def _get_per_unit_kbtuh(self, oat_f: float, inlet_temp_f: float, outlet_t: float):
        if oat_f is None:
            raise ValueError('oat_f is required for real performance maps. Provide a ClimateZone with a design OAT when constructing the Building.')
        perfmap = self._perfmap
        if not perfmap:
            er = self._er_per_unit_kbtuh()
            return (er, er)
        if len(perfmap) > 1:
            i_prev, i_next = (None, None)
            for i in range(len(perfmap)):
                if oat_f < perfmap[i]['T_F']:
                    if i == 0:
                        er = self._er_per_unit_kbtuh()
                        return (er, er)
                    i_prev, i_next = (i - 1, i)
                    break
                if i == len(perfmap) - 1:
                    i_prev, i_next = (i - 1, i)
            COP_T1 = self._quad(perfmap[i_prev]['COP_coeffs'], inlet_temp_f)
            COP_T2 = self._quad(perfmap[i_next]['COP_coeffs'], inlet_temp_f)
            pwr_T1_W = self._quad(perfmap[i_prev]['inputPower_coeffs'], inlet_temp_f)
            pwr_T2_W = self._quad(perfmap[i_next]['inputPower_coeffs'], inlet_temp_f)
            T1, T2 = (perfmap[i_prev]['T_F'], perfmap[i_next]['T_F'])
            cop = self._linear_interp(oat_f, T1, T2, COP_T1, COP_T2)
            input_kw = self._linear_interp(oat_f, T1, T2, pwr_T1_W / 1000.0, pwr_T2_W / 1000.0)
        elif self._is_multipass:
            input_kw = self._poly6(perfmap[0]['inputPower_coeffs'], oat_f, inlet_temp_f)
            cop = self._poly6(perfmap[0]['COP_coeffs'], oat_f, inlet_temp_f)
        else:
            input_kw = self._poly11(perfmap[0]['inputPower_coeffs'], oat_f, outlet_t, inlet_temp_f)
            cop = self._poly11(perfmap[0]['COP_coeffs'], oat_f, outlet_t, inlet_temp_f)
        output_kw = cop * input_kw
        return (output_kw * _W_TO_KBTUH, input_kw * _W_TO_KBTUH)

    def get_capacity_kbtuh(self, oat_f: float, outlet_temp_f: float, inlet_temp_f: float | None=None):
        inlet_temp_f = inlet_temp_f if inlet_temp_f is not None else self._design_inlet_f
        out_kbtuh, _ = self._get_per_unit_kbtuh(oat_f, inlet_temp_f, outlet_temp_f)
        return out_kbtuh * self.num_units

    def get_power_in_kw(self, oat_f: float, outlet_temp_f: float, inlet_temp_f: float | None=None):
        inlet_temp_f = inlet_temp_f if inlet_temp_f is not None else self._design_inlet_f
        _, inp_kbtuh = self._get_per_unit_kbtuh(oat_f, inlet_temp_f, outlet_temp_f)
        return inp_kbtuh / _W_TO_KBTUH * self.num_units

    def is_within_operating_bounds(self, oat_f: float):
        return oat_f >= self.oat_min
