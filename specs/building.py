from io import TextIOWrapper
import csv
import importlib.resources as pkg_resources
import json
import math
import numpy as np

_ASHRAE_GPD_PER_UNIT = {'mens_dorm': 23.6, 'womens_dorm': 19.6, 'motel': 21.4, 'nursing_home': 23.4, 'office_building': 2.1, 'food_service_a': 11.032, 'food_service_b': 6.44, 'apartment': 54.6, 'elementary_school': 1.34, 'junior_high': 3.75, 'senior_high': 3.26}
_STANDARD_GPD_KEYS = ['ca', 'ashLow', 'ashMed', 'ecoMark']

def _load_shape_json(building_type: str):
    data_pkg = pkg_resources.files('ecoengine.data.load_shapes')
    try:
        with (data_pkg / f'{building_type}.json').open('r') as f:
            return json.load(f)
    except FileNotFoundError:
        raise ValueError(f"No default load shape found for building type '{building_type}'.")

def _validate_load_shape(load_shape: list[float], label: str='load shape'):
    if len(load_shape) != 24:
        raise ValueError(f'{label} must have 24 elements, got {len(load_shape)}.')
    total = sum(load_shape)
    if abs(total - 1.0) > 0.001:
        raise ValueError(f'{label} must sum to 1.0 (got {total:.4f}).')
    if any((x < 0 for x in load_shape)):
        raise ValueError(f'{label} cannot contain negative values.')
    return

class Building:

    def __init__(self, climate_zone: ClimateZone | None, daily_dhw_use_supplyT_gal: float, peak_load_shape: list[float] | np.ndarray, avg_load_shape: list[float] | np.ndarray, utility_cost_tracker: UtilityCostTracker | None=None, building_type: str='', design_oat_f: float | None=None, design_inlet_water_temp_f: float | None=None):
        if climate_zone is None and (design_oat_f is not None or design_inlet_water_temp_f is not None):
            climate_zone = ClimateZone.from_design_conditions(design_oat_f, design_inlet_water_temp_f)
        self.climate_zone = climate_zone
        self.daily_dhw_use_supplyT_gal = daily_dhw_use_supplyT_gal
        self.peak_load_shape = np.array(peak_load_shape)
        self.avg_load_shape = np.array(avg_load_shape)
        self.utility_cost_tracker = utility_cost_tracker
        self.building_type = building_type

    @classmethod
    def from_building_type(cls, building_type: str | None | list[str | None], magnitude: float | None | list, climate_zone: ClimateZone | None, gpdpp: float=25, standard_gpd: str | None=None, n_br: list[int] | None=None, custom_peak_load_shape: list[float] | list[list[float] | None] | None=None, custom_avg_load_shape: list[float] | list[list[float] | None] | None=None, annual: bool=False, **kwargs):
        if isinstance(building_type, list) and len(building_type) == 1:
            building_type = building_type[0]
        if isinstance(magnitude, list) and len(magnitude) == 1:
            magnitude = magnitude[0]
        if isinstance(building_type, list):
            return cls._from_multi_use(building_type, magnitude, climate_zone, custom_peak_load_shape, custom_avg_load_shape, gpdpp, standard_gpd, n_br, **kwargs)
        if not isinstance(building_type, (str, type(None))):
            raise ValueError('building_type must be a string, None (for custom load shape only), or a list of strings for multi-use buildings.')
        daily_gal, peak_ls, avg_ls = cls._compute_single_gal_and_shapes(building_type, magnitude, custom_peak_load_shape, custom_avg_load_shape, gpdpp, standard_gpd, n_br)
        building = cls(climate_zone=climate_zone, daily_dhw_use_supplyT_gal=daily_gal, peak_load_shape=peak_ls, avg_load_shape=avg_ls, building_type=building_type if building_type is not None else 'custom', **kwargs)
        if annual:
            building.set_to_annual_load_shape()
        return building

    @classmethod
    def _from_multi_use(cls, building_types: list[str | None], magnitudes: list, climate_zone: ClimateZone | None, custom_peak_load_shapes: list[list[float] | None] | None, custom_avg_load_shapes: list[list[float] | None] | None, gpdpp: float, standard_gpd: str | None, n_br: list[int] | None, **kwargs):
        n = len(building_types)
        if not isinstance(magnitudes, list):
            raise ValueError(f'Multi-use building requires a list of magnitudes (one per building type), got a single value for {n} types.')
        if len(magnitudes) != n:
            raise ValueError(f'Multi-use building: got {n} building types but {len(magnitudes)} magnitude values.')
        cpls_list = cls._normalize_multi_use_shapes(custom_peak_load_shapes, n, 'custom_peak_load_shape')
        cals_list = cls._normalize_multi_use_shapes(custom_avg_load_shapes, n, 'custom_avg_load_shape')
        sub_daily_gals, sub_peaks, sub_avgs = ([], [], [])
        for bt, mag, cpls, cals in zip(building_types, magnitudes, cpls_list, cals_list):
            daily_gal, peak_ls, avg_ls = cls._compute_single_gal_and_shapes(bt, mag, cpls, cals, gpdpp, standard_gpd, n_br)
            sub_daily_gals.append(daily_gal)
            sub_peaks.append(peak_ls)
            sub_avgs.append(avg_ls)
        total_daily_gal = sum(sub_daily_gals)
        blended_peak = sum((g * ls for g, ls in zip(sub_daily_gals, sub_peaks))) / total_daily_gal
        blended_avg = sum((g * ls for g, ls in zip(sub_daily_gals, sub_avgs))) / total_daily_gal
        return cls(climate_zone=climate_zone, daily_dhw_use_supplyT_gal=total_daily_gal, peak_load_shape=blended_peak, avg_load_shape=blended_avg, building_type='multi_use', **kwargs)

    @staticmethod
    def _normalize_multi_use_shapes(custom_shapes: list[list[float] | None] | None, n: int, label: str):
        if custom_shapes is None:
            return [None] * n
        if len(custom_shapes) == 24 and (not isinstance(custom_shapes[0], (list, type(None)))):
            raise ValueError(f'For multi-use buildings, {label} must be a list of load shapes (one per building type), not a single 24-element list.')
        if len(custom_shapes) != n:
            raise ValueError(f'Multi-use building: got {n} building types but {len(custom_shapes)} {label} values.')
        return custom_shapes

    @classmethod
    def _compute_single_gal_and_shapes(cls, building_type: str | None, magnitude: float | None, custom_peak_ls: list[float] | None, custom_avg_ls: list[float] | None, gpdpp: float, standard_gpd: str | None, n_br: list[int] | None):
        if building_type is None:
            if custom_peak_ls is None:
                raise ValueError('building_type=None requires a custom_peak_load_shape.')
            raw = list(custom_peak_ls)
            raw_sum = sum(raw)
            if magnitude is None:
                daily_gal = float(raw_sum)
                peak_ls = np.array([x / raw_sum for x in raw])
                _validate_load_shape(list(peak_ls), 'custom_peak_load_shape')
            else:
                daily_gal = float(magnitude)
                if abs(raw_sum - 1.0) > 0.001:
                    peak_ls = np.array([x / raw_sum for x in raw])
                    _validate_load_shape(list(peak_ls), 'custom_peak_load_shape')
                else:
                    _validate_load_shape(raw, 'custom_peak_load_shape')
                    peak_ls = np.array(raw)
            if custom_avg_ls is not None:
                raw_avg = list(custom_avg_ls)
                avg_sum = sum(raw_avg)
                avg_ls = np.array([x / avg_sum for x in raw_avg])
                _validate_load_shape(list(avg_ls), 'custom_avg_load_shape')
            else:
                avg_ls = peak_ls.copy()
            return (daily_gal, peak_ls, avg_ls)
        if not isinstance(magnitude, (int, float)) or magnitude <= 0:
            raise ValueError('magnitude must be a positive number.')
        if building_type == 'multi_family':
            if standard_gpd is not None:
                if not isinstance(standard_gpd, str) or standard_gpd not in _STANDARD_GPD_KEYS:
                    raise ValueError(f"standard_gpd must be one of {_STANDARD_GPD_KEYS}, got '{standard_gpd}'.")
                data = _load_shape_json('multi_family')
                if standard_gpd.lower() == 'ca':
                    if n_br is None or not isinstance(n_br, (list, np.ndarray)) or len(n_br) != 6 or (sum(n_br) == 0):
                        raise ValueError("standard_gpd='ca' requires n_br: a 6-element list [0BR, 1BR, 2BR, 3BR, 4BR, 5BR].")
                    daily_totals = np.zeros(365)
                    for i in range(6):
                        daily_totals += n_br[i] * np.array(data['ca_gpdpp'][f'{i}br'])
                    gpdpp = round(float(np.percentile(daily_totals, 98)) / sum(n_br), 1)
                else:
                    gpdpp = data['gpdpp'][standard_gpd][0]
            if not isinstance(gpdpp, (int, float)):
                raise ValueError('gpdpp must be a number.')
            daily_gal = gpdpp * magnitude
        elif building_type in _ASHRAE_GPD_PER_UNIT:
            daily_gal = _ASHRAE_GPD_PER_UNIT[building_type] * magnitude
        else:
            raise ValueError(f"Unrecognized building_type '{building_type}'. Valid types: {sorted(list(_ASHRAE_GPD_PER_UNIT.keys()) + ['multi_family'])}")
        if custom_peak_ls is not None:
            raw = list(custom_peak_ls)
            _validate_load_shape(raw, 'custom_peak_load_shape')
            peak_ls = np.array(raw)
        else:
            data = _load_shape_json(building_type)
            peak_ls = np.array(data['loadshapes']['Stream'])
        if custom_avg_ls is not None:
            raw = list(custom_avg_ls)
            _validate_load_shape(raw, 'custom_avg_load_shape')
            avg_ls = np.array(raw)
        else:
            data = _load_shape_json(building_type)
            avg_key = 'Stream_Avg' if 'Stream_Avg' in data['loadshapes'] else 'Stream'
            avg_ls = np.array(data['loadshapes'][avg_key])
        return (daily_gal, peak_ls, avg_ls)

    def is_annual_load_shape(self):
        return len(self.peak_load_shape) == 8760

    def set_to_annual_load_shape(self):
        if self.building_type != 'multi_family':
            raise ValueError(f"Annual load shapes are only available for multi_family buildings. This building is type '{self.building_type}'.")
        data = _load_shape_json('multi_family')
        annual_ls = np.array(data['loadshapes']['Annual_Normalized'])
        self.peak_load_shape = annual_ls
        self.avg_load_shape = annual_ls

    def set_to_daily_load_shape(self):
        if self.building_type != 'multi_family':
            raise ValueError(f"set_to_daily_load_shape() is only available for multi_family buildings. This building is type '{self.building_type}'.")
        data = _load_shape_json('multi_family')
        self.peak_load_shape = np.array(data['loadshapes']['Stream'])
        self.avg_load_shape = np.array(data['loadshapes']['Stream_Avg'])

    def get_dhw_load_supplyT_gal(self, timestep_interval: int, interval_min: int=1, use_avg: bool=False):
        load_shape = self.avg_load_shape if use_avg else self.peak_load_shape
        actual_minute = timestep_interval * interval_min
        n_hours = len(load_shape)
        hour_index = actual_minute // 60 % n_hours
        return self.daily_dhw_use_supplyT_gal * load_shape[hour_index] * interval_min / 60

    def get_oat_f(self, timestep_interval: int, interval_min: int=1):
        return self.climate_zone.get_oat_f(timestep_interval, interval_min)

    def get_inlet_water_temp_f(self, timestep_interval: int, interval_min: int=1):
        return self.climate_zone.get_inlet_water_temp_f(timestep_interval, interval_min)

    def get_design_oat_f(self):
        if self.climate_zone is not None:
            return self.climate_zone.get_design_oat_f()
        return None

    def get_design_inlet_water_temp_f(self):
        if self.climate_zone is not None:
            return self.climate_zone.get_design_inlet_water_temp_f()
        return None


_MONTH_START_DAY = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
_CLIMATE_DATA_PKG = 'ecoengine.data.climate_data'

def _open_climate_csv(filename: str):
    return (pkg_resources.files(_CLIMATE_DATA_PKG) / filename).open('r', newline='')

def _day_of_year_to_month(day_of_year: int):
    for month in range(11, -1, -1):
        if day_of_year >= _MONTH_START_DAY[month]:
            return month
    return 0

class ClimateZone:

    def __init__(self, zone_id: int | None, oat_f_by_hour: list[float] | None, inlet_water_temp_f_by_month: list[float] | None, constant_oat_f: float | None=None, constant_inlet_water_temp_f: float | None=None):
        self.zone_id = zone_id
        self._oat_f_by_hour = oat_f_by_hour
        self._inlet_water_temp_f_by_month = inlet_water_temp_f_by_month
        self._constant_oat_f = constant_oat_f
        self._constant_inlet_water_temp_f = constant_inlet_water_temp_f

    @classmethod
    def from_zip_code(cls, zip_code: str | int):
        zone_id = cls._lookup_zone_for_zip(zip_code)
        return cls.from_zone_id(zone_id)

    @classmethod
    def from_weather_station(cls, station_id: str):
        zone_id = cls._lookup_zone_for_station(station_id)
        return cls.from_zone_id(zone_id)

    @classmethod
    def from_zone_id(cls, zone_id: int):
        oat_f_by_hour = cls._load_oat_data(zone_id)
        inlet_water_temp_f_by_month = cls._load_inlet_water_data(zone_id)
        return cls(zone_id, oat_f_by_hour, inlet_water_temp_f_by_month)

    @classmethod
    def _from_zone_id(cls, zone_id: int):
        return cls.from_zone_id(zone_id)

    @classmethod
    def from_design_conditions(cls, design_oat_f: float | None=None, design_inlet_water_temp_f: float | None=None):
        return cls(zone_id=None, oat_f_by_hour=None, inlet_water_temp_f_by_month=None, constant_oat_f=design_oat_f, constant_inlet_water_temp_f=design_inlet_water_temp_f)

    def get_oat_f(self, timestep_interval: int, interval_min: int=1):
        if self._constant_oat_f is not None:
            return self._constant_oat_f
        actual_minute = timestep_interval * interval_min
        hour_of_year = actual_minute // 60 % len(self._oat_f_by_hour)
        return self._oat_f_by_hour[hour_of_year]

    def get_inlet_water_temp_f(self, timestep_interval: int, interval_min: int=1):
        if self._constant_inlet_water_temp_f is not None:
            return self._constant_inlet_water_temp_f
        actual_minute = timestep_interval * interval_min
        day_of_year = actual_minute // (60 * 24) % 365
        month = _day_of_year_to_month(day_of_year)
        return self._inlet_water_temp_f_by_month[month]

    def get_design_oat_f(self):
        if self._constant_oat_f is not None:
            return self._constant_oat_f
        return min(self._oat_f_by_hour)

    def get_design_inlet_water_temp_f(self):
        if self._constant_inlet_water_temp_f is not None:
            return self._constant_inlet_water_temp_f
        return min(self._inlet_water_temp_f_by_month)

    def get_oat_buckets(self):
        if self._oat_f_by_hour is None:
            raise ValueError('get_oat_buckets() requires real hourly OAT data. This ClimateZone was constructed from design conditions and has no annual weather data to bucket.')
        buckets: dict[float, int] = {}
        for day in range(365):
            start = day * 24
            daily_avg = sum(self._oat_f_by_hour[start:start + 24]) / 24.0
            bucket = float(daily_avg // 5 * 5)
            buckets[bucket] = buckets.get(bucket, 0) + 1
        return buckets

    @classmethod
    def _lookup_zone_for_zip(cls, zip_code: str | int):
        zip_str = str(zip_code).strip()
        with _open_climate_csv('ZipCode_ClimateZone_Lookup.csv') as f:
            reader = csv.DictReader(f)
            for row in reader:
                if row['Zip Code'].strip() == zip_str:
                    return int(row['Building CZ'])
        raise ValueError(f"Zip code '{zip_code}' was not found in the CA climate zone lookup. Only California zip codes are supported.")

    @classmethod
    def _lookup_zone_for_station(cls, station_id: str):
        station_str = str(station_id).strip()
        with _open_climate_csv('WeatherStation_ClimateZone_Lookup.csv') as f:
            reader = csv.DictReader(f)
            for row in reader:
                if row['Weather Station'].strip() == station_str:
                    return int(row['Building CZ'])
        raise ValueError(f"Weather station '{station_id}' was not found in the lookup table.")

    @classmethod
    def _load_oat_data(cls, zone_id: int):
        col_index = zone_id - 1
        oat_values = []
        with _open_climate_csv('DryBulbTemperatures_ByClimateZone.csv') as f:
            reader = csv.reader(f)
            next(reader)
            for row in reader:
                oat_values.append(float(row[col_index]))
        return oat_values

    @classmethod
    def _load_inlet_water_data(cls, zone_id: int):
        col_index = zone_id - 1
        monthly_temps = []
        with _open_climate_csv('InletWaterTemperatures_ByClimateZone.csv') as f:
            reader = csv.reader(f)
            next(reader)
            for row in reader:
                monthly_temps.append(float(row[col_index]))
        return monthly_temps


_MONTH_HOUR_START = [0, 744, 1416, 2160, 2880, 3624, 4344, 5088, 5832, 6552, 7296, 8016, 8760]
_MONTH_NAMES = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December']

def _hour_to_month(hour_of_year: int):
    for m in range(11, -1, -1):
        if hour_of_year >= _MONTH_HOUR_START[m]:
            return m
    return 0

def _is_hour_in_range(hour_of_day: int, start: int | float | None, end: int | float | None):
    if start is None or end is None:
        return False
    if end < start:
        return hour_of_day >= start or hour_of_day < end
    return start <= hour_of_day < end

def _validate_params(monthly_base_charge, pk_start_hour: list, pk_end_hour: list, pk_demand_charge: list, pk_energy_charge: list, off_pk_demand_charge: list, off_pk_energy_charge: list, start_month: list, end_month: list):
    if monthly_base_charge is None or not isinstance(monthly_base_charge, (int, float)):
        raise ValueError('Error: monthly base charge must be a number.')
    n = len(pk_start_hour)
    if not len(pk_end_hour) == len(pk_demand_charge) == len(pk_energy_charge) == len(off_pk_demand_charge) == len(off_pk_energy_charge) == len(start_month) == len(end_month) == n:
        raise ValueError('Error: pk_start_hour, pk_end_hour, pk_demand_charge, pk_energy_charge, off_pk_demand_charge, and off_pk_energy_charge must all be the same length.')
    for i in range(n):
        if pk_start_hour[i] is None or not isinstance(pk_start_hour[i], (int, float)) or pk_start_hour[i] < 0 or (pk_start_hour[i] > 23):
            raise ValueError('Error: peak start hour must be a number between 0 and 23.')
        if pk_end_hour[i] is None or not isinstance(pk_end_hour[i], (int, float)) or pk_end_hour[i] < pk_start_hour[i] or (pk_end_hour[i] > 24):
            raise ValueError('Error: peak end hour must be a number between peak start hour and 24.')
        if pk_demand_charge[i] is None or not isinstance(pk_demand_charge[i], (int, float)):
            raise ValueError('Error: peak demand charge must be a number.')
        if off_pk_demand_charge[i] is None or not isinstance(off_pk_demand_charge[i], (int, float)):
            raise ValueError('Error: off-peak demand charge must be a number.')
        if pk_energy_charge[i] is None or not isinstance(pk_energy_charge[i], (int, float)):
            raise ValueError('Error: peak energy charge must be a number.')
        if off_pk_energy_charge[i] is None or not isinstance(off_pk_energy_charge[i], (int, float)):
            raise ValueError('Error: off-peak energy charge must be a number.')
        if start_month[i] is None or not isinstance(start_month[i], int):
            raise ValueError('Error: start_month must be a number between 0 and 11.')
        if i == 0:
            if start_month[i] != 0:
                raise ValueError('Error: first start_month must be 0.')
        elif start_month[i] != end_month[i - 1]:
            raise ValueError('Error: current start_month must be equal to previous end month.')
        if end_month[i] is None or not isinstance(end_month[i], int) or end_month[i] <= start_month[i]:
            raise ValueError('Error: end_month must be a number between (start_month+1) - 12.')
        if i == len(end_month) - 1 and end_month[i] != 12:
            raise ValueError('Error: final end_month must be 12.')

def _fill_period_maps(demand_period_chart: list[int], demand_charge_map: dict[int, float], energy_charge_map: dict[int, float], is_peak_map: dict[int, bool], is_discount_map: dict[int, bool], off_pk_demand: float, pk_demand: float, off_pk_energy: float, pk_energy: float, pk_start: int | float, pk_end: int | float, start_month: int, end_month: int, dscnt_energy: float | None, dscnt_demand: float | None, dscnt_start: int | float | None, dscnt_end: int | float | None, include_discount: bool, num_periods: int):
    for m in range(start_month, end_month):
        off_key = m * num_periods
        pk_key = m * num_periods + 1
        dc_key = m * num_periods + 2
        demand_charge_map[off_key] = off_pk_demand
        energy_charge_map[off_key] = off_pk_energy
        is_peak_map[off_key] = False
        is_discount_map[off_key] = False
        demand_charge_map[pk_key] = pk_demand
        energy_charge_map[pk_key] = pk_energy
        is_peak_map[pk_key] = True
        is_discount_map[pk_key] = False
        if include_discount:
            demand_charge_map[dc_key] = dscnt_demand
            energy_charge_map[dc_key] = dscnt_energy
            is_peak_map[dc_key] = False
            is_discount_map[dc_key] = True
    for m in range(start_month, end_month):
        h_start = _MONTH_HOUR_START[m]
        h_end = _MONTH_HOUR_START[m + 1]
        off_key = m * num_periods
        pk_key = m * num_periods + 1
        dc_key = m * num_periods + 2
        for h in range(h_start, h_end):
            hod = h % 24
            if _is_hour_in_range(hod, pk_start, pk_end):
                demand_period_chart[h] = pk_key
            elif include_discount and _is_hour_in_range(hod, dscnt_start, dscnt_end):
                demand_period_chart[h] = dc_key
            else:
                demand_period_chart[h] = off_key

class UtilityCostTracker:

    def __init__(self, demand_period_chart: list[int], demand_charge_map: dict[int, float], energy_charge_map: dict[int, float], is_peak_map: dict[int, bool], is_discount_map: dict[int, bool], monthly_base_charge: float, energy_charge_by_hour: list[float] | None=None, include_discount: bool=False):
        self.demand_period_chart = demand_period_chart
        self.demand_charge_map = demand_charge_map
        self.energy_charge_map = energy_charge_map
        self.is_peak_map = is_peak_map
        self.is_discount_map = is_discount_map
        self.monthly_base_charge = monthly_base_charge
        self.energy_charge_by_hour: list[float] = energy_charge_by_hour or []
        self.include_discount = include_discount

    @classmethod
    def from_params(cls, monthly_base_charge: float, pk_start_hour, pk_end_hour, pk_demand_charge, pk_energy_charge, off_pk_demand_charge, off_pk_energy_charge, start_month=0, end_month=12, include_discount: bool=False, dscnt_start_hour=None, dscnt_end_hour=None, discnt_demand_charge=None, discnt_energy_charge=None):

        def _to_list(v, n: int | None=None):
            if isinstance(v, list):
                return v
            return [v] if n is None else [v] * n
        pk_start_hour = _to_list(pk_start_hour)
        n = len(pk_start_hour)
        pk_end_hour = _to_list(pk_end_hour)
        pk_demand_charge = _to_list(pk_demand_charge)
        pk_energy_charge = _to_list(pk_energy_charge)
        off_pk_demand_charge = _to_list(off_pk_demand_charge)
        off_pk_energy_charge = _to_list(off_pk_energy_charge)
        start_month = _to_list(start_month)
        end_month = _to_list(end_month)
        dscnt_start_hour = _to_list(dscnt_start_hour, n)
        dscnt_end_hour = _to_list(dscnt_end_hour, n)
        discnt_demand_charge = _to_list(discnt_demand_charge, n)
        discnt_energy_charge = _to_list(discnt_energy_charge, n)
        _validate_params(monthly_base_charge, pk_start_hour, pk_end_hour, pk_demand_charge, pk_energy_charge, off_pk_demand_charge, off_pk_energy_charge, start_month, end_month)
        num_periods = 3 if include_discount else 2
        demand_period_chart = [0] * 8760
        demand_charge_map = {}
        energy_charge_map = {}
        is_peak_map = {}
        is_discount_map = {}
        for i in range(n):
            _fill_period_maps(demand_period_chart, demand_charge_map, energy_charge_map, is_peak_map, is_discount_map, off_pk_demand_charge[i], pk_demand_charge[i], off_pk_energy_charge[i], pk_energy_charge[i], pk_start_hour[i], pk_end_hour[i], start_month[i], end_month[i], discnt_energy_charge[i], discnt_demand_charge[i], dscnt_start_hour[i], dscnt_end_hour[i], include_discount, num_periods)
        return cls(demand_period_chart=demand_period_chart, demand_charge_map=demand_charge_map, energy_charge_map=energy_charge_map, is_peak_map=is_peak_map, is_discount_map=is_discount_map, monthly_base_charge=monthly_base_charge, include_discount=include_discount)

    @classmethod
    def from_csv(cls, csv_path: str | None=None, csv_file: TextIOWrapper | None=None):
        if csv_path is None and csv_file is None:
            raise ValueError('Either csv_path or csv_file must be provided.')
        opened_here = False
        if csv_file is None:
            csv_file = open(csv_path, 'r', newline='')
            opened_here = True
        try:
            reader = csv.reader(csv_file)
            header = next(reader)
            rows = list(reader)
        finally:
            if opened_here:
                csv_file.close()
        if len(rows) != 8760:
            raise ValueError(f'Error: length of utility calculation csv must be 8760. Instead recieved a length of {len(rows)}.')
        required = ['Energy Rate ($/kWh)', 'Demand Rate ($/kW)', 'Demand Period', 'Monthly Base Charge']
        missing = [c for c in required if c not in header]
        if missing:
            raise ValueError(f'Missing Columns from utility calculation csv: {missing}.')
        energy_idx = header.index('Energy Rate ($/kWh)')
        demand_idx = header.index('Demand Rate ($/kW)')
        period_idx = header.index('Demand Period')
        base_idx = header.index('Monthly Base Charge')
        try:
            monthly_base_charge = float(rows[0][base_idx])
        except (ValueError, IndexError):
            raise ValueError('Unable to read value in row 0 of csv. Please check values for Monthly Base Charge in this row.')
        demand_period_chart = [0] * 8760
        demand_charge_map = {}
        energy_charge_map = {}
        is_peak_map = {}
        is_discount_map = {}
        energy_charge_by_hour = []
        for i, row in enumerate(rows):
            try:
                period = int(row[period_idx])
            except (ValueError, IndexError):
                raise ValueError(f'Unable to read value in row {i} of csv. Please check values for Energy Rate ($/kWh), Demand Rate ($/kW), and Demand Period in this row.')
            demand_period_chart[i] = period
            energy_str = row[energy_idx] if energy_idx < len(row) else ''
            if not energy_str:
                if period not in energy_charge_map:
                    raise ValueError(f"Missing 'Energy Rate ($/kWh)' in row {i} of csv.")
                energy_charge_by_hour.append(energy_charge_map[period])
            else:
                try:
                    energy_charge_by_hour.append(float(energy_str))
                except ValueError:
                    raise ValueError(f'Unable to read value in row {i} of csv. Please check values for Energy Rate ($/kWh), Demand Rate ($/kW), and Demand Period in this row.')
            if period not in demand_charge_map:
                demand_str = row[demand_idx] if demand_idx < len(row) else ''
                try:
                    demand_charge_map[period] = float(demand_str)
                    energy_charge_map[period] = float(energy_str)
                except ValueError:
                    raise ValueError(f'Unable to read value in row {i} of csv. Please check values for Energy Rate ($/kWh), Demand Rate ($/kW), and Demand Period in this row.')
                is_peak_map[period] = period % 2 == 1
                is_discount_map[period] = False
        return cls(demand_period_chart=demand_period_chart, demand_charge_map=demand_charge_map, energy_charge_map=energy_charge_map, is_peak_map=is_peak_map, is_discount_map=is_discount_map, monthly_base_charge=monthly_base_charge, energy_charge_by_hour=energy_charge_by_hour)

    def get_energy_charge_at_step(self, step: int, timestep_min: int):
        hour_of_year = math.floor(step / (60.0 / timestep_min))
        if len(self.energy_charge_by_hour) == 8760:
            return self.energy_charge_by_hour[hour_of_year]
        period = self.demand_period_chart[hour_of_year]
        return self.energy_charge_map[period]

    def get_demand_period_at_step(self, step: int, timestep_min: int):
        hour_of_year = math.floor(step / (60.0 / timestep_min))
        return self.demand_period_chart[hour_of_year]

    def get_demand_charge_for_period(self, period_key: int, max_kw: float):
        if period_key not in self.demand_charge_map:
            raise ValueError(f'{period_key} is not a defined demand period for the utility calculation.')
        return self.demand_charge_map[period_key] * max_kw

    def get_all_demand_period_keys(self):
        return list(self.demand_charge_map.keys())

    def get_yearly_base_charge(self):
        return self.monthly_base_charge * 12.0

    def to_csv(self, csv_path: str):
        header = ['Date', 'Demand Period', 'Energy Rate ($/kWh)', 'Demand Rate ($/kW)', 'Monthly Base Charge']
        seen_periods: set[int] = set()
        month = 0
        day = 1
        with open(csv_path, 'w', newline='') as f:
            writer = csv.writer(f)
            writer.writerow(header)
            for h in range(8760):
                if h > 0 and h == _MONTH_HOUR_START[month + 1]:
                    month += 1
                    day = 1
                elif h != 0 and h % 24 == 0:
                    day += 1
                date_str = f'{_MONTH_NAMES[month]} {day}, {h % 24:02d}:00'
                period = self.demand_period_chart[h]
                if period not in seen_periods:
                    energy_rate = self.energy_charge_map.get(period, '')
                    demand_rate = self.demand_charge_map.get(period, '')
                    seen_periods.add(period)
                else:
                    energy_rate = ''
                    demand_rate = ''
                if len(self.energy_charge_by_hour) == 8760:
                    energy_rate = self.energy_charge_by_hour[h]
                base_charge = self.monthly_base_charge if h == 0 else ''
                writer.writerow([date_str, period, energy_rate, demand_rate, base_charge])
