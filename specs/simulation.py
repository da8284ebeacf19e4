

_ANNUAL_DURATION_MIN = 365 * 24 * 60
_DAYS_IN_MONTH = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
_MONTH_HOUR_START_SR: list[int] = [0]
for _d in _DAYS_IN_MONTH:
    _MONTH_HOUR_START_SR.append(_MONTH_HOUR_START_SR[-1] + _d * 24)
del _d

def _step_to_month(step: int, timestep_min: int):
    hour = step * timestep_min // 60
    for m in range(11, -1, -1):
        if hour >= _MONTH_HOUR_START_SR[m]:
            return m
    return 0
_TANK_NODE_FRACTS = [0.0, 0.2, 0.4, 0.6, 0.8, 1.0]
_TANK_NODE_LABELS = ['Tank 0% (bottom)', 'Tank 20%', 'Tank 40%', 'Tank 60%', 'Tank 80%', 'Tank 100% (top)']
_TANK_NODE_COLORS = ['#003f88', '#0077b6', '#00b4d8', '#f4a261', '#e76f51', '#9b2226']

class SimulationRun:

    def __init__(self, duration_min: int, timestep_min: int, outlet_deficit_threshold_f: float=5.0, outlet_deficit_max_min: int=10):
        self.duration_min = duration_min
        self.timestep_min = timestep_min
        self.num_steps = duration_min // timestep_min
        self.dhw_demand_supplyT_gal: list[float] = []
        self.usable_volume_supplyT_gal: list[float] = []
        self.heater_output_kbtuh: list[float] = []
        self.heater_power_in_kw: list[float | None] = []
        self.oat_f: list[float] = []
        self.inlet_water_temp_f: list[float] = []
        self.heater_mode: list[str] = []
        self.tank_temps_f: list[list[float]] = [[] for _ in _TANK_NODE_FRACTS]
        self.tm_tank_temp_f: list[float] = []
        self.tm_heater_output_kbtuh: list[float] = []
        self.tm_heater_input_kw: list[float] = []
        self.outage_minutes: int = 0
        self.supply_temp_f: float | None = None
        self.show_tm_panel: bool = False
        self.outlet_deficit_threshold_f = outlet_deficit_threshold_f
        self.outlet_deficit_max_min = outlet_deficit_max_min
        self._outlet_deficit_consec_min = 0
        self.stopped_early: bool = False

    def record_timestep(self, dhw_demand_supplyT_gal: float, usable_volume_supplyT_gal: float, heater_output_kbtuh: float, heater_power_in_kw: float | None, oat_f: float, inlet_water_temp_f: float, tank_temps_f: list[float], mode: str='normal', tm_tank_temp_f: float | None=None, tm_heater_output_kbtuh: float | None=None, tm_heater_input_kw: float | None=None):
        self.dhw_demand_supplyT_gal.append(dhw_demand_supplyT_gal)
        self.usable_volume_supplyT_gal.append(usable_volume_supplyT_gal)
        self.heater_output_kbtuh.append(heater_output_kbtuh)
        self.heater_power_in_kw.append(heater_power_in_kw)
        self.oat_f.append(oat_f)
        self.inlet_water_temp_f.append(inlet_water_temp_f)
        self.heater_mode.append(mode)
        for node_idx, temp in enumerate(tank_temps_f):
            self.tank_temps_f[node_idx].append(temp)
        if tm_tank_temp_f is not None:
            self.tm_tank_temp_f.append(tm_tank_temp_f)
        if tm_heater_output_kbtuh is not None:
            self.tm_heater_output_kbtuh.append(tm_heater_output_kbtuh)
        if tm_heater_input_kw is not None or tm_heater_output_kbtuh is not None:
            self.tm_heater_input_kw.append(tm_heater_input_kw)

    def check_outlet_deficit(self, top_tank_temp_f: float, supply_temp_f: float):
        if top_tank_temp_f < supply_temp_f - self.outlet_deficit_threshold_f:
            self._outlet_deficit_consec_min += self.timestep_min
            if self._outlet_deficit_consec_min > self.outlet_deficit_max_min:
                self.stopped_early = True
                return True
        else:
            self._outlet_deficit_consec_min = 0
        return False

    def record_outage(self, duration_min: int):
        self.outage_minutes += duration_min

    def is_successful(self, max_outage_min: int=0):
        return self.outage_minutes <= max_outage_min

    def get_failure_message(self):
        if self.is_successful():
            return 'Simulation succeeded: no DHW outage detected.'
        outage_steps = [i for i, v in enumerate(self.usable_volume_supplyT_gal) if v <= 0.0]
        if not outage_steps:
            return f'Simulation failed: system was undersized. DHW outage occurred for {self.outage_minutes} minutes.'
        first_step = outage_steps[0]
        day = first_step * self.timestep_min // (24 * 60) + 1
        if self.show_tm_panel and self.tm_tank_temp_f:
            delivery_temps = self.tm_tank_temp_f
        else:
            delivery_temps = self.tank_temps_f[5]
        avg_delivery_temp = sum((delivery_temps[i] for i in outage_steps)) / len(outage_steps)
        return f'Simulation failed: system was undersized. DHW outage occurred for {self.outage_minutes} minutes on day {day} of the simulation with an average delivered water temperature of {avg_delivery_temp:.1f}°F.'

    def get_total_energy_kwh(self):
        hours_per_step = self.timestep_min / 60.0
        primary_kwh = sum(((p or 0.0) * hours_per_step for p in self.heater_power_in_kw))
        tm_kwh = sum(((p or 0.0) * hours_per_step for p in self.tm_heater_input_kw))
        return primary_kwh + tm_kwh

    def get_peak_demand_kw(self):
        non_none = [p for p in self.heater_power_in_kw if p is not None]
        for i, tm_kw in enumerate(self.tm_heater_input_kw[:len(self.heater_power_in_kw)]):
            if tm_kw is not None:
                non_none.append((self.heater_power_in_kw[i] or 0.0) + tm_kw)
        return max(non_none) if non_none else 0.0

    def get_summary(self):
        return {'successful': self.is_successful(), 'total_outage_min': self.outage_minutes, 'total_energy_kwh': self.get_total_energy_kwh(), 'peak_demand_kw': self.get_peak_demand_kw(), 'num_steps_recorded': len(self.dhw_demand_supplyT_gal), 'stopped_early': self.stopped_early}

    def to_csv(self, filepath: str):
        import csv as _csv
        n = len(self.dhw_demand_supplyT_gal)
        tank_col_names = [f'tank_temp_{int(f * 100)}pct' for f in _TANK_NODE_FRACTS]
        with open(filepath, 'w', newline='') as f:
            writer = _csv.writer(f)
            writer.writerow(['timestep', 'time_min', 'dhw_demand_supplyT_gal', 'usable_volume_supplyT_gal', 'heater_output_kbtuh', 'heater_power_in_kw', 'oat_f', 'inlet_water_temp_f', *tank_col_names])
            for i in range(n):
                writer.writerow([i, i * self.timestep_min, self.dhw_demand_supplyT_gal[i], self.usable_volume_supplyT_gal[i], self.heater_output_kbtuh[i], self.heater_power_in_kw[i], self.oat_f[i], self.inlet_water_temp_f[i], *(self.tank_temps_f[node][i] for node in range(len(_TANK_NODE_FRACTS)))])

    def to_plotly(self, title: str='Simulation Results', filepath: str | None=None, include_temperatures: bool=False):
        try:
            import plotly.graph_objects as go
            from plotly.subplots import make_subplots
        except ImportError:
            raise ImportError('plotly is required for to_plotly(). Install it with: pip install plotly')
        time_min = [i * self.timestep_min for i in range(len(self.dhw_demand_supplyT_gal))]
        has_tm = self.show_tm_panel
        if has_tm:
            fig = make_subplots(rows=2, cols=1, specs=[[{'secondary_y': True}], [{'secondary_y': True}]], shared_xaxes=True, vertical_spacing=0.18, row_heights=[0.65, 0.35], subplot_titles=['Primary System', 'Temperature Maintenance (TM)'])
        else:
            fig = make_subplots(specs=[[{'secondary_y': True}]])
        steps_per_hour = 60 / self.timestep_min
        fig.add_trace(go.Scatter(x=time_min, y=self.usable_volume_supplyT_gal, name='Usable Volume (gal at or above Supply Temp)', line=dict(color='green', width=1.5)), secondary_y=False, **{} if not has_tm else {'row': 1, 'col': 1})
        hourly_demand = [v * steps_per_hour for v in self.dhw_demand_supplyT_gal]
        fig.add_trace(go.Scatter(x=time_min, y=hourly_demand, name='DHW Demand (gal/hr at Supply Temp)', line=dict(color='blue', width=1)), secondary_y=False, **{} if not has_tm else {'row': 1, 'col': 1})
        if self.supply_temp_f is not None:
            heater_gph = [kbtuh * 1000.0 / (_RHO_CP * max(1.0, self.supply_temp_f - inlet_t)) for kbtuh, inlet_t in zip(self.heater_output_kbtuh, self.inlet_water_temp_f)]
            fig.add_trace(go.Scatter(x=time_min, y=heater_gph, name='Heater Generation (gal/hr at Supply Temperature)', line=dict(color='red', width=1)), secondary_y=False, **{} if not has_tm else {'row': 1, 'col': 1})
        if include_temperatures:
            fig.add_trace(go.Scatter(x=time_min, y=self.oat_f, name='OAT (°F)', line=dict(color='orange', width=1)), secondary_y=True, **{} if not has_tm else {'row': 1, 'col': 1})
            fig.add_trace(go.Scatter(x=time_min, y=self.inlet_water_temp_f, name='Inlet Water (°F)', line=dict(color='steelblue', width=1)), secondary_y=True, **{} if not has_tm else {'row': 1, 'col': 1})
            for label, color, temps in zip(_TANK_NODE_LABELS, _TANK_NODE_COLORS, self.tank_temps_f):
                if not temps:
                    continue
                fig.add_trace(go.Scatter(x=time_min, y=temps, name=label, line=dict(color=color, width=1, dash='dash')), secondary_y=True, **{} if not has_tm else {'row': 1, 'col': 1})
        if has_tm:
            tm_time = [i * self.timestep_min for i in range(len(self.tm_tank_temp_f))]
            fig.add_trace(go.Scatter(x=tm_time, y=self.tm_heater_output_kbtuh, name='TM Heater Output (kBTU/hr)', line=dict(color='darkorange', width=1), fill='tozeroy', fillcolor='rgba(255,165,0,0.15)'), secondary_y=False, row=2, col=1)
            fig.add_trace(go.Scatter(x=tm_time, y=self.tm_tank_temp_f, name='Swing Tank Temp (°F)', line=dict(color='purple', width=1.5)), secondary_y=True, row=2, col=1)
        if self.heater_mode:
            _LS_COLORS = {'shed': 'rgba(0,0,255,0.2)', 'loadUp': 'rgba(0,200,0,0.2)'}
            _LS_LEGEND_ADDED: set[str] = set()
            i = 0
            n = len(self.heater_mode)
            while i < n:
                m = self.heater_mode[i]
                if m in _LS_COLORS:
                    j = i + 1
                    while j < n and self.heater_mode[j] == m:
                        j += 1
                    x0 = time_min[i]
                    x1 = time_min[j - 1] + self.timestep_min
                    label = 'Shed' if m == 'shed' else 'Load-Up'
                    fig.add_vrect(x0=x0, x1=x1, fillcolor=_LS_COLORS[m], layer='below', line_width=0, annotation_text='' if m in _LS_LEGEND_ADDED else label, annotation_position='top left', annotation_font_size=10)
                    _LS_LEGEND_ADDED.add(m)
                    i = j
                else:
                    i += 1
        fig.update_xaxes(title_text='Time (minutes)', row=2 if has_tm else 1)
        if has_tm:
            fig.update_yaxes(title_text='Volume (gal) / Flow Rate (gal/hr)', secondary_y=False, row=1, col=1)
            if include_temperatures:
                fig.update_yaxes(title_text='Temperature (°F)', secondary_y=True, row=1, col=1)
            fig.update_yaxes(title_text='TM Output (kBTU/hr)', secondary_y=False, row=2, col=1)
            fig.update_yaxes(title_text='Swing Tank Temp (°F)', secondary_y=True, row=2, col=1)
        else:
            fig.update_yaxes(title_text='Volume (gal) / Flow Rate (gal/hr)', secondary_y=False)
            if include_temperatures:
                fig.update_yaxes(title_text='Temperature (°F)', secondary_y=True)
        fig.update_layout(title_text=title, **{'height': 950} if has_tm else {}, legend=dict(orientation='h', yanchor='top', y=-0.25, xanchor='center', x=0.5, bgcolor='rgba(255,255,255,0.8)', bordercolor='rgba(0,0,0,0.2)', borderwidth=1), margin=dict(b=160))
        if filepath is not None:
            fig.write_html(filepath)
        return fig

    def get_annual_utility_cost(self, uc):
        hours_per_step = self.timestep_min / 60.0
        energy_cost = 0.0
        max_kw_by_period: dict[int, float] = {}
        for i, kw_raw in enumerate(self.heater_power_in_kw):
            kw = kw_raw or 0.0
            if self.tm_heater_input_kw and i < len(self.tm_heater_input_kw):
                kw += self.tm_heater_input_kw[i] or 0.0
            rate = uc.get_energy_charge_at_step(i, self.timestep_min)
            energy_cost += kw * hours_per_step * rate
            period = uc.get_demand_period_at_step(i, self.timestep_min)
            if period not in max_kw_by_period or kw > max_kw_by_period[period]:
                max_kw_by_period[period] = kw
        demand_cost = sum((uc.get_demand_charge_for_period(p, max_kw) for p, max_kw in max_kw_by_period.items()))
        return energy_cost + demand_cost + uc.get_yearly_base_charge()

    def get_monthly_cost_breakdown(self, uc):
        hours_per_step = self.timestep_min / 60.0
        energy_by_month = [0.0] * 12
        max_kw_by_period: dict[int, float] = {}
        month_by_period: dict[int, int] = {}
        for i, kw_raw in enumerate(self.heater_power_in_kw):
            kw = kw_raw or 0.0
            if self.tm_heater_input_kw and i < len(self.tm_heater_input_kw):
                kw += self.tm_heater_input_kw[i] or 0.0
            rate = uc.get_energy_charge_at_step(i, self.timestep_min)
            month = _step_to_month(i, self.timestep_min)
            energy_by_month[month] += kw * hours_per_step * rate
            period = uc.get_demand_period_at_step(i, self.timestep_min)
            if period not in max_kw_by_period or kw > max_kw_by_period[period]:
                max_kw_by_period[period] = kw
                month_by_period[period] = month
        demand_by_month = [0.0] * 12
        for period, max_kw in max_kw_by_period.items():
            m = month_by_period[period]
            demand_by_month[m] += uc.get_demand_charge_for_period(period, max_kw)
        return {'energy': energy_by_month, 'demand': demand_by_month, 'base': uc.monthly_base_charge}

    def get_monthly_cost_breakdown_detailed(self, uc):
        hours_per_step = self.timestep_min / 60.0
        energy_peak = [0.0] * 12
        energy_off_peak = [0.0] * 12
        max_kw_by_period: dict[int, float] = {}
        month_by_period: dict[int, int] = {}
        for i, kw_raw in enumerate(self.heater_power_in_kw):
            kw = kw_raw or 0.0
            if self.tm_heater_input_kw and i < len(self.tm_heater_input_kw):
                kw += self.tm_heater_input_kw[i] or 0.0
            period = uc.get_demand_period_at_step(i, self.timestep_min)
            rate = uc.get_energy_charge_at_step(i, self.timestep_min)
            month = _step_to_month(i, self.timestep_min)
            cost = kw * hours_per_step * rate
            if uc.is_peak_map.get(period, False):
                energy_peak[month] += cost
            else:
                energy_off_peak[month] += cost
            if period not in max_kw_by_period or kw > max_kw_by_period[period]:
                max_kw_by_period[period] = kw
                month_by_period[period] = month
        demand_peak = [0.0] * 12
        demand_off_peak = [0.0] * 12
        for period, max_kw in max_kw_by_period.items():
            m = month_by_period[period]
            charge = uc.get_demand_charge_for_period(period, max_kw)
            if uc.is_peak_map.get(period, False):
                demand_peak[m] += charge
            else:
                demand_off_peak[m] += charge
        return {'energy_peak': energy_peak, 'energy_off_peak': energy_off_peak, 'demand_peak': demand_peak, 'demand_off_peak': demand_off_peak, 'base': uc.monthly_base_charge}

    def get_monthly_energy_kwh(self):
        monthly = [0.0] * 12
        if self.duration_min != _ANNUAL_DURATION_MIN:
            return monthly
        hours_per_step = self.timestep_min / 60.0
        steps_per_day = 24 * 60 // self.timestep_min
        step = 0
        for month_idx, days in enumerate(_DAYS_IN_MONTH):
            n_steps = days * steps_per_day
            monthly[month_idx] = sum(((self.heater_power_in_kw[i] or 0.0) * hours_per_step for i in range(step, min(step + n_steps, len(self.heater_power_in_kw)))))
            monthly[month_idx] += sum(((self.tm_heater_input_kw[i] or 0.0) * hours_per_step for i in range(step, min(step + n_steps, len(self.tm_heater_input_kw)))))
            step += n_steps
        return monthly


THREE_DAY_DURATION_MIN = 3 * 24 * 60
ANNUAL_DURATION_MIN = 365 * 24 * 60
THREE_DAY_TIMESTEP_MIN = 1
ANNUAL_TIMESTEP_MIN = 10

def simulate(dhw_system: DHWSystem, building: Building, duration: str='3day', **sim_run_kwargs):
    if duration == '3day':
        duration_min = THREE_DAY_DURATION_MIN
        timestep_min = THREE_DAY_TIMESTEP_MIN
    elif duration == 'annual':
        duration_min = ANNUAL_DURATION_MIN
        timestep_min = ANNUAL_TIMESTEP_MIN
    else:
        raise ValueError(f"duration must be '3day' or 'annual', got {duration!r}")
    sim_run = SimulationRun(duration_min, timestep_min, **sim_run_kwargs)
    sim_run.show_tm_panel = isinstance(dhw_system, SwingSystem)
    inlet_temp_f = building.get_design_inlet_water_temp_f() or 50.0
    percent_useable = _initial_percent_useable(dhw_system)
    if dhw_system.storage_tank is not None:
        dhw_system.storage_tank.initialize(storage_temp_f=dhw_system.storage_temp_f, cold_temp_f=inlet_temp_f, percent_useable=percent_useable)
    tm_tank = getattr(dhw_system, 'tm_storage_tank', None)
    if tm_tank is not None:
        tm_off_temp_f = getattr(dhw_system, 'tm_off_temp_f', dhw_system.storage_temp_f)
        tm_tank.initialize(storage_temp_f=tm_off_temp_f, cold_temp_f=inlet_temp_f, percent_useable=1.0)
    for wh in dhw_system.water_heaters:
        wh.turn_off()
    tm_water_heater = getattr(dhw_system, 'tm_water_heater', None)
    if tm_water_heater is not None:
        tm_water_heater.turn_off()
    sim_run.supply_temp_f = dhw_system.supply_temp_f
    num_steps = duration_min // timestep_min
    for i in range(num_steps):
        step = dhw_system.simulate_step(building=building, timestep_interval=i, interval_min=timestep_min)
        sim_run.record_timestep(dhw_demand_supplyT_gal=step['demand_supplyT_gal'], usable_volume_supplyT_gal=step['usable_volume_supplyT_gal'], heater_output_kbtuh=step['heater_output_kbtuh'], heater_power_in_kw=step['heater_power_in_kw'], oat_f=step['oat_f'], inlet_water_temp_f=step['inlet_water_temp_f'], tank_temps_f=step['tank_temps_f'], mode=step.get('mode', 'normal'), tm_tank_temp_f=step.get('tm_tank_temp_f'), tm_heater_output_kbtuh=step.get('tm_heater_output_kbtuh'), tm_heater_input_kw=step.get('tm_heater_input_kw'))
        if step['usable_volume_supplyT_gal'] <= 0.0:
            sim_run.record_outage(timestep_min)
        delivery_temp_f = step.get('delivery_temp_f', step['tank_temps_f'][-1])
        if sim_run.check_outlet_deficit(delivery_temp_f, dhw_system.supply_temp_f):
            break
    return sim_run

def simulate_3day(dhw_system: DHWSystem, building: Building, **sim_run_kwargs):
    return simulate(dhw_system, building, duration='3day', **sim_run_kwargs)

def simulate_annual(dhw_system: DHWSystem, building: Building, **sim_run_kwargs):
    return simulate(dhw_system, building, duration='annual', **sim_run_kwargs)

def _initial_percent_useable(dhw_system: DHWSystem):
    for wh in dhw_system.water_heaters:
        if wh.control_map is None:
            continue
        ctrl = wh.control_map.get('normal') or next(iter(wh.control_map.values()), None)
        if ctrl is not None:
            return max(0.0, min(1.0, 1.0 - ctrl.on_sensor_fract))
    return 1.0
