# Configurations that are declared but not implemented: they do nothing.
class MPNoRecircSystem:
    def __init__(self, water_heaters, storage_tank, supply_temp_f, storage_temp_f):
        super().__init__(water_heaters, storage_tank, supply_temp_f, storage_temp_f)

    def size(self, building):
        pass

    def simulate_step(self, building, timestep_min, mode='normal'):
        pass


class SP_RTPInParallelSystem:
    def size(self, building):
        pass

    def simulate_step(self, building, timestep_min, mode='normal'):
        pass


class SP_RTPInSeriesSystem:
    def size(self, building):
        pass

    def simulate_step(self, building, timestep_min, mode='normal'):
        pass


class MP_RTPInSeriesSystem:
    def size(self, building):
        pass

    def simulate_step(self, building, timestep_min, mode='normal'):
        pass
