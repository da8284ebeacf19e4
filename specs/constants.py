# Physical constants of the model.
_RHO_CP = 8.353535          # volumetric heat capacity of water, BTU / (gal F)
_W_TO_KBTUH = 3.412142      # 1 kW = 3.412142 kBTU/h
