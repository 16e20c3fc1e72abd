SPECIFICATION Spec
CONSTANTS Ks = 3 Kn = 4 MuNum = 1 MuDen = 2 MaxUn = 4 MaxDu = 4 MaxF = 8
INVARIANTS Coulomb NoContactNoForce Elastic
PROPERTIES Dissipates
CHECK_DEADLOCK FALSE
