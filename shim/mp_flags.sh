# sets MP_INC: include flags of apps/multiphysics, and MP_SRC: its sources (without main.cpp)
MPROOT=${MPROOT:-/repo/apps/multiphysics/src}
MP_INC="-I/verif/shim/include -I$MPROOT"
for d in material_models/artificial_viscosity material_models/eos material_models/erosion material_models/fracture material_models/strength material_models/equilibration material_models/equilibration/include material_models/tabular/include boundary_conditions/velocity boundary_conditions/temperature boundary_conditions/stress common/include common/src input Solvers/SGH_solver_3D/include Solvers/SGH_solver_rz/include Solvers/SGTM_solver_3D/include Solvers/level_set_solver/include Solvers/TLQS_solver_3D/include; do MP_INC="$MP_INC -I$MPROOT/$d"; done
