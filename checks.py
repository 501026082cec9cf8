"""Which harness binaries and generators decide which property."""

APP_SOURCES = ["src/base/output.cc", "src/base/timer.cc",
               "src/grain_tracker/distributed_stitching.cc",
               "src/grid/grid_tools.cc", "inst.cc",
               "applications/sintering/src/csv_reader.cc",
               "applications/sintering/src/postprocessors.cc",
               "applications/sintering/src/tools.cc"]

BINS = {
    "dbv": dict(src=["h_dbv.cc"]),
}

CHECKS = {
    "V01": dict(
        jobs=[dict(bin="dbv", prop="dbv_model", quick=20000, thorough=400000),
              dict(bin="dbv", prop="dbv_model", np=3, quick=3000, thorough=60000)],
        rule="random operation histories over three block vectors against a dense model"),
}
BINS["time"] = dict(src=["h_time.cc"], app=["src/base/timer.cc"])
CHECKS["T01"] = dict(
        jobs=[dict(bin="time", prop="bdf_bookkeeping", quick=60000, thorough=1000000),
              dict(bin="time", prop="solution_history", quick=20000, thorough=400000),
              dict(bin="time", prop="explicit_stepping", quick=20000, thorough=400000)],
        rule="bdf_bookkeeping: at least one accepted step with order > 1 or a rejected one; solution_history: more than one accepted step; explicit_stepping: at least one differential equation")
BINS["geom"] = dict(src=["h_geom.cc"])
CHECKS["G01"] = dict(
        jobs=[dict(bin="geom", prop="ellipsoid", quick=16000, thorough=400000),
              dict(bin="geom", prop="ellipsoid_distance", quick=4000, thorough=100000),
              dict(bin="geom", prop="rigid_motion", quick=16000, thorough=400000)],
        rule="ellipsoid: the radii differ; ellipsoid_distance: bodies separated and not spherical; rigid_motion: more than one point mass")
CHECKS["G02"] = dict(
        jobs=[dict(bin="geom", prop="grains", quick=8000, thorough=200000)],
        rule="the case contains both overlapping and separated grain pairs")
BINS["ids"] = dict(src=["h_ids.cc"])
CHECKS["G03"] = dict(
        jobs=[dict(bin="ids", prop="transfer_ids", quick=40000, thorough=1000000)],
        rule="at least two new grains inherit an id")
CHECKS["G04"] = dict(
        jobs=[dict(bin="ids", prop="remap_order", quick=40000, thorough=1000000),
              dict(bin="ids", prop="periodic_groups", quick=20000, thorough=400000)],
        rule="remap_order: at least one remapping depends on another one; periodic_groups: a group of more than two particles")
BINS["track"] = dict(src=["h_track.cc"], app=["src/grain_tracker/distributed_stitching.cc", "src/base/timer.cc"])
CHECKS["G05"] = dict(
        jobs=[dict(bin="track", prop="stitching", quick=2000, thorough=20000, workers=1),
              dict(bin="track", prop="stitching", np=3, quick=3000, thorough=60000),
              dict(bin="track", prop="stitching", np=5, quick=1500, thorough=30000)],
        rule="at least three connections between pieces on different processes")
CHECKS["G06"] = dict(
        jobs=[dict(bin="track", prop="detection", quick=6000, thorough=100000),
              dict(bin="track", prop="detection", np=3, quick=2400, thorough=40000),
              dict(bin="track", prop="detection", np=4, quick=1200, thorough=20000),
              dict(bin="track", prop="large", quick=30, thorough=400)],
        rule="at least two particles were detected")
CHECKS["G07"] = dict(
        jobs=[dict(bin="track", prop="tracking", quick=8000, thorough=60000),
              dict(bin="track", prop="tracking", np=3, quick=2400, thorough=20000)],
        rule="at least one grain inherited its identity or was reassigned")
CHECKS["G08"] = dict(
        jobs=[dict(bin="track", prop="remapping", quick=8000, thorough=60000),
              dict(bin="track", prop="remapping", np=3, quick=2400, thorough=20000)],
        rule="at least one grain was moved to another field")
BINS["lac"] = dict(src=["h_lac.cc"], app=["src/base/timer.cc"])
CHECKS["N01"] = dict(
        jobs=[dict(bin="lac", prop="newton", quick=60000, thorough=1500000),
              dict(bin="lac", prop="newton_legacy", quick=20000, thorough=400000)],
        rule="a solve with at least two accepted iterations")
CHECKS["N02"] = dict(
        jobs=[dict(bin="lac", prop="linear_solvers", quick=20000, thorough=400000)],
        rule="a solve with more than one iteration")
CHECKS["N03"] = dict(
        jobs=[dict(bin="lac", prop="jacobian_free", quick=40000, thorough=1000000)],
        rule="a nonzero direction at a differentiable point of a system with several unknowns")
BINS["local"] = dict(src=["h_local.cc"])
CHECKS["F01"] = dict(
        jobs=[dict(bin="local", prop="free_energy", quick=400000, thorough=4000000)],
        rule="more than one grain")
CHECKS["F02"] = dict(
        jobs=[dict(bin="local", prop="mobility", quick=400000, thorough=4000000),
              dict(bin="local", prop="temperature", quick=400000, thorough=4000000)],
        rule="mobility: at least two grains and a grain boundary mobility; temperature: more than two given values")
OPF = ["-DMAX_SINTERING_GRAINS=3"]
BINS["op2"] = dict(src=["h_op.cc"], app=["src/grain_tracker/distributed_stitching.cc", "src/base/timer.cc", "applications/sintering/src/tools.cc"], flags=OPF + ["-DFE_DEGREE=1", "-DN_Q_POINTS_1D=2", "-DOPDIM=2"])
BINS["op3"] = dict(BINS["op2"], flags=OPF + ["-DFE_DEGREE=1", "-DN_Q_POINTS_1D=2", "-DOPDIM=3"])
BINS["opt"] = dict(BINS["op2"], flags=OPF + ["-DFE_DEGREE=2", "-DN_Q_POINTS_1D=3", "-DOPDIM=2", "-DWITH_TENSORIAL_MOBILITY"])
CHECKS["O01"] = dict(
        jobs=[dict(bin="op2", prop="residual", quick=6000, thorough=100000),
              dict(bin="op2", prop="residual", np=3, quick=2000, thorough=30000),
              dict(bin="op3", prop="residual", quick=2000, thorough=30000),
              dict(bin="opt", prop="residual", quick=2000, thorough=30000)],
        rule="more than one grain")
CHECKS["O02"] = dict(
        jobs=[dict(bin="op2", prop="tangent", quick=6000, thorough=100000),
              dict(bin="op2", prop="tangent", np=3, quick=2000, thorough=30000),
              dict(bin="op3", prop="tangent", quick=2000, thorough=30000),
              dict(bin="opt", prop="tangent", quick=2000, thorough=30000)],
        rule="more than one grain")
CHECKS["P01"] = dict(
        jobs=[dict(bin="op2", prop="integrals", quick=6000, thorough=100000),
              dict(bin="op2", prop="integrals", np=3, quick=2000, thorough=30000),
              dict(bin="op3", prop="integrals", quick=2000, thorough=30000),
              dict(bin="opt", prop="integrals", quick=1000, thorough=30000),
              dict(bin="op2", prop="fields", quick=4000, thorough=100000),
              dict(bin="op2", prop="fields", np=3, quick=1500, thorough=30000),
              dict(bin="op3", prop="fields", quick=1500, thorough=30000),
              dict(bin="opt", prop="fields", quick=1500, thorough=30000)],
        rule="more than one grain; integrals: a domain of integration that is not empty; fields: at least one field")
BINS["post2"] = dict(src=["h_post.cc"], app=["src/grain_tracker/distributed_stitching.cc", "src/base/timer.cc", "applications/sintering/src/tools.cc", "applications/sintering/src/postprocessors.cc"], flags=OPF + ["-DFE_DEGREE=1", "-DN_Q_POINTS_1D=2", "-DPOSTDIM=2"])
BINS["post3"] = dict(BINS["post2"], flags=OPF + ["-DFE_DEGREE=1", "-DN_Q_POINTS_1D=2", "-DPOSTDIM=3"])
CHECKS["P02"] = dict(
        jobs=[dict(bin=b, prop=p, np=np, quick=q, thorough=t)
              for p in ("surface_area", "boundary_area", "extents", "quality", "pores")
              for b, np, q, t in (("post2", 1, 2500, 60000), ("post2", 3, 1000, 20000), ("post3", 1, 800, 20000))] +
             [dict(bin="post2", prop="large_pores", quick=25, thorough=300), dict(bin="post3", prop="large_pores", quick=15, thorough=200),
              dict(bin="post2", prop="box_filter", quick=20000, thorough=200000), dict(bin="post3", prop="box_filter", quick=20000, thorough=200000)],
        rule="areas: a part of the surface in the domain (box); extents: a surface; quality: several fields; pores: more than one; box: a point inside")
CHECKS["O03"] = dict(
        jobs=[dict(bin="op2", prop="cut_off", quick=6000, thorough=100000),
              dict(bin="op2", prop="cut_off", np=3, quick=2000, thorough=30000),
              dict(bin="op3", prop="cut_off", quick=2000, thorough=30000),
              dict(bin="opt", prop="cut_off", quick=2000, thorough=30000)],
        rule="some but not all order parameters are skipped in some batches")

BINS["adv2"] = dict(BINS["op2"], src=["h_adv.cc"])
BINS["adv3"] = dict(BINS["op3"], src=["h_adv.cc"])
CHECKS["O04"] = dict(
        jobs=[dict(bin="adv2", prop="forces", quick=12000, thorough=200000),
              dict(bin="adv2", prop="forces", np=3, quick=3000, thorough=50000),
              dict(bin="adv3", prop="forces", quick=2400, thorough=40000)],
        rule="some segment experiences a force")

CHECKS["O05"] = dict(
        jobs=[dict(bin="op2", prop="block_operators", quick=6000, thorough=100000),
              dict(bin="op2", prop="block_operators", np=3, quick=2000, thorough=30000),
              dict(bin="op3", prop="block_operators", quick=1500, thorough=30000),
              dict(bin="opt", prop="block_operators", quick=2000, thorough=30000)],
        rule="more than one grain")
BINS["gg2"] = dict(BINS["op2"], src=["h_gg.cc"])
CHECKS["O06"] = dict(
        jobs=[dict(bin="gg2", prop="grain_growth", quick=6000, thorough=100000),
              dict(bin="gg2", prop="grain_growth", np=3, quick=1500, thorough=30000)],
        rule="more than one grain")
CHECKS["O07"] = dict(
        jobs=[dict(bin="gg2", prop="grand_potential", quick=6000, thorough=100000),
              dict(bin="gg2", prop="grand_potential_energy", quick=40000, thorough=400000),
              dict(bin="gg2", prop="grand_potential", np=3, quick=1500, thorough=30000)],
        rule="more than one grain")
BINS["init"] = dict(src=["h_init.cc"], app=["applications/sintering/src/csv_reader.cc"])
CHECKS["I01"] = dict(
        jobs=[dict(bin="init", prop="packings", quick=100000, thorough=500000),
              dict(bin="init", prop="particle_files", quick=10000, thorough=200000)],
        rule="packings: at least one pair of particles in contact (cloud) or more than two particles; particle_files: more than one particle")
CHECKS["I02"] = dict(
        jobs=[dict(bin="init", prop="microstructures", quick=100000, thorough=500000)],
        rule="more than one grain")

# the shipped applications, run as a user runs them
SIM = ["-DSIM_LIB", "-DMAX_SINTERING_GRAINS=4"]
BINS["sim2"] = dict(src=[], nomain=True, flags=[*SIM, "-DSINTERING_DIM=2"],
                    app=["applications/sintering/sintering_generic.cc", *APP_SOURCES])
BINS["sim"] = dict(src=["h_sim.cc"])
CHECKS["S01"] = dict(
        jobs=[dict(bin="sim", prop="run_laws", tools=["sim2"], quick=200, thorough=4000, cpu_limit=3000, shrink_time=60)],
        rule="run_laws: at least three accepted time steps")
BINS["sim2t"] = dict(BINS["sim2"], flags=[*SIM, "-DSINTERING_DIM=2", "-DWITH_TENSORIAL_MOBILITY"])
CHECKS["S03"] = dict(
        jobs=[dict(bin="sim", prop="same_physics", tools=["sim2", "sim2t"], quick=200, thorough=4000, cpu_limit=3000, shrink_time=60)],
        rule="at least two time steps in both runs")
CHECKS["S02"] = dict(
        jobs=[dict(bin="sim", prop="restart", tools=["sim2"], quick=200, thorough=4000, cpu_limit=3000, shrink_time=60)],
        rule="at least two steps after the restart")

BINS["mesh2"] = dict(src=["h_mesh.cc"], app=["src/grid/grid_tools.cc"], flags=["-DOPDIM=2"])
BINS["mesh3"] = dict(src=["h_mesh.cc"], app=["src/grid/grid_tools.cc"], flags=["-DOPDIM=3"])
CHECKS["M01"] = dict(
        jobs=[dict(bin="mesh2", prop="mesh_creation", quick=4000, thorough=100000),
              dict(bin="mesh3", prop="mesh_creation", quick=1500, thorough=40000),
              dict(bin="mesh2", prop="mesh_creation", np=3, quick=400, thorough=10000)],
        rule="at least one refinement")
CHECKS["M02"] = dict(
        jobs=[dict(bin="mesh2", prop="mesh_adaption", quick=4000, thorough=100000),
              dict(bin="mesh3", prop="mesh_adaption", quick=1000, thorough=40000),
              dict(bin="mesh2", prop="mesh_adaption", np=3, quick=1200, thorough=30000),
              dict(bin="mesh2", prop="mesh_coarsening", quick=2000, thorough=50000),
              dict(bin="mesh3", prop="mesh_coarsening", quick=800, thorough=20000),
              dict(bin="mesh2", prop="mesh_coarsening", np=3, quick=600, thorough=20000)],
        rule="some cell was refined or coarsened")
